fn main() {
    let mut v: Vec<&str> = vec![];
    v.sort_by_key(|x| x.len());
     v ;
}