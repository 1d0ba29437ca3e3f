// should not include line 1 b/c of overriding assignment

fn main() {
  let mut x = 1;
  x = 2;
   x ;
}