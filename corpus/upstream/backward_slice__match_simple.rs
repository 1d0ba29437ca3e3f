fn main() {
  let x = 1;
  let y = match Some(x) {
    None => 1,
    Some(x) => x,
  };
   y ;
}