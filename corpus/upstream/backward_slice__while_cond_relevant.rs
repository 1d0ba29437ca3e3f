fn main() {
  let mut x = 1;
  let y = 2;
  while x < y {
    x += 1;
  }
   x ;
}