fn main() {
  let mut x = 1;
  let mut y = &mut x;
  let z = &mut y;
  **z = 2;
   x ;
}