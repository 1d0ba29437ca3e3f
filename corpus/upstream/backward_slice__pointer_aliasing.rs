fn main() {
  let mut x = 1;
  let y = &mut x;
  let z = y;
  *z = 2;
   x ;
}