fn main() {
  let mut x = (0, 1);
  x = (2, 3);
   x ;
}