fn main() {
  let mut y = Box::new(0);
  *y = 1;
  let w = y;
  let  z  = *w;
}