fn main() {
  let mut y = &mut 0;
  *y = 1;
  let  z  = &y;
}