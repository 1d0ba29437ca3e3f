fn main() {
  let mut x = 1;
  let mut y = 2;
  if true {
    x = 3;
  } else {
    y = x;
  }
   x ;
}