fn main() {
  let mut x = 0;
  loop {
    if x == 10 {
      break;
    }
    x += 1;
  }
   x ;
}