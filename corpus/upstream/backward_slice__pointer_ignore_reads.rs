// n should be ignored

fn main() {
  let mut x = 1;
  let y = &mut x;
  let n = *y;
   x ;
}