fn main() {
  let mut x = 1;
  x = 1;
  let mut y = 2;
  let z = if true { &mut x } else { &mut y };
  *z += 1;
   x ;
}