fn main() {
  let mut x = 1;
  let mut f = || { x += 1; };
  f();
   x ;
}