fn main() {
  let mut x = 1;
  let f = || { x + 1; };
  f();
   x ;
}