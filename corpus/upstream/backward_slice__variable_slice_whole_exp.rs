fn main() {
  let x = 1;
  let y = 2;
   x + y ;
}