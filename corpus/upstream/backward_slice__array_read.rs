fn main() {
  let x = [0; 1];
  let y = x[0];
   y ;
}