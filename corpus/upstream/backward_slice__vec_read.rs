fn main() {
  let x = 1;
  let y = vec![x];
  let  z  = y[0];
}