fn main() {
   let mut x = 1; 
  let y = x + 2;
  let z = y;
}