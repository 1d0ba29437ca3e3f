fn main() {
  let  x  = 1;
  let y = match x {
    _ => 0
  };
  let z = y;
}