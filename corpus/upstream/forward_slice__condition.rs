fn main() {
   let x = 1; 
  let y = 2;
  let z = if true {
    x
  } else {
    y
  };
  let w = z;
}