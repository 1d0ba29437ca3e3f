fn main() {
  let x = if true {
    1
  } else {
    2
  };
   x ;
}