fn ok() -> i32 {
  let  x  = 1;
  return x;
}