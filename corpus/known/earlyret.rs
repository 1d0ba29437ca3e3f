pub fn dep_early_return(a: i32, c: bool) -> i32 {
  if c {
    return 1;
  }
  a
}
