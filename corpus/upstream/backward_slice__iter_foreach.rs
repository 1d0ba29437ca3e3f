fn foo() -> usize {
  let mut x = 0;
  std::iter::once(&mut x).for_each(|y| *y += 1);
  return  x ;
}