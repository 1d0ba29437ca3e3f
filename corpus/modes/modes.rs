// first line: outside every function
pub fn helper(a: &mut i32, b: &i32) -> i32 {
  *a += 1;
  *b
}
pub fn shared(x: &i32, y: &i32) -> i32 { *x }
pub fn context(p: i32, q: i32) -> i32 {
  let mut a = p;
  let b = q;
  let c = helper(&mut a, &b);
  let d = a;
  let e = b;
  c + d + e
}
pub fn mutability(p: i32, q: i32) -> i32 {
  let a = p;
  let b = q;
  let c = shared(&a, &b);
  let d = a;
  d + b
}
pub fn pointers<'a, 'b>(x: &'a mut i32, y: &'b mut i32, v: i32) -> i32 {
  *x = v;
  let z = *y;
  z + 1
}
