mod m {
  #[derive(Clone, Copy)]
  pub struct S { a: i32, pub b: i32 }
  pub fn mks(x: i32) -> S { S { a: 0, b: x } }
}
pub fn dep_copy_past_private_field(q: i32) -> i32 {
  let y = m::mks(q);
  let x = y;
  x.b
}
