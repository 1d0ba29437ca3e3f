use flowistry_ifc_traits::{Insecure, Secure};
pub struct S1(pub i32);
impl Secure for S1 {}
pub struct I1(pub i32);
impl Insecure for I1 {}
pub struct Pair<T>(pub T, pub T);
impl<T: Secure> Secure for Pair<T> {}
pub fn up(i: I1) -> S1 { S1(i.0) }
pub fn down(s: S1, c: bool) -> Option<I1> { if c { Some(I1(s.0)) } else { None } }
pub fn pair(p: Pair<S1>) -> I1 { I1(p.0.0 + p.1.0) }
pub fn half(p: Pair<S1>) -> I1 { I1(p.1.0) }
pub fn loops(mut s: S1, n: i32) -> I1 {
  let mut i = I1(0);
  for k in 0 .. n { i.0 += k; if s.0 > k { s.0 -= 1; continue; } else { break; } }
  i
}
