// the flow is in the first of several bodies, and inside a module
use flowistry_ifc_traits::{Insecure, Secure};
pub mod inner {
  pub struct Token(pub [u8; 4]);
  impl super::Secure for Token {}
  pub struct Wire(pub [u8; 4]);
  impl super::Insecure for Wire {}
  pub fn send(t: Token) -> Wire { Wire(t.0) }
}
pub fn nothing(x: i32) -> i32 { x }
pub fn ok(t: inner::Token, w: inner::Wire) -> (inner::Token, inner::Wire) { (t, w) }
