fn g(s: i32) -> (i32, i32) { (s, s) }
pub fn f(x: &mut (i32, i32), s: i32) -> i32 { *x = g(s); (*x).0 }
pub fn f2(x: &mut (i32, i32), s: (i32,i32)) -> i32 { *x = s; (*x).0 }
fn mk<'a>(y: &'a i32) -> (&'a i32, i32) { (y, 0) }
pub fn h<'a>(x: &mut (&'a i32, i32), y: &'a i32) -> i32 { *x = mk(y); *(*x).0 }
pub union U { a: i32, b: i32 }
pub fn u(s: i32) -> i32 { let u = U { b: s }; unsafe { u.b } }
pub fn u2(s: i32) -> i32 { let u = U { b: s }; let v = u; unsafe { v.b } }
pub fn lp(s: i32) { if s > 0 { loop {} } }
fn two() -> (i32, i32) { (1, 2) }
fn br(c: bool, a: i32, b: i32) -> (i32, i32) { if c { (a, b) } else { two() } }
pub fn rec(c: bool, a: i32, b: i32) -> i32 { let x = br(c, a, b); x.0 }
mod m { pub struct S { a: i32, pub b: i32 } pub fn mks(q: i32) -> S { S { a: q, b: q } } }
pub fn ms(q: i32) -> i32 { let y = m::mks(q); let x = y; x.b }
