pub struct S<'a> { x: &'a mut u8, y: &'a mut i32 }
pub struct T<'a> { x: &'a mut u16, y: &'a mut i32 }
pub fn inner(s: S, t: T) {
  let r = &mut *t.y;
  *r = 5;
  let z = *s.y;
  z;
}

pub fn pick<'a>(x: &'a (i32, i32), y: &'a mut (i32, i32)) -> &'a mut (i32, i32) { y }
pub fn shared_field<'a>(x: &'a (i32, i32), y: &'a mut (i32, i32)) -> i32 { let r = pick(x, y); r.0 = 1; x.0 }
pub struct P<'a> { r: &'a mut (i32, i32), s: &'a (i32, i32) }
pub fn shared_field_in<'a>(p: P<'a>, k: i32) -> i32 { let q = p.s; let r = pick(p.s, p.r); r.1 = k; q.1 }
