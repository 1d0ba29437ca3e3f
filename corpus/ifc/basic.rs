use flowistry_ifc_traits::{Insecure, Secure};
pub struct Password(pub String);
impl Secure for Password {}
pub struct Log(pub String);
impl Insecure for Log {}
pub struct Both { pub p: Password, pub l: Log }
pub fn leak(p: Password) -> Log { Log(p.0.clone()) }
pub fn clean(p: Password, s: String) -> Log { drop(p); Log(s) }
pub fn branch(p: Password, s: String) -> Log {
  if p.0.len() > 3 { Log(String::new()) } else { Log(s) }
}
pub fn early(p: Password, s: String, c: bool) -> Log {
  if c { return Log(s); }
  Log(p.0)
}
pub fn early2(p: Password, s: String, c: bool) -> Log {
  if c { return Log(p.0); }
  Log(s)
}
pub fn overwritten(p: Password, s: String) -> Log {
  let mut l = Log(p.0);
  l = Log(s);
  l
}
pub fn fields(b: Both) -> Log { let Both { p, l } = b; drop(p); l }
pub fn fields2(mut b: Both) -> Both { b.l.0 = b.p.0.clone(); b }
pub fn refs(p: &Password, l: &mut Log) { l.0 = p.0.clone(); }
pub fn refs_ok(p: &Password, l: &mut Log, s: String) { l.0 = s; }
pub fn never(p: Password) -> ! { let _l = Log(p.0); loop {} }
pub fn diverge(p: Password) -> Log { let _l = Log(p.0); panic!() }
pub fn closure(p: Password, l: Log) -> impl FnOnce() -> Log { move || { let q = p; let mut m = l; m.0 = q.0; m } }
pub fn implicit(p: Password) -> Log {
  let mut n = 0;
  while n < p.0.len() { n += 1; }
  let k = n;
  Log(k.to_string())
}
macro_rules! mk { ($p:expr) => {{ let l = Log($p.0.clone()); l }} }
pub fn in_macro(p: Password) -> usize { let k = mk!(p); k.0.len() }
