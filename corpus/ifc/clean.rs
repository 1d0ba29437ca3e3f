use flowistry_ifc_traits::{Insecure, Secure};
pub struct Password(pub String);
impl Secure for Password {}
pub struct Log(pub String);
impl Insecure for Log {}
pub fn clean(p: Password, s: String) -> Log { drop(p); Log(s) }
pub fn refs_ok(p: &Password, l: &mut Log, s: String) { l.0 = s; }
pub fn only_secure(p: Password) -> Password { p }
pub fn only_insecure(l: Log) -> Log { l }
