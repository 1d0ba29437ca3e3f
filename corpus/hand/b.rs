pub fn lp(s: i32) { if s > 0 { loop {} } }
pub fn lp2() { loop {} }
pub fn lp3() { while true {} }
pub fn lp4(x: &mut i32) { loop { *x += 1; } }
pub fn lp5(mut f: impl FnMut()) -> ! { loop { f() } }
pub unsafe fn lp6() { loop { std::hint::unreachable_unchecked() } }
