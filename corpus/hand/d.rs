
fn get0<'a>(t: &'a mut (u8, i32), c: bool) -> &'a mut u8 { &mut t.0 }
fn g0(p: &mut u8) { }
pub fn f0(c: bool, a: i32) { let mut t = (1, a); let mut p = &mut t.0; if c { p = get0(&mut t, c); } g0(p); let z = t.0; }

fn get1<'a>(t: &'a mut (u16, i32), c: bool) -> &'a mut u16 { &mut t.0 }
fn g1(p: &mut u16) { }
pub fn f1(c: bool, a: i32) { let mut t = (1, a); let mut p = &mut t.0; if c { p = get1(&mut t, c); } g1(p); let z = t.0; }

fn get2<'a>(t: &'a mut (u32, i32), c: bool) -> &'a mut u32 { &mut t.0 }
fn g2(p: &mut u32) { }
pub fn f2(c: bool, a: i32) { let mut t = (1, a); let mut p = &mut t.0; if c { p = get2(&mut t, c); } g2(p); let z = t.0; }

fn get3<'a>(t: &'a mut (u64, i32), c: bool) -> &'a mut u64 { &mut t.0 }
fn g3(p: &mut u64) { }
pub fn f3(c: bool, a: i32) { let mut t = (1, a); let mut p = &mut t.0; if c { p = get3(&mut t, c); } g3(p); let z = t.0; }

fn get4<'a>(t: &'a mut (u8, i32), c: bool) -> &'a mut u8 { &mut t.0 }
fn g4(p: &mut u8) { }
pub fn f4(c: bool, a: i32) { let mut t = (1, a); let mut p = &mut t.0; if c { p = get4(&mut t, c); } g4(p); let z = t.0; }

fn get5<'a>(t: &'a mut (u16, i32), c: bool) -> &'a mut u16 { &mut t.0 }
fn g5(p: &mut u16) { }
pub fn f5(c: bool, a: i32) { let mut t = (1, a); let mut p = &mut t.0; if c { p = get5(&mut t, c); } g5(p); let z = t.0; }

fn get6<'a>(t: &'a mut (u32, i32), c: bool) -> &'a mut u32 { &mut t.0 }
fn g6(p: &mut u32) { }
pub fn f6(c: bool, a: i32) { let mut t = (1, a); let mut p = &mut t.0; if c { p = get6(&mut t, c); } g6(p); let z = t.0; }

fn get7<'a>(t: &'a mut (u64, i32), c: bool) -> &'a mut u64 { &mut t.0 }
fn g7(p: &mut u64) { }
pub fn f7(c: bool, a: i32) { let mut t = (1, a); let mut p = &mut t.0; if c { p = get7(&mut t, c); } g7(p); let z = t.0; }
