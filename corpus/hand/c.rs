
pub struct P0 { pub a: i32, pub b: u8, pub c: (i32, bool) }
impl Default for P0 { fn default() -> Self { P0 { a: 1, b: 2, c: (3, false) } } }
fn br0(c: bool, a: i32, b: i32) -> P0 { if c { P0 { a, b: 2, c: (b, c) } } else { Default::default() } }
pub fn rec0(c: bool, a: i32, b: i32) -> i32 { let x = br0(c, a, b); x.a }

pub struct P1 { pub a: i32, pub b: u16, pub c: (i32, bool) }
impl Default for P1 { fn default() -> Self { P1 { a: 1, b: 2, c: (3, false) } } }
fn br1(c: bool, a: i32, b: i32) -> P1 { if c { P1 { a, b: 2, c: (b, c) } } else { Default::default() } }
pub fn rec1(c: bool, a: i32, b: i32) -> i32 { let x = br1(c, a, b); x.a }

pub struct P2 { pub a: i32, pub b: u32, pub c: (i32, bool) }
impl Default for P2 { fn default() -> Self { P2 { a: 1, b: 2, c: (3, false) } } }
fn br2(c: bool, a: i32, b: i32) -> P2 { if c { P2 { a, b: 2, c: (b, c) } } else { Default::default() } }
pub fn rec2(c: bool, a: i32, b: i32) -> i32 { let x = br2(c, a, b); x.a }

pub struct P3 { pub a: i32, pub b: u64, pub c: (i32, bool) }
impl Default for P3 { fn default() -> Self { P3 { a: 1, b: 2, c: (3, false) } } }
fn br3(c: bool, a: i32, b: i32) -> P3 { if c { P3 { a, b: 2, c: (b, c) } } else { Default::default() } }
pub fn rec3(c: bool, a: i32, b: i32) -> i32 { let x = br3(c, a, b); x.a }

pub struct P4 { pub a: i32, pub b: u8, pub c: (i32, bool) }
impl Default for P4 { fn default() -> Self { P4 { a: 1, b: 2, c: (3, false) } } }
fn br4(c: bool, a: i32, b: i32) -> P4 { if c { P4 { a, b: 2, c: (b, c) } } else { Default::default() } }
pub fn rec4(c: bool, a: i32, b: i32) -> i32 { let x = br4(c, a, b); x.a }

pub struct P5 { pub a: i32, pub b: u16, pub c: (i32, bool) }
impl Default for P5 { fn default() -> Self { P5 { a: 1, b: 2, c: (3, false) } } }
fn br5(c: bool, a: i32, b: i32) -> P5 { if c { P5 { a, b: 2, c: (b, c) } } else { Default::default() } }
pub fn rec5(c: bool, a: i32, b: i32) -> i32 { let x = br5(c, a, b); x.a }

pub struct P6 { pub a: i32, pub b: u32, pub c: (i32, bool) }
impl Default for P6 { fn default() -> Self { P6 { a: 1, b: 2, c: (3, false) } } }
fn br6(c: bool, a: i32, b: i32) -> P6 { if c { P6 { a, b: 2, c: (b, c) } } else { Default::default() } }
pub fn rec6(c: bool, a: i32, b: i32) -> i32 { let x = br6(c, a, b); x.a }

pub struct P7 { pub a: i32, pub b: u64, pub c: (i32, bool) }
impl Default for P7 { fn default() -> Self { P7 { a: 1, b: 2, c: (3, false) } } }
fn br7(c: bool, a: i32, b: i32) -> P7 { if c { P7 { a, b: 2, c: (b, c) } } else { Default::default() } }
pub fn rec7(c: bool, a: i32, b: i32) -> i32 { let x = br7(c, a, b); x.a }

pub struct P8 { pub a: i32, pub b: u8, pub c: (i32, bool) }
impl Default for P8 { fn default() -> Self { P8 { a: 1, b: 2, c: (3, false) } } }
fn br8(c: bool, a: i32, b: i32) -> P8 { if c { P8 { a, b: 2, c: (b, c) } } else { Default::default() } }
pub fn rec8(c: bool, a: i32, b: i32) -> i32 { let x = br8(c, a, b); x.a }

pub struct P9 { pub a: i32, pub b: u16, pub c: (i32, bool) }
impl Default for P9 { fn default() -> Self { P9 { a: 1, b: 2, c: (3, false) } } }
fn br9(c: bool, a: i32, b: i32) -> P9 { if c { P9 { a, b: 2, c: (b, c) } } else { Default::default() } }
pub fn rec9(c: bool, a: i32, b: i32) -> i32 { let x = br9(c, a, b); x.a }

pub struct P10 { pub a: i32, pub b: u32, pub c: (i32, bool) }
impl Default for P10 { fn default() -> Self { P10 { a: 1, b: 2, c: (3, false) } } }
fn br10(c: bool, a: i32, b: i32) -> P10 { if c { P10 { a, b: 2, c: (b, c) } } else { Default::default() } }
pub fn rec10(c: bool, a: i32, b: i32) -> i32 { let x = br10(c, a, b); x.a }

pub struct P11 { pub a: i32, pub b: u64, pub c: (i32, bool) }
impl Default for P11 { fn default() -> Self { P11 { a: 1, b: 2, c: (3, false) } } }
fn br11(c: bool, a: i32, b: i32) -> P11 { if c { P11 { a, b: 2, c: (b, c) } } else { Default::default() } }
pub fn rec11(c: bool, a: i32, b: i32) -> i32 { let x = br11(c, a, b); x.a }
