
#[derive(Clone, Copy)]
pub struct S { pub a: i32, pub b: (i32, i32) }
pub struct P<'a> { pub r: &'a mut i32, pub n: i32 }
#[derive(Clone, Copy)]
pub struct Q<'a> { pub r: &'a i32, pub t: (i32, i32) }
#[derive(Clone, Copy)]
pub enum E { A(i32), B { x: i32, y: i32 }, C }
pub struct W(pub S, pub i32);
mod m {
  pub struct H { pub b: i32, a: i32 }
  impl H {
    pub fn new(x: i32, y: i32) -> H { H { b: y, a: x } }
    pub fn get(&self) -> i32 { self.a }
    pub fn set(&mut self, x: i32) { self.a = x; }
    pub fn both(&mut self, x: i32) -> i32 { self.b = x; self.a }
  }
}
fn inc(x: &mut i32) { *x += 1; }
fn add(x: i32, y: i32) -> i32 { x + y }
fn get(x: &i32) -> i32 { *x }
fn put(x: &mut i32, y: i32) -> bool { *x = y; y > 0 }
fn pick<'a>(c: bool, x: &'a mut i32, y: &'a mut i32) -> &'a mut i32 { if c { x } else { y } }
fn first<'a>(t: &'a mut (i32, i32)) -> &'a mut i32 { &mut t.0 }
fn second<'a>(t: &'a (i32, i32), _o: &i32) -> &'a i32 { &t.1 }
fn fill(s: &mut S, v: i32) { s.a = v; s.b.1 += v; }
fn pair(x: i32) -> (i32, i32) { (x, x) }
fn mks(x: i32, y: i32) -> S { S { a: x, b: (y, x) } }
fn rec(n: i32, x: &mut i32) -> i32 { if n > 0 { *x += n; rec(n - 1, x) } else { *x } }
fn ev(n: i32, x: &mut i32) { if n > 0 { od(n - 1, x) } }
fn od(n: i32, x: &mut i32) { *x = n; ev(n - 1, x) }
fn apply(f: impl Fn(i32) -> i32, x: i32) -> i32 { f(x) }
fn apply_mut(mut f: impl FnMut()) { f() }
fn sink<T>(_: T) {}
fn maybe(c: bool, x: i32) -> Option<i32> { if c { Some(x) } else { None } }
fn choose(c: bool, s: S) -> S { if c { S { a: s.a, b: (1, 2) } } else { Clone::clone(&s) } }
  
pub fn f0(mut v1: &i32, mut v2: m::H) -> i32 {
  if v2.b > 3 {
    while *v1 > 2 {
      let mut v3 = mks(1, 2);
    }
    v2.b += 4;
  }
  if v2.get() > 3 {
    v2.set(v2.get());
  } else {
    let v4 = mks(1, 2);
    let _k = put(&mut v2.b, *v1);
  }
  v2.b = 6;
  let _h = v2.both(*v1);
  if *v1 > 1 {
    if *v1 > 3 {
      let mut v5 = S { a: v2.b, b: (*v1, *v1) };
    }
    let mut v6 = *v1;
  }
  v2.b = apply(|q| q + 1, v2.b);
  if v2.b > 4 {
    if v2.get() > 0 {
      let mut v7 = (*v1, 8);
    } else {
      let mut v8 = v2.b;
      let mut v9 = if v2.b > 2 { *v1 } else { v2.b };
      if v9 > 2 { return v2.get(); }
    }
    let mut v10 = apply(|q| q + 1, *v1);
    if v2.get() > 1 {
    } else {
      let v11: *mut i32 = &mut v10 as *mut _ as *mut i32; unsafe { *v11 = v2.b; }
    }
  }
  let _h = v2.both(v2.get());
  add(*v1, *v1)
}
  
pub fn f1(mut v12: &mut [i32; 2]) -> i32 {
  let mut v13 = Box::new(v12[1]);
  apply_mut(|| *v13 += 1);
  while v12[0] > 4 {
    v12[1] = *v13;
    if *v13 > 4 {
      let mut v14 = v12[1];
      v12[0] += v14 + *v13 + v14;
    } else {
      let v15 = 8;
      { let mut v16 = || { *v13 = *v13; }; v16(); }
    }
    if v12[0] > 3 {
      *v13 = *v13;
      let v17: *mut i32 = &mut v13 as *mut _ as *mut i32; unsafe { *v17 = *v13; }
      let mut v18 = (*v13, *v13);
    }
  }
  if *v13 > 4 { return *v13; }
  while v12[0] > 1 {
    let mut v19 = *v13 > 0;
    let mut v20 = W(mks(1, 2), *v13);
  }
  apply(|q| q + 1, v12[0])
}
