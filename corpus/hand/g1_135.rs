
#[derive(Clone, Copy)]
pub struct S { pub a: i32, pub b: (i32, i32) }
pub struct P<'a> { pub r: &'a mut i32, pub n: i32 }
#[derive(Clone, Copy)]
pub struct Q<'a> { pub r: &'a i32, pub t: (i32, i32) }
#[derive(Clone, Copy)]
pub enum E { A(i32), B { x: i32, y: i32 }, C }
pub struct W(pub S, pub i32);
mod m {
  pub struct H { pub b: i32, a: i32 }
  impl H {
    pub fn new(x: i32, y: i32) -> H { H { b: y, a: x } }
    pub fn get(&self) -> i32 { self.a }
    pub fn set(&mut self, x: i32) { self.a = x; }
    pub fn both(&mut self, x: i32) -> i32 { self.b = x; self.a }
  }
}
fn inc(x: &mut i32) { *x += 1; }
fn add(x: i32, y: i32) -> i32 { x + y }
fn get(x: &i32) -> i32 { *x }
fn put(x: &mut i32, y: i32) -> bool { *x = y; y > 0 }
fn pick<'a>(c: bool, x: &'a mut i32, y: &'a mut i32) -> &'a mut i32 { if c { x } else { y } }
fn first<'a>(t: &'a mut (i32, i32)) -> &'a mut i32 { &mut t.0 }
fn second<'a>(t: &'a (i32, i32), _o: &i32) -> &'a i32 { &t.1 }
fn fill(s: &mut S, v: i32) { s.a = v; s.b.1 += v; }
fn pair(x: i32) -> (i32, i32) { (x, x) }
fn mks(x: i32, y: i32) -> S { S { a: x, b: (y, x) } }
fn rec(n: i32, x: &mut i32) -> i32 { if n > 0 { *x += n; rec(n - 1, x) } else { *x } }
fn ev(n: i32, x: &mut i32) { if n > 0 { od(n - 1, x) } }
fn od(n: i32, x: &mut i32) { *x = n; ev(n - 1, x) }
fn apply(f: impl Fn(i32) -> i32, x: i32) -> i32 { f(x) }
fn apply_mut(mut f: impl FnMut()) { f() }
fn sink<T>(_: T) {}
fn maybe(c: bool, x: i32) -> Option<i32> { if c { Some(x) } else { None } }
fn choose(c: bool, s: S) -> S { if c { S { a: s.a, b: (1, 2) } } else { Clone::clone(&s) } }
  
pub fn f0(mut v1: &mut [i32; 2], mut v2: Box<i32>) -> i32 {
  let v3: *mut i32 = &mut v2 as *mut _ as *mut i32; unsafe { *v3 = v1[1]; }
  let mut v4 = *v2 > 2;
  v1[1] += add(apply(|q| q + 1, v1[0]), v1[1]);
  while *v2 > 4 {
    while v4 {
      v1[1] = add(mks(*v2, *v2).a, v1[1]);
      if v4 { return v1[0]; }
      v1[1] = v1[1];
    }
    while v4 {
    }
  }
  v1[1] += apply(|q| q + 1, *v2);
  let v5 = match maybe(v1[1] > 4, *v2) { Some(z) => z, None => 0 };
  let mut v6 = v5;
  v6 = if *v2 > 2 { get(&v6) } else { v5 };
  get(&v1[1])
}
  
pub fn f1(mut v7: E, mut v8: m::H) -> i32 {
  if v8.get() > 4 {
    let mut v9 = v8.b;
    if v9 > 2 {
      let mut v10 = Box::new(v8.get());
      let v11: *mut i32 = &mut v10 as *mut _ as *mut i32; unsafe { *v11 = v9; }
    } else {
      v8.b += v8.b;
      if v8.get() > 4 { return v9; }
    }
    let mut v12 = &mut v9;
  }
  while v8.b > 1 {
    v8.b = 0;
    let mut v13 = v8.get();
  }
  v8.b += v8.b;
  if v8.get() > 3 {
    if v8.b > 2 { return v8.b; }
    if v8.get() > 2 { return v8.get(); }
    if v8.get() > 4 {
      let _h = v8.both(v8.b);
      v8.b = add(v8.b, v8.get());
      v8.b += if v8.get() > 0 { 0 } else { v8.b } + v8.b;
    } else {
      let mut v14 = (&mut v8.b, 1);
    }
  } else {
    let v15 = mks(1, 2);
    match v7 { E::A(v16) => {
      let mut v17 = (1, 2);
    } E::B { x: v18, y: v19 } => {
      { let mut v20 = || { v8.b = v8.get(); }; v20(); }
    } E::C => {} }
    let mut v21 = v15.b.0 > 0;
  }
  let mut v22 = (&mut v8.b, 1);
  add(6, *v22.0)
}
