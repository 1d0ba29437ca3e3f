mod m {
  pub struct H { pub b: i32, a: i32 }
  impl H {
    pub fn both(&mut self, x: i32) -> i32 { self.b = x; self.a }
    pub fn get(&self) -> i32 { self.a }
  }
}
use m::H;
pub fn f0(mut v: H, w: i32) -> i32 {
  let _h = v.both(w);
  0
}
pub fn f1(mut v: H, w: i32) -> i32 {
  let _h = v.both(v.get());
  0
}
pub fn f2(mut v: H, w: i32) -> i32 {
  v.b = w;
  let _h = v.get();
  let _j = v.both(w);
  0
}
