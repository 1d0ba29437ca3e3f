use std::ops::AddAssign;
struct Foo(i32, i32);
impl Foo {
  fn foo(&mut self) {
    let x = self.0.abs();
    if self.1 == 0 {
      self.1.add_assign(x);
       &self.0 ;
    }
  }
}