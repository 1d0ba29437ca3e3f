struct Foo(i32, i32);
impl Foo {
  fn foo(&mut self) {
    let x = 1;
    let y = 2;
    self.0 = x;
    self.1 = y;
     self.1 ;
  }
}