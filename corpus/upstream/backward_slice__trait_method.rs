trait Foo {
  fn bar(&self, x: i32) {
    let mut y = x + 1;
    y -= 1;
     y ;
  }
}