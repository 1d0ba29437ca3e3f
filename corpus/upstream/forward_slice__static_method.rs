struct Foo;
impl Foo {
  fn bar() -> i32 { 0 }
}

fn ok() {
  let x =  Foo::bar() ;
  let y = x;
}