fn foo(x: (&mut i32,)) -> (&mut i32,) {
  *x.0 = 1;
   x 
}
fn main() {}