struct Foo(usize, usize);
fn main() {
  let a = 1;
  let b = 2;
  let mut  x  = Foo(a, b);
  x.0 += 1;
  let z = x.0;
}