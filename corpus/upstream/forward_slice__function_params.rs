fn foo( x : i32) {
  let y = x + 1;
  let z = y;
}
fn main() {}