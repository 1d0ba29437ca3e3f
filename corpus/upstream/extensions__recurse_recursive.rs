/* recurse */
fn foobar(x: &mut i32) -> i32 {
  foobar(x) - 1
}

fn main() {
  let mut x = 1;
  foobar(&mut x);
   x ;
}