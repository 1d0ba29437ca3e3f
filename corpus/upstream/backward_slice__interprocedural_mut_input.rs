// y should be relevant b/c it could be involved in computation of x

fn foo(x: &mut i32, y: i32) {}

fn main() {
  let mut x = 1;
  let y = 2;
  foo(&mut x, y);
   x ;
}