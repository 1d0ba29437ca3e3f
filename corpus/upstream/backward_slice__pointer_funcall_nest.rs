fn f(x: &&mut i32) {}

fn main() {
  let mut x = 1;
  f(&&mut x);
   x ;
}