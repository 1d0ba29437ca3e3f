/* ignoremut */
fn other(x: &i32) {}
fn main() {
  let x = 1;
  other(&x);
   x ;
}