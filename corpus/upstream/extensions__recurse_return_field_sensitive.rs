/* recurse */
fn mk(x: i32, y: i32) -> (i32, i32) { (x, y) }
fn main() {
  let x = 0;
  let y = 1;
  let t = mk(x, y);
   t.0 ;
}