/* recurse */
// TODO: y.1 += 1 shouldn't be part of the slice
  //  see tuple_copy test

fn other(x: &mut i32, y: (i32, i32)) { *x += y.0; }
fn main() {
  let mut x = 1;
  let mut y = (0, 0);
  y.0 += 1;
  y.1 += 1;
  other(&mut x, y);
   x ;
}