fn foo<'a, 'b: 'a>(x: &'a mut i32, y: &'b mut i32) -> &'a mut i32 { x }

fn main() {
  let mut x = 1;
  let mut y = 2;
  let z = foo(&mut x, &mut y);
  *z += 1;
   y ;
}