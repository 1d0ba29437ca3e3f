fn foo<'a, 'b>(x: &'a mut i32, y: &'b mut i32) -> &'b mut i32 { y }

fn main() {
  let mut x = 1;
  let mut y = 2;
  let z = foo(&mut x, &mut y);
  *z += 1;
   x ;
}