fn foo(x: &mut i32) {
  *x = 2;
  let y = *x;
   y ;
}

fn main() {}