fn foo(x: (&mut i32,)) {
  *x.0 = 2;
  let y = *x.0;
   y ;
}

fn main() {}