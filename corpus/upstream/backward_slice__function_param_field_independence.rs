fn foo(x: &mut (i32, i32)) {
  x.0 += 1;
  x.1 += 1;
   x.0 ;
}

fn main() {}