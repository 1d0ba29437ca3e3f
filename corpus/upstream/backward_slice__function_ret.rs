fn foo(x: i32) -> i32 {
   x 
}

fn main() {}