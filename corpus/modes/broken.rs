pub fn f(x: i32) -> bool { x }
