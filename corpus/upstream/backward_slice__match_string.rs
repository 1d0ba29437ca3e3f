fn foo(s: &str) {
 let  x  = match s {
   "a" => 1,
   _ => 2
 };
}