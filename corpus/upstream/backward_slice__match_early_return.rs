fn foo() -> usize {
 let x = match 0 {
   0 => 1,
   1 => 2,
   _ => { return 3; }
 };
  x 
}