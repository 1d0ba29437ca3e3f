fn foo() {
  let x = 1;
  let  y  = &&&x;
  let a = ***y;
}