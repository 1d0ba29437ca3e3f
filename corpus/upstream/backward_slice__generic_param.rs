fn main() {}

fn foo<T>(t: T) {
  let x = t;
   x ;
}