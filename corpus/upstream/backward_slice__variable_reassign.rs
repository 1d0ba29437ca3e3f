// should include line 1 b/c of reassign

fn main() {
  let mut x = 1;
  x += 2;
   x ;
}