// shouldn't include line 1 b/c x.1 isn't relevant

fn main() {
  let mut x = (0, 1);
  x.0 = 1;
   x.0 ;
}