fn what() {
    let x = "߷߷߷߷";
}

fn main() {
  let x = "߷߷߷߷";
  let y = x; // ߷
   y ;
}