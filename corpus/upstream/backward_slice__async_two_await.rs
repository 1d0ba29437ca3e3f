async fn bar() -> i32 { 0 }
async fn foo() {
    let a = bar().await;
    let  b  = bar().await;
}
fn main(){}