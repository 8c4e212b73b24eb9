#[path = "../../harness/src/lib.rs"]
mod lib;
pub use lib::*;
fn main() {
    let a: Vec<String> = std::env::args().collect();
    let nums = |s: &str| -> Vec<u64> { s.split(',').filter(|x| !x.is_empty()).map(|x| x.parse().unwrap()).collect() };
    sym::raw::INPUT.with(|i| *i.borrow_mut() = (nums(a.get(2).map_or("", |s| s)), 0));
    sym::raw::PARAMS.with(|i| *i.borrow_mut() = nums(a.get(3).map_or("", |s| s)));
    let h = HARNESSES.iter().find(|h| h.0 == a[1]).expect("harness").1;
    h();
    println!("REPLAY-OK");
}
