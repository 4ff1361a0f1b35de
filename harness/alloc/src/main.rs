//! Replays one concrete input of an allocator contract natively.
use std::panic::{catch_unwind, AssertUnwindSafe};
use alloc_contracts::rt::verif as m;
fn main() {
    let a: Vec<String> = std::env::args().collect();
    #[cfg(heap_history)]
    if a[1] == "history" {
        match m::history(a[2].parse().unwrap(), a[3].parse().unwrap()) {
            Ok(n) => println!("HISTORY OK {n}"),
            Err(e) => println!("HISTORY FAILS {e}"),
        }
        return;
    }
    let vals = if a[3].is_empty() { vec![] } else {
        a[3].split(';').map(|v| v.split(',').filter(|x| !x.is_empty()).map(|x| x.parse().unwrap()).collect()).collect() };
    m::nat::load(vals);
    let r = catch_unwind(AssertUnwindSafe(|| assert!(m::run(&a[2]))));
    let failed = m::nat::failed();
    let rejected = matches!(&r, Err(e) if e.is::<m::nat::Rejected>());
    if !failed.is_empty() { println!("REPLAY FAILS {}", failed.join(" ")); }
    else if rejected { println!("REPLAY REJECTED precondition not met"); }
    else if r.is_err() && !a[2].contains("_partial") { println!("REPLAY FAILS panic in the code under contract"); }
    else { println!("REPLAY PASSES"); }
}
