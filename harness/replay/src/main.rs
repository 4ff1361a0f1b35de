//! Replays one concrete input of a contract harness against the real code, natively.
use std::panic::{catch_unwind, AssertUnwindSafe};

fn parse(s: &str) -> Vec<Vec<u8>> {
    if s.is_empty() { return vec![]; }
    s.split(';').map(|v| v.split(',').filter(|x| !x.is_empty()).map(|x| x.parse().unwrap()).collect()).collect()
}

macro_rules! go { ($m:path, $name:expr, $vals:expr) => {{
    use $m as m;
    m::nat::load($vals);
    let r = catch_unwind(AssertUnwindSafe(|| assert!(m::run($name), "no such harness")));
    let failed = m::nat::failed();
    let rejected = matches!(&r, Err(e) if e.is::<m::nat::Rejected>());
    if !failed.is_empty() { println!("REPLAY FAILS {}", failed.join(" ")); }
    else if rejected { println!("REPLAY REJECTED precondition not met"); }
    else if r.is_err() && !$name.contains("_partial") { println!("REPLAY FAILS panic in the code under contract"); }
    else { println!("REPLAY PASSES"); }
}} }

fn main() {
    let a: Vec<String> = std::env::args().collect();
    if a[1] == "enc" { return enc(&a[2], &a[3]); }
    let vals = parse(&a[3]);
    match a[1].as_str() {
        "fhevm" => go!(fhevm::verif, a[2].as_str(), vals),
        "testvm" => go!(compiler::interpreter::verif::testvm_verif, a[2].as_str(), vals),
        c => panic!("unknown crate {c}"),
    }
}

/// enc CASE name=value,...: one contract driver of the encrypted half, on real ciphertexts
fn enc(case: &str, vals: &str) {
    use fhevm::verif::enc::*;
    if ["elf", "tape", "ctape", "run"].contains(&case.split(':').next().unwrap()) {
        let only = vals.strip_prefix("only=").map(|v| v.parse().unwrap());
        match catch_unwind(AssertUnwindSafe(|| compiler::interpreter::verif::run::go(case, only))) {
            Ok(r) => for f in &r.failed { println!("REPLAY FAILS {f}") },
            Err(_) => println!("REPLAY FAILS panic in the code under contract"),
        }
        println!("REPLAY DONE");
        return;
    }
    if ["dbg", "prog", "muldiv", "vm", "long"].contains(&case.split(':').next().unwrap()) {
        let only = vals.strip_prefix("only=").map(|v| v.parse().unwrap());
        match catch_unwind(AssertUnwindSafe(|| if case.starts_with('v') || case.starts_with('l') { compiler::interpreter::verif::testvm_verif::wide::go(case, only) } else { fhevm::verif::wide::go(case, only) })) {
            Ok(r) => for f in &r.1 { println!("REPLAY FAILS {f}") },
            Err(_) => println!("REPLAY FAILS panic in the code under contract"),
        }
        println!("REPLAY DONE");
        return;
    }
    let mut c = Ctx::new(1);
    for kv in vals.split(',').filter(|x| !x.is_empty()) {
        let (k, v) = kv.split_once('=').unwrap();
        c.vals.insert(k.into(), v.parse().unwrap());
    }
    let r = catch_unwind(AssertUnwindSafe(|| run(&mut c, case)));
    if r.is_err() { println!("REPLAY FAILS panic in the code under contract") }
    for f in &c.failed { println!("REPLAY FAILS {f}") }
    for (n, o) in &c.out { if let Out::Val(v) = o { println!("{n}={v}") } }
    println!("REPLAY DONE");
}
