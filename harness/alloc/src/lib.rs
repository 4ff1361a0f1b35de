extern crate shim as core;
// generated on every run from /repo/runtime/src (see vlib/kani.py)
#[path = "gen/lib.rs"]
pub mod rt;
