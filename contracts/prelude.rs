// Shared obligation vocabulary. Under Kani the obligations go to CBMC; in a native build
// (cfg phantom_verif) the same harness replays one concrete input given as a list of values.
//
//   pre(c)        requires clause: the contract says nothing outside it
//   ob!("id", c)  ensures clause: one named proof obligation
//   reach!("id")  vacuity guard: this point must be reachable under the preconditions

#[cfg(not(kani))]
#[allow(dead_code)]
pub mod nat {
    use std::cell::RefCell;
    thread_local! {
        static VALS: RefCell<std::collections::VecDeque<Vec<u8>>> = RefCell::new(Default::default());
        static FAILED: RefCell<Vec<String>> = RefCell::new(Vec::new());
    }
    pub fn load(v: Vec<Vec<u8>>) { VALS.with(|q| *q.borrow_mut() = v.into()); }
    pub fn pop(n: usize) -> Vec<u8> {
        let mut b = VALS.with(|q| q.borrow_mut().pop_front()).unwrap_or_default();
        b.resize(n, 0);
        b
    }
    pub fn fail(s: &str) { eprintln!("REPLAY-OB {s}"); FAILED.with(|f| f.borrow_mut().push(s.to_string())); }
    pub fn failed() -> Vec<String> { FAILED.with(|f| f.borrow().clone()) }
    pub struct Rejected;
}

macro_rules! any_fn { ($n:ident, $t:ty) => {
    #[cfg(kani)] #[allow(dead_code)] pub fn $n() -> $t { kani::any() }
    #[cfg(not(kani))] #[allow(dead_code)] pub fn $n() -> $t {
        <$t>::from_le_bytes(nat::pop(core::mem::size_of::<$t>()).try_into().unwrap())
    }
} }
any_fn!(any_u8, u8);
any_fn!(any_u16, u16);
any_fn!(any_u32, u32);
any_fn!(any_usize, usize);

#[allow(dead_code)]
pub fn any_bool() -> bool { any_u8() & 1 == 1 }

/// index in 0..n
#[allow(dead_code)]
pub fn any_below(n: usize) -> usize { let i = any_usize(); pre(i < n); i }

#[cfg(kani)] pub fn pre(c: bool) { kani::assume(c); }
#[cfg(not(kani))] pub fn pre(c: bool) { if !c { std::panic::panic_any(nat::Rejected); } }

macro_rules! ob { ($id:expr, $c:expr) => {{
    let c: bool = $c;
    #[cfg(kani)] { kani::assert(c, concat!("OB ", $id)); }
    #[cfg(not(kani))] { if !c { nat::fail($id); } }
}} }
macro_rules! reach { ($id:expr) => {{
    #[cfg(kani)] { kani::cover(true, concat!("REACH ", $id)); }
}} }
macro_rules! harnesses { ($( $(#[$m:meta])* fn $name:ident() $body:block )*) => {
    $( $(#[cfg_attr(kani, $m)])* #[allow(dead_code)] pub fn $name() $body )*
    #[allow(dead_code)]
    pub fn run(n: &str) -> bool { $( if n == stringify!($name) { $name(); return true; } )* false }
} }
