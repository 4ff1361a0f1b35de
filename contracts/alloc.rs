// Contracts on the guest heap. Included inside the guest runtime's own module.
#[allow(unused_imports)]
use super::*;
include!(concat!(env!("PHANTOM_VERIF_SRC"), "/prelude.rs"));

fn any_layout() -> Layout {
    let size = any_usize();
    // up to alignments larger than any object's own, so that the end of static data is unaligned too
    let k = any_below(61);
    pre(size <= 1 << 40);
    match Layout::from_size_align(size, 1usize << k) { Ok(l) => l, Err(_) => { pre(false); unreachable!() } }
}
fn any_sp() -> usize {
    let d = any_usize();
    pre(d <= 1 << 61);
    let sp = end() + d;
    unsafe { ::shim::SP = sp; }
    sp
}
fn end() -> usize { unsafe { &::shim::_end as *const _ as usize } }

harnesses! {
    // The heap state after any history is summarised by its next free address, which the first
    // allocation makes arbitrary; every later allocation is checked against an arbitrary one before.
    // A panic is the refusal of a request, so only named obligations count.
    #[kani::proof] #[kani::unwind(4)]
    fn c21_first_partial() {
        let l = any_layout();
        let sp = any_sp();
        let p = unsafe { HEAP.alloc(l) } as usize;
        reach!("C21.first");
        ob!("C21.first_aligned", p % l.align() == 0);
        ob!("C21.first_above_static_data", p >= end());
        ob!("C21.first_below_stack", p + l.size() <= sp);
        ob!("C21.first_stack_gap", p + l.size() + 0x100 <= sp);
    }
    #[kani::proof] #[kani::unwind(4)]
    fn c21_next_partial() {
        let l0 = any_layout();
        let l1 = any_layout();
        let l2 = any_layout();
        let _ = any_sp();
        let p0 = unsafe { HEAP.alloc(l0) } as usize;
        let sp = any_sp();
        let p1 = unsafe { HEAP.alloc(l1) } as usize;
        reach!("C21.next");
        ob!("C21.aligned", p1 % l1.align() == 0);
        ob!("C21.above_static_data", p1 >= end());
        ob!("C21.disjoint", apart(p1, l1, p0, l0));
        ob!("C21.stack_gap", p1 + l1.size() + 0x100 <= sp);
        if any_bool() { unsafe { HEAP.dealloc(p0 as *mut u8, l0) } }
        let p2 = unsafe { HEAP.alloc(l2) } as usize;
        reach!("C21.after_dealloc");
        ob!("C21.live_block_kept", apart(p2, l2, p1, l1));
        ob!("C21.disjoint_from_all", apart(p2, l2, p0, l0));
    }
    // A request that fits above the earlier blocks is granted, to the byte.
    #[kani::proof] #[kani::unwind(4)]
    fn c21_granted() {
        let l = any_layout();
        let sp = any_sp();
        pre(fits(end(), l, sp));
        reach!("C21.granted");
        let p = unsafe { HEAP.alloc(l) } as usize;
        ob!("C21.granted", p != 0);
        let l1 = any_layout();
        let sp1 = any_sp();
        pre(fits(p + l.size(), l1, sp1));
        reach!("C21.granted_again");
        let q = unsafe { HEAP.alloc(l1) } as usize;
        ob!("C21.granted_again", q != 0);
    }
}

/// no byte in common
fn apart(p: usize, l: Layout, q: usize, m: Layout) -> bool {
    l.size() == 0 || m.size() == 0 || p >= q + m.size() || q >= p + l.size()
}

fn fits(from: usize, l: Layout, sp: usize) -> bool {
    let a = l.align() as u128;
    let start = (from as u128 + a - 1) & !(a - 1);
    start + l.size() as u128 + 0x100 <= sp as u128
}

/// A pseudo-random history of the heap on real memory (bounded complement): every block handed out
/// by alloc, alloc_zeroed and realloc keeps the contract and its contents.
#[cfg(all(not(kani), heap_history))]
pub fn history(seed: u64, steps: usize) -> Result<usize, String> {
    let mut z = seed.wrapping_mul(0x9E37_79B9_7F4A_7C15) ^ 0xD134_2543_DE82_EF95;
    let mut next = move || { z ^= z << 13; z ^= z >> 7; z ^= z << 17; z };
    let lo = unsafe { &::shim::_end as *const u8 as usize };
    let hi = ::core::ptr::addr_of!(::shim::HEAP_ARENA) as usize + ::shim::ARENA_SIZE;
    // every block ever returned (start, size), and the live ones (index, layout, first byte)
    let (mut all, mut live, mut top, mut checks): (Vec<(usize, usize)>, Vec<(usize, Layout, u8)>, usize, usize) = (vec![], vec![], lo, 0);
    let small = next() % 2 == 0;
    for step in 0..steps {
        let size = match next() % 8 { 0 => 0, 1 => (next() % 3000) as usize, _ => (next() % if small { 20 } else { 200 }) as usize };
        let l = Layout::from_size_align(size, 1 << (next() % 8)).unwrap();
        let what = next() % 8;
        // the stack is somewhere above: at the end of the arena, or so close that the request just fits
        let start = (top + l.align() - 1) & !(l.align() - 1);
        let tight = start + size.max(live.last().map_or(0, |x| x.1.size())) + 0x100;
        if tight + 4096 > hi { break }
        unsafe { ::shim::SP = if next() % 4 == 0 && what < 4 { start + size + 0x100 } else { hi } };
        let sp = unsafe { ::shim::SP };
        let mut own = None;
        let p = match what {
            0..=3 => unsafe { HEAP.alloc(l) },
            4 => {
                let p = unsafe { HEAP.alloc_zeroed(l) };
                for i in 0..size { if unsafe { *p.add(i) } != 0 { return Err(format!("step {step}: byte {i} of a zeroed block is not zero")) } }
                p
            }
            5 if !live.is_empty() => {
                let k = next() as usize % live.len();
                let (i, old, b) = live.swap_remove(k);
                own = Some((i, old.align()));
                // a size that keeps the layout valid
                let p = unsafe { HEAP.realloc(all[i].0 as *mut u8, old, size.max(1)) };
                for j in 0..old.size().min(size) { if unsafe { *p.add(j) } != b.wrapping_add(j as u8) { return Err(format!("step {step}: byte {j} lost on reallocation")) } }
                p
            }
            _ if !live.is_empty() => {
                let k = next() as usize % live.len();
                let (i, old, _) = live.swap_remove(k);
                unsafe { HEAP.dealloc(all[i].0 as *mut u8, old) };
                continue
            }
            _ => continue,
        } as usize;
        let (size, align) = match own { Some((_, a)) => (size.max(1), a), None => (size, l.align()) };
        checks += 4;
        if p % align != 0 { return Err(format!("step {step}: block at {:#x} not aligned to {align}", p - lo)) }
        if p < lo { return Err(format!("step {step}: block inside the static data")) }
        if p + size + 0x100 > sp { return Err(format!("step {step}: block of {size} ends at {:#x}, the stack is at {:#x}", p + size - lo, sp - lo)) }
        for (i, &(q, n)) in all.iter().enumerate() {
            if own.map(|o| o.0) != Some(i) && size > 0 && n > 0 && p < q + n && q < p + size { return Err(format!("step {step}: block {:#x}+{size} overlaps block {i}, {:#x}+{n}", p - lo, q - lo)) }
        }
        let b = next() as u8;
        for j in 0..size { unsafe { *(p as *mut u8).add(j) = b.wrapping_add(j as u8) } }
        all.push((p, size));
        live.push((all.len() - 1, Layout::from_size_align(size, align).unwrap(), b));
        top = top.max(p + size);
    }
    // what was written is still there
    for (i, l, b) in &live { for j in 0..l.size() { checks += 1; if unsafe { *((all[*i].0 + j) as *const u8) } != b.wrapping_add(j as u8) { return Err(format!("byte {j} of block {i} was overwritten")) } } }
    Ok(checks)
}
