// Random RV32IM programs with the run the ISA specification prescribes for them; shared by the
// bounded drivers of every machine in /repo. Included next to `spec`.
use super::spec::*;

#[derive(Clone, Copy)]
pub struct Conf {
    pub rom: usize, pub ram: usize, pub cycles: usize,
    /// address of the first memory word
    pub base: u32,
    /// RV32M instructions; sub-word loads off a word boundary; the ECALL that is a no-operation
    pub mul: bool, pub subword: bool, pub ecall: bool,
    /// registers start at zero and the program sets its own pointers
    pub boot: bool,
}
pub struct Step { pub w: u32, pub pc: u32, pub x: [u32; 32], pub wr: Option<(usize, u32)> }
pub struct Run { pub prog: Vec<u32>, pub x0: [u32; 32], pub m0: Vec<u32>, pub steps: Vec<Step> }

pub fn rng(seed: u64) -> impl FnMut(u32) -> u32 {
    let mut z = seed.wrapping_mul(0x2545_F491_4F6C_DD1D) ^ 0x9E37_79B9_7F4A_7C15;
    move |n| { z ^= z << 13; z ^= z >> 7; z ^= z << 17; ((z >> 11) % n as u64) as u32 }
}

/// a random instruction word, sensible at this state
pub fn draw(g: &mut impl FnMut(u32) -> u32, x: &[u32; 32], pc: u32, c: &Conf) -> u32 {
    let (rd, a, b) = (g(32), g(32), g(32));
    let near = g(2) == 0;
    let rom = c.rom as u32;
    match g(13) {
        0 => g(1 << 20) << 12 | rd << 7 | 0x37,
        1 => g(1 << 20) << 12 | rd << 7 | 0x17,
        2 | 3 => { // branch to a slot of the program
            let to = (g(rom) * 4).wrapping_sub(pc);
            let to = if (to as i32) < -4096 || to as i32 > 4094 { (g(1024) * 4).wrapping_sub(2048) } else { to };
            let f3 = [0, 1, 4, 5, 6, 7][g(6) as usize];
            let b = if near && f3 > 1 { a } else { b };
            (to >> 12 & 1) << 31 | (to >> 5 & 63) << 25 | b << 20 | a << 15 | f3 << 12 | (to >> 1 & 15) << 8 | (to >> 11 & 1) << 7 | 0x63
        }
        4 => { let to = (g(rom) * 4).wrapping_sub(pc);
            (to >> 20 & 1) << 31 | (to >> 1 & 0x3FF) << 21 | (to >> 11 & 1) << 20 | (to >> 12 & 0xFF) << 12 | rd << 7 | 0x6F }
        5 => { // indirect jump through a register that can reach the program
            let r = (0..32).find(|r| x[(r + a as usize) % 32] < 4 * rom + 2047).map(|r| (r + a as usize) % 32).unwrap_or(0) as u32;
            let to = (g(rom) * 4).wrapping_sub(x[r as usize]);
            let to = if (to as i32) < -2048 || to as i32 > 2047 { (g(1024) * 4).wrapping_sub(x[r as usize]) } else { to };
            (to & 0xFFF) << 20 | r << 15 | rd << 7 | 0x67 }
        6 => { let f3 = [0, 1, 2, 4, 5][g(5) as usize]; let r = g(3) + 1; let i = if c.subword { g(4096) & !(width_f3(f3) - 1) } else { g(1024) * 4 };
            i << 20 | r << 15 | f3 << 12 | rd << 7 | 3 }
        7 | 8 => { let f3 = g(3); let r = g(3) + 1; let i = g(4096) & !((1 << f3) - 1);
            (i >> 5) << 25 | b << 20 | r << 15 | f3 << 12 | (i & 31) << 7 | 0x23 }
        9 => { let f3 = g(8); let i = if f3 == 1 { g(32) } else if f3 == 5 { g(32) | g(2) << 10 } else { g(4096) }; i << 20 | a << 15 | f3 << 12 | rd << 7 | 0x13 }
        10 => { let f3 = g(8); let f7 = if f3 == 0 || f3 == 5 { g(2) << 5 } else { 0 }; f7 << 25 | b << 20 | a << 15 | f3 << 12 | rd << 7 | 0x33 }
        11 if c.mul => 1 << 25 | b << 20 | a << 15 | g(8) << 12 | rd << 7 | 0x33,
        _ => if near && c.ecall { 0x73 } else { (g(2048)) << 20 | a << 15 | rd << 7 | 0x13 },
    }
}
fn width_f3(f3: u32) -> u32 { 1 << (f3 & 3) }

/// what the ISA prescribes for the word w here; None where this study does not go
fn step(w: u32, x: &[u32; 32], m: &[u32], pc: u32, c: &Conf) -> Option<Step> {
    if w == 0x73 { return if pc as usize / 4 + 1 >= c.rom { None } else { Some(Step { w, pc: pc.wrapping_add(4), x: *x, wr: None }) } }
    let d = decode(w)?;
    let (a, b) = (x[d.rs1 as usize], x[d.rs2 as usize]);
    let addr = a.wrapping_add(d.imm).wrapping_sub(c.base);
    let (mut loaded, mut wr) = (0, None);
    if is_load(d.op) || is_store(d.op) {
        let j = (addr / 4) as usize;
        if j >= c.ram || addr % width(d.op) != 0 || is_load(d.op) && addr % 4 != 0 && !c.subword { return None }
        loaded = m[j] >> (8 * (addr % 4));
        if is_store(d.op) { wr = Some((j, store_word(d.op, b, m[j], addr % 4))) }
    }
    let writes = !is_store(d.op) && !is_branch(d.op);
    // the program keeps its pointers to the memory
    if (1..4).contains(&d.rd) && writes && !(c.boot && pc < 24) { return None }
    let mut y = *x;
    if writes { y[d.rd as usize] = if is_mul(d.op) { rd_mul(d.op, a, b) } else if is_div(d.op) { rd_div(d.op, a, b) } else { rd_i(d.op, d.imm, a, b, pc, loaded) } }
    y[0] = 0;
    let n = next_pc(d.op, d.imm, a, b, pc);
    if n % 4 != 0 || (n / 4) as usize >= c.rom { return None }
    Some(Step { w, pc: n, x: y, wr })
}

pub fn run(seed: u64, c: &Conf) -> Run {
    let mut g = rng(seed);
    let m: Vec<u32> = (0..c.ram).map(|_| g(u32::MAX)).collect();
    run_from(g, m, c)
}
/// the same with the memory's content given
pub fn run_from(mut g: impl FnMut(u32) -> u32, mut m: Vec<u32>, c: &Conf) -> Run {
    let mut x = [0u32; 32];
    for r in 1..32 { x[r] = match g(4) { 0 => g(64), 1 => u32::MAX - g(64), _ => g(u32::MAX) } }
    for r in 1..4 { x[r] = c.base + 4 * g(c.ram as u32) }
    if c.boot { x = [0; 32] }
    let (x0, m0) = (x, m.clone());
    // the program is completed along the run
    let mut prog: Vec<Option<u32>> = vec![None; c.rom];
    if c.boot {
        for r in 0..3 {
            let p = c.base + 4 * g(c.ram as u32);
            prog[2 * r as usize] = Some((p + 0x800 >> 12) << 12 | (r + 1) << 7 | 0x37);
            prog[2 * r as usize + 1] = Some((p & 0xFFF) << 20 | (r + 1) << 15 | (r + 1) << 7 | 0x13);
        }
    }
    let (mut steps, mut pc) = (vec![], 0u32);
    for _ in 0..c.cycles {
        let slot = (pc / 4) as usize;
        let Some(st) = (0..80).find_map(|_| step(prog[slot].unwrap_or_else(|| draw(&mut g, &x, pc, c)), &x, &m, pc, c)) else { break };
        prog[slot] = Some(st.w);
        (pc, x) = (st.pc, st.x);
        if let Some((j, v)) = st.wr { m[j] = v }
        steps.push(st);
    }
    let prog = prog.into_iter().enumerate().map(|(j, w)| w.unwrap_or_else(|| draw(&mut g, &x, 4 * j as u32, c))).collect();
    Run { prog, x0, m0, steps }
}
