// Contracts on the cleartext VM of the compiler crate. Included as a child of its private module.
#[allow(unused_imports)]
use super::*;
include!(concat!(env!("PHANTOM_VERIF_SRC"), "/prelude.rs"));
pub mod spec { include!(concat!(env!("PHANTOM_VERIF_SRC"), "/spec.rs")); }
use spec::{Dec, Op};
#[cfg(not(kani))]
pub mod trace { include!(concat!(env!("PHANTOM_VERIF_SRC"), "/trace.rs")); }

struct State<const RAM: usize> { regs: [u32; 32], pc: u32, ram: [u8; RAM], off: usize }

/// An arbitrary VM state about to execute the instruction word w.
fn any_vm<const RAM: usize>(w: u32) -> (TestVM, State<RAM>) {
    let mut regs = [0u32; 32];
    let mut i = 1;
    while i < 32 { regs[i] = any_u32(); i += 1; }
    let mut ram = [0u8; RAM];
    let mut i = 0;
    while i < RAM { ram[i] = any_u8(); i += 1; }
    let pc = any_u32();
    pre(pc % 4 == 0 && pc <= u32::MAX - 7);
    let off = any_u32() as usize;
    let mut rom_bytes = Vec::with_capacity(4);
    rom_bytes.push(w as u8);
    rom_bytes.push((w >> 8) as u8);
    rom_bytes.push((w >> 16) as u8);
    rom_bytes.push((w >> 24) as u8);
    let mut ram_bytes = Vec::with_capacity(RAM);
    let mut i = 0;
    while i < RAM { ram_bytes.push(ram[i]); i += 1; }
    let rom = BootMemory { data: rom_bytes, offset: 0, size: 4 };
    let boot_ram = BootMemory { data: ram_bytes, offset: off, size: RAM };
    let inp = InputInfo { start_addr: off, size: 0 };
    let out = OutputInfo { start_addr: off, size: 0 };
    let mut vm = TestVM::init(&rom, &boot_ram, &inp, &out, 1);
    vm.registers = regs;
    vm.pc = pc;
    (vm, State { regs, pc, ram, off })
}

fn any_word(group: fn(Op) -> bool) -> (u32, Dec) {
    let w = any_u32();
    match spec::decode(w) {
        Some(d) if group(d.op) => (w, d),
        _ => { pre(false); unreachable!() }
    }
}

fn ram_at<const RAM: usize>(s: &State<RAM>, addr: u32, i: usize) -> usize { (addr as usize + i - s.off) % RAM }

macro_rules! step { ($id:literal, $ram:literal, $word:expr, $pre:expr, $rd:expr) => {{
    let (w, d) = $word;
    let (mut vm, s) = any_vm::<$ram>(w);
    let (a, b) = (s.regs[d.rs1 as usize], s.regs[d.rs2 as usize]);
    pre($pre(a, b));
    let addr = a.wrapping_add(d.imm);
    let mem = spec::is_load(d.op) || spec::is_store(d.op);
    let width = spec::width(d.op);
    if mem { pre(addr as usize >= s.off && addr % width == 0); }
    let target = spec::next_pc(d.op, d.imm, a, b, s.pc);
    pre(target % 4 == 0);
    let mut loaded = 0u32;
    if spec::is_load(d.op) {
        let mut i = 0;
        while i < 4 { if i < width as usize { loaded |= (s.ram[ram_at(&s, addr, i)] as u32) << (8 * i); } i += 1; }
    }
    reach!($id);
    vm.run();
    ob!(concat!($id, ".next_pc"), vm.pc == target);
    let rd_fn: fn(Op, u32, u32, u32, u32, u32) -> u32 = $rd;
    let k = any_below(32);
    let want = if k == 0 { 0 } else if d.rd as usize == k && !spec::is_store(d.op) && !spec::is_branch(d.op) {
        rd_fn(d.op, d.imm, a, b, s.pc, loaded)
    } else { s.regs[k] };
    ob!(concat!($id, ".registers"), vm.registers[k] == want);
    ob!(concat!($id, ".x0_is_zero"), vm.registers[0] == 0);
    let j = any_below($ram);
    let mut wantb = s.ram[j];
    if spec::is_store(d.op) {
        let mut i = 0;
        while i < 4 { if i < width as usize && ram_at(&s, addr, i) == j { wantb = (b >> (8 * i)) as u8; } i += 1; }
    }
    ob!(concat!($id, ".memory"), vm.ram.data[j] == wantb);
    ob!(concat!($id, ".program_unchanged"), {
        let k = any_below(4);
        vm.rom.data[k] == (w >> (8 * k)) as u8
    });
}} }

/// all operand values, on encodings that use every register in every role
macro_rules! arith { ($id:literal, $f3:literal, $n:literal) => {{
    let (a, b) = (any_u32(), any_u32());
    reach!($id);
    let mut i = 0u32;
    while i < $n {
        let (rd, rs1, rs2) = (31 - i, (5 * i + 13) % 32, (5 * i + 14) % 32);
        let w = 0x0200_0033 | $f3 << 12 | rd << 7 | rs1 << 15 | rs2 << 20;
        let d = spec::decode(w).unwrap();
        let mut rom_bytes = Vec::with_capacity(4);
        rom_bytes.push(w as u8); rom_bytes.push((w >> 8) as u8); rom_bytes.push((w >> 16) as u8); rom_bytes.push((w >> 24) as u8);
        let rom = BootMemory { data: rom_bytes, offset: 0, size: 4 };
        let ram = BootMemory { data: vec![0; 4], offset: 0, size: 4 };
        let mut vm = TestVM::init(&rom, &ram, &InputInfo { start_addr: 0, size: 0 }, &OutputInfo { start_addr: 0, size: 0 }, 1);
        vm.registers[rs1 as usize] = if rs1 == 0 { 0 } else { a };
        vm.registers[rs2 as usize] = if rs2 == 0 { 0 } else { b };
        let (x, y) = (vm.registers[rs1 as usize], vm.registers[rs2 as usize]);
        vm.run();
        let want = if rd == 0 { 0 } else if spec::is_mul(d.op) { spec::rd_mul(d.op, x, y) } else { spec::rd_div(d.op, x, y) };
        ob!(concat!($id, ".value"), vm.registers[rd as usize] == want);
        ob!(concat!($id, ".next_pc"), vm.pc == 4);
        i += 1;
    }
}} }

/// One load or store on a RAM of the shipped 4096 bytes: arbitrary bytes where the access and the
/// observation are, zero elsewhere.
macro_rules! wide { ($id:literal, $w:expr) => {{
    const R: usize = 4096;
    let (w, d) = fixed($w);
    let off = any_u32() as usize;
    let mut rom_bytes = Vec::with_capacity(4);
    rom_bytes.push(w as u8); rom_bytes.push((w >> 8) as u8); rom_bytes.push((w >> 16) as u8); rom_bytes.push((w >> 24) as u8);
    let rom = BootMemory { data: rom_bytes, offset: 0, size: 4 };
    let ram = BootMemory { data: vec![0; R], offset: off, size: R };
    let mut vm = TestVM::init(&rom, &ram, &InputInfo { start_addr: off, size: 0 }, &OutputInfo { start_addr: off, size: 0 }, 1);
    let (a, b) = (any_u32(), any_u32());
    vm.registers[d.rs2 as usize] = b;
    vm.registers[d.rs1 as usize] = a;
    vm.registers[0] = 0;
    let (a, b) = (vm.registers[d.rs1 as usize], vm.registers[d.rs2 as usize]);
    let addr = a.wrapping_add(d.imm);
    let width = spec::width(d.op);
    pre(addr as usize >= off && addr % width == 0);
    let at = |i: usize| (addr as usize + i - off) % R;
    let j = any_below(R);
    vm.ram.data[j] = any_u8();
    let mut i = 0;
    while i < 4 { vm.ram.data[at(i)] = any_u8(); i += 1; }
    let old = vm.ram.data[j];
    let (mut loaded, mut wantb) = (0u32, old);
    let mut i = 0;
    while i < 4 {
        if i < width as usize {
            loaded |= (vm.ram.data[at(i)] as u32) << (8 * i);
            if spec::is_store(d.op) && at(i) == j { wantb = (b >> (8 * i)) as u8; }
        }
        i += 1;
    }
    reach!($id);
    vm.run();
    ob!(concat!($id, ".memory"), vm.ram.data[j] == wantb);
    ob!(concat!($id, ".next_pc"), vm.pc == 4);
    if spec::is_load(d.op) {
        ob!(concat!($id, ".value"), vm.registers[d.rd as usize] == if d.rd == 0 { 0 } else { spec::rd_i(d.op, d.imm, a, b, 0, loaded) });
    }
}} }

fn any(_: u32, _: u32) -> bool { true }
/// operand pairs on which RV32M results are told apart without wide arithmetic
fn edge(a: u32, b: u32) -> bool {
    let e = |x: u32| x <= 3 || x >= 0xFFFF_FFFC || x == 0x7FFF_FFFF || x == 0x8000_0000 || x == 0x8000_0001 || x == 0x1_0000;
    e(a) && e(b)
}
fn small(a: u32) -> bool { edge(a, 0) || a < 256 || a >= 0xFFFF_FF00 }
fn fixed(w: u32) -> (u32, Dec) { (w, spec::decode(w).unwrap()) }

fn any_bytes<const N: usize>() -> [u8; N] {
    let mut r = [0u8; N];
    let mut i = 0;
    while i < N { r[i] = any_u8(); i += 1; }
    r
}
fn tape_vm(base: usize, ram: &[u8], i: (usize, usize), o: (usize, usize)) -> TestVM {
    let boot_ram = BootMemory { data: ram.to_vec(), offset: base, size: ram.len() };
    let rom = BootMemory { data: vec![0; 4], offset: 0, size: 4 };
    TestVM::init(&rom, &boot_ram, &InputInfo { start_addr: base + i.0, size: i.1 },
        &OutputInfo { start_addr: base + o.0, size: o.1 }, 0)
}

harnesses! {
    #[kani::proof] #[kani::unwind(40)]
    fn c08_alu_imm() { step!("C08.alu_imm", 4, any_word(|o| matches!(o, Op::ADDI | Op::SLTI | Op::SLTIU | Op::XORI | Op::ORI | Op::ANDI | Op::SLLI | Op::SRLI | Op::SRAI)), any, spec::rd_i) }
    #[kani::proof] #[kani::unwind(40)]
    fn c08_alu_reg() { step!("C08.alu_reg", 4, any_word(|o| matches!(o, Op::ADD | Op::SUB | Op::SLL | Op::SLT | Op::SLTU | Op::XOR | Op::SRL | Op::SRA | Op::OR | Op::AND)), any, spec::rd_i) }
    #[kani::proof] #[kani::unwind(40)]
    fn c08_upper_jump() { step!("C08.upper_jump", 4, any_word(|o| matches!(o, Op::LUI | Op::AUIPC | Op::JAL | Op::JALR)), any, spec::rd_i) }
    #[kani::proof] #[kani::unwind(40)]
    fn c08_branch() { step!("C08.branch", 4, any_word(spec::is_branch), any, spec::rd_i) }
    #[kani::proof] #[kani::unwind(40)]
    fn c09_load() { step!("C09.load", 16, any_word(spec::is_load), any, spec::rd_i) }
    #[kani::proof] #[kani::unwind(40)]
    fn c09_store() { step!("C09.store", 16, any_word(spec::is_store), any, spec::rd_i) }
    #[kani::proof] #[kani::unwind(40)] #[kani::solver(z3)]
    fn c09_wide_lb() { wide!("C09.wide_lb", 0x7f028383) }
    #[kani::proof] #[kani::unwind(40)] #[kani::solver(z3)]
    fn c09_wide_lh() { wide!("C09.wide_lh", 0x7f029383) }
    #[kani::proof] #[kani::unwind(40)] #[kani::solver(z3)]
    fn c09_wide_lw() { wide!("C09.wide_lw", 0x7f02a383) }
    #[kani::proof] #[kani::unwind(40)] #[kani::solver(z3)]
    fn c09_wide_lbu() { wide!("C09.wide_lbu", 0x7f02c383) }
    #[kani::proof] #[kani::unwind(40)] #[kani::solver(z3)]
    fn c09_wide_lhu() { wide!("C09.wide_lhu", 0x7f02d383) }
    #[kani::proof] #[kani::unwind(40)] #[kani::solver(z3)]
    fn c09_wide_sb() { wide!("C09.wide_sb", 0xfe628823) }
    #[kani::proof] #[kani::unwind(40)] #[kani::solver(z3)]
    fn c09_wide_sh() { wide!("C09.wide_sh", 0xfe629823) }
    #[kani::proof] #[kani::unwind(40)] #[kani::solver(z3)]
    fn c09_wide_sw() { wide!("C09.wide_sw", 0xfe62a823) }
    // the word fetched is the one at pc, in a program of 16 KB
    #[kani::proof] #[kani::unwind(40)] #[kani::solver(z3)]
    fn c08_fetch_wide() {
        const R: usize = 16384;
        let rom = BootMemory { data: vec![0; R], offset: 0, size: R };
        let ram = BootMemory { data: vec![0; 4], offset: 0, size: 4 };
        let mut vm = TestVM::init(&rom, &ram, &InputInfo { start_addr: 0, size: 0 }, &OutputInfo { start_addr: 0, size: 0 }, 1);
        let pc = any_u32();
        pre(pc % 4 == 0 && (pc as usize) < R);
        let w = 0x0072_8293u32; // addi x5, x5, 7
        let mut i = 0;
        while i < 4 { vm.rom.data[pc as usize + i] = (w >> (8 * i)) as u8; i += 1; }
        let a = any_u32();
        vm.registers[5] = a;
        vm.pc = pc;
        reach!("C08.fetch_wide");
        vm.run();
        ob!("C08.fetch_wide.value", vm.registers[5] == a.wrapping_add(7));
        ob!("C08.fetch_wide.next_pc", vm.pc == pc + 4);
    }
    #[kani::proof] #[kani::unwind(40)]
    fn c08_mul_routing() { step!("C08.mul_routing", 4, any_word(spec::is_mul), edge, |o, _, a, b, _, _| spec::rd_mul(o, a, b)) }
    #[kani::proof] #[kani::unwind(40)]
    fn c08_div_routing() { step!("C08.div_routing", 4, any_word(spec::is_div), edge, |o, _, a, b, _, _| spec::rd_div(o, a, b)) }
    #[kani::proof] #[kani::unwind(40)]
    fn c08_mul() { step!("C08.mul", 4, fixed(0x022081B3), any, |o, _, a, b, _, _| spec::rd_mul(o, a, b)) }
    #[kani::proof] #[kani::unwind(40)]
    fn c08_mulh() { step!("C08.mulh", 4, fixed(0x022091B3), any, |o, _, a, b, _, _| spec::rd_mul(o, a, b)) }
    #[kani::proof] #[kani::unwind(40)]
    fn c08_mulhsu() { step!("C08.mulhsu", 4, fixed(0x0220A1B3), any, |o, _, a, b, _, _| spec::rd_mul(o, a, b)) }
    #[kani::proof] #[kani::unwind(40)]
    fn c08_mulhu() { step!("C08.mulhu", 4, fixed(0x0220B1B3), any, |o, _, a, b, _, _| spec::rd_mul(o, a, b)) }
    #[kani::proof] #[kani::unwind(40)] #[kani::solver(z3)]
    fn c08_arith_mul() { arith!("C08.arith_mul", 0, 8) }
    #[kani::proof] #[kani::unwind(40)] #[kani::solver(z3)]
    fn c08_arith32_mul() { arith!("C08.arith32_mul", 0, 32) }
    #[kani::proof] #[kani::unwind(40)] #[kani::solver(z3)]
    fn c08_arith_mulh() { arith!("C08.arith_mulh", 1, 8) }
    #[kani::proof] #[kani::unwind(40)] #[kani::solver(z3)]
    fn c08_arith32_mulh() { arith!("C08.arith32_mulh", 1, 32) }
    #[kani::proof] #[kani::unwind(40)] #[kani::solver(z3)]
    fn c08_arith_mulhsu() { arith!("C08.arith_mulhsu", 2, 8) }
    #[kani::proof] #[kani::unwind(40)] #[kani::solver(z3)]
    fn c08_arith32_mulhsu() { arith!("C08.arith32_mulhsu", 2, 32) }
    #[kani::proof] #[kani::unwind(40)] #[kani::solver(z3)]
    fn c08_arith_mulhu() { arith!("C08.arith_mulhu", 3, 8) }
    #[kani::proof] #[kani::unwind(40)] #[kani::solver(z3)]
    fn c08_arith32_mulhu() { arith!("C08.arith32_mulhu", 3, 32) }
    #[kani::proof] #[kani::unwind(40)] #[kani::solver(z3)]
    fn c08_arith_div() { arith!("C08.arith_div", 4, 8) }
    #[kani::proof] #[kani::unwind(40)] #[kani::solver(z3)]
    fn c08_arith32_div() { arith!("C08.arith32_div", 4, 32) }
    #[kani::proof] #[kani::unwind(40)] #[kani::solver(z3)]
    fn c08_arith_divu() { arith!("C08.arith_divu", 5, 8) }
    #[kani::proof] #[kani::unwind(40)] #[kani::solver(z3)]
    fn c08_arith32_divu() { arith!("C08.arith32_divu", 5, 32) }
    #[kani::proof] #[kani::unwind(40)] #[kani::solver(z3)]
    fn c08_arith_rem() { arith!("C08.arith_rem", 6, 8) }
    #[kani::proof] #[kani::unwind(40)] #[kani::solver(z3)]
    fn c08_arith32_rem() { arith!("C08.arith32_rem", 6, 32) }
    #[kani::proof] #[kani::unwind(40)] #[kani::solver(z3)]
    fn c08_arith_remu() { arith!("C08.arith_remu", 7, 8) }
    #[kani::proof] #[kani::unwind(40)] #[kani::solver(z3)]
    fn c08_arith32_remu() { arith!("C08.arith32_remu", 7, 32) }
    // all operand values on all encodings (slow)
    #[kani::proof] #[kani::unwind(40)] #[kani::solver(kissat)]
    fn c08_mul_all() { step!("C08.mul_all", 4, any_word(|o| matches!(o, Op::MUL)), any, |o, _, a, b, _, _| spec::rd_mul(o, a, b)) }
    // bounded: dividend and divisor are 9-bit signed values or boundary values
    #[kani::proof] #[kani::unwind(40)]
    fn c08_div_small() {
        step!("C08.div_small", 4, fixed(0x022041B3 | 0x8000 | ((any_below(4) as u32) << 12)), |a: u32, b: u32| small(a) && small(b),
            |o, _, a, b, _, _| spec::rd_div(o, a, b))
    }

    // n cycles of `execute` are n single steps
    #[kani::proof] #[kani::unwind(40)]
    fn c08_execute() {
        let n = any_below(6);
        let x1 = any_u32();
        let mut rom_bytes = Vec::with_capacity(4);
        rom_bytes.push(0x93); rom_bytes.push(0x80); rom_bytes.push(0x10); rom_bytes.push(0x00); // addi x1, x1, 1
        let rom = BootMemory { data: rom_bytes, offset: 0, size: 4 };
        let ram = BootMemory { data: vec![0; 4], offset: 0, size: 4 };
        let inp = InputInfo { start_addr: 0, size: 0 };
        let out = OutputInfo { start_addr: 0, size: 0 };
        let mut vm = TestVM::init(&rom, &ram, &inp, &out, n);
        ob!("C08.execute.initial_pc", vm.pc == 0);
        let k = any_below(32);
        ob!("C08.execute.initial_registers", vm.registers[k] == 0);
        vm.registers[1] = x1;
        reach!("C08.execute");
        vm.execute();
        ob!("C08.execute.cycles", vm.registers[1] == x1.wrapping_add(n as u32) && vm.pc == 4 * n as u32);
    }

    // ---------------- C20: input and output tapes ------------------------------------------
    // every placement of the tape areas in a RAM of 4 bytes, every content, every RAM base
    #[kani::proof] #[kani::unwind(12)]
    fn c20_input() {
        const R: usize = 4;
        let base = any_u32() as usize;
        reach!("C20.input");
        let mut is = 0;
        while is <= R {
            let mut il = 0;
            while is + il <= R {
                let (ram, tape): ([u8; R], [u8; R]) = (any_bytes(), any_bytes());
                let mut vm = tape_vm(base, &ram, (is, il), (0, 0));
                vm.read_input_tape(&tape[..il]);
                let mut k = 0;
                while k < R {
                    let want = if k >= is && k < is + il { tape[k - is] } else { ram[k] };
                    ob!("C20.input_placed", vm.ram.data[k] == want);
                    k += 1;
                }
                il += 1;
            }
            is += 1;
        }
    }
    #[kani::proof] #[kani::unwind(12)]
    fn c20_output() {
        const R: usize = 4;
        let base = any_u32() as usize;
        reach!("C20.output");
        let mut os = 0;
        while os <= R {
            let mut ol = 0;
            while os + ol <= R {
                let ram: [u8; R] = any_bytes();
                let vm = tape_vm(base, &ram, (0, 0), (os, ol));
                let out = vm.output_tape();
                ob!("C20.output_length", out.len() == ol);
                let mut k = 0;
                while k < ol { ob!("C20.output_bytes", out[k] == ram[os + k]); k += 1; }
                ol += 1;
            }
            os += 1;
        }
    }
    #[kani::proof] #[kani::unwind(40)]
    fn c20_length_partial() {
        let n = any_below(5);
        let m = any_below(5);
        pre(n != m);
        let boot_ram = BootMemory { data: vec![0; 8], offset: 0, size: 8 };
        let rom = BootMemory { data: vec![0; 4], offset: 0, size: 4 };
        let mut vm = TestVM::init(&rom, &boot_ram, &InputInfo { start_addr: 0, size: n }, &OutputInfo { start_addr: 0, size: 0 }, 0);
        reach!("C20.length");
        vm.read_input_tape(&[0u8; 4][..m]);
        ob!("C20.wrong_length_rejected", false);
    }
}

/// Bounded complement of C08 and C09 at sizes and run lengths the verifier does not reach.
#[cfg(not(kani))]
#[allow(dead_code)]
pub mod wide {
    use super::*;
    pub type Res = (usize, Vec<String>);

    fn vm_one(k: u64, seed: u64, r: &mut Res) {
        let mut g = trace::rng(seed << 20 | k);
        let rom = match g(4) { 0 => 6 + g(60), 1 => 1000 + g(20000), 2 => 1 << (3 + g(11)), _ => 6 + g(600) } as usize;
        let ram = match g(4) { 0 | 1 => 1024, 2 => 1 + g(70), _ => 1 << g(13) } as usize;
        let base = [1u32 << 18, 1 << 18, 0, 0x1000, 0x8000_0000][g(5) as usize];
        let c = trace::Conf { rom, ram, cycles: 200 + g(400) as usize, base, mul: true, subword: true, ecall: false, boot: false };
        let t = trace::run(seed << 20 | k, &c);
        let bytes = |ws: &[u32]| -> Vec<u8> { ws.iter().flat_map(|w| w.to_le_bytes()).collect() };
        let boot_rom = BootMemory { data: bytes(&t.prog), offset: 0, size: 4 * rom };
        let boot_ram = BootMemory { data: bytes(&t.m0), offset: base as usize, size: 4 * ram };
        let (inp, out) = (InputInfo { start_addr: base as usize, size: 0 }, OutputInfo { start_addr: base as usize, size: 4 * ram });
        let mut vm = TestVM::init(&boot_rom, &boot_ram, &inp, &out, 1);
        vm.registers = t.x0;
        let mut m = t.m0.clone();
        for (q, s) in t.steps.iter().enumerate() {
            if let Some((j, v)) = s.wr { m[j] = v }
            vm.run();
            r.0 += 33;
            if vm.pc != s.pc || vm.registers != s.x {
                let i = (0..32).find(|i| vm.registers[*i] != s.x[*i]);
                r.1.push(format!("layout {k} (ROM {rom} words, RAM {ram} words at {base:#x}): after step {q}, instruction {:#010x}: pc {:#x} want {:#x}, first wrong register {i:?}", s.w, vm.pc, s.pc));
                return;
            }
            if s.wr.is_some() || q + 1 == t.steps.len() {
                r.0 += ram;
                if let Some(j) = (0..ram).find(|j| vm.ram.data[4 * j..4 * j + 4] != m[*j].to_le_bytes()) {
                    r.1.push(format!("layout {k} (ROM {rom} words, RAM {ram} words at {base:#x}): after step {q}, instruction {:#010x}: memory word {j} is {:02x?}, want {:#x}", s.w, &vm.ram.data[4 * j..4 * j + 4], m[j]));
                    return;
                }
            }
        }
        // the same run in one call
        let mut vm = TestVM::init(&boot_rom, &boot_ram, &inp, &out, t.steps.len());
        vm.registers = t.x0;
        vm.execute();
        let last = t.steps.last().map(|s| (s.pc, s.x)).unwrap_or((0, t.x0));
        r.0 += 2;
        if (vm.pc, vm.registers) != last || vm.output_tape() != bytes(&m) {
            r.1.push(format!("layout {k}: execute of {} cycles ends at pc {:#x}, want {:#x}, or in other registers or memory", t.steps.len(), vm.pc, last.0));
        }
    }

    /// a counting loop of two instructions, run for n cycles in one call
    fn long_one(k: u64, r: &mut Res) {
        let n = [0usize, 1, 255, 256, 257, 999, 4096, 10_000, 65_535, 65_536, 65_537, 100_000, 131_073, 1_000_000, 1_048_577, 3_000_001][k as usize % 16];
        let boot_rom = BootMemory { data: [0x00108093u32, 0xFFDFF06F].iter().flat_map(|w| w.to_le_bytes()).collect(), offset: 0, size: 8 };
        let boot_ram = BootMemory { data: vec![0; 4], offset: 0, size: 4 };
        let mut vm = TestVM::init(&boot_rom, &boot_ram, &InputInfo { start_addr: 0, size: 0 }, &OutputInfo { start_addr: 0, size: 0 }, n);
        vm.execute();
        r.0 += 2;
        if vm.registers[1] as usize != (n + 1) / 2 || vm.pc as usize != 4 * (n % 2) {
            r.1.push(format!("layout {k}: after {n} cycles the counter is {} and pc {}", vm.registers[1], vm.pc));
        }
    }

    /// vm:SEED:FIRST:COUNT | long:0:FIRST:COUNT
    pub fn go(case: &str, only: Option<u64>) -> Res {
        let a: Vec<&str> = case.split(':').collect();
        let n = |i: usize| -> u64 { a[i].parse().unwrap() };
        let mut r = (0, vec![]);
        for k in n(2)..n(2) + n(3) {
            if only.is_some_and(|o| o != k) { continue }
            match a[0] { "vm" => vm_one(k, n(1), &mut r), _ => long_one(k, &mut r) }
            if r.1.len() > 5 { break }
        }
        r
    }
}
