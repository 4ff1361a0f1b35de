// Contracts on the plaintext half of the fhevm crate. Included as `fhevm::verif`.
#[allow(unused_imports)]
use super::*;
use crate::instructions::{Instruction, InstructionsParser, PC_UPDATE_OP_LIST, RAM_UPDATE_OP_LIST,
    RD_UPDATE_RV32I_OP_LIST, RD_UPDATE_RV32M_OP_LIST, RV32I, PC_UPDATE, RAM_UPDATE, RD_UPDATE};
use crate::debug::InterpreterDebug;

include!(concat!(env!("PHANTOM_VERIF_SRC"), "/prelude.rs"));
pub mod spec { include!(concat!(env!("PHANTOM_VERIF_SRC"), "/spec.rs")); }
use spec::{Dec, Op};
#[cfg(not(kani))]
pub mod trace { include!(concat!(env!("PHANTOM_VERIF_SRC"), "/trace.rs")); }

/// Association list with the insert/get contract of a hash map (used in place of
/// std's HashMap under Kani only, because of its randomised hasher).
#[allow(dead_code)]
pub struct VecMap<K, V> { keys: [Option<K>; 48], vals: [Option<V>; 48], len: usize }
#[allow(dead_code)]
impl<K: PartialEq + Copy, V: Copy> VecMap<K, V> {
    pub fn new() -> Self { VecMap { keys: [None; 48], vals: [None; 48], len: 0 } }
    pub fn with_capacity(_: usize) -> Self { Self::new() }
    pub fn insert(&mut self, k: K, v: V) {
        self.keys[self.len] = Some(k);
        self.vals[self.len] = Some(v);
        self.len += 1;
    }
    /// the value inserted last under this key
    pub fn get(&self, k: &K) -> Option<&V> {
        let mut r = None;
        let mut i = 0;
        while i < self.len {
            if self.keys[i] == Some(*k) { r = self.vals[i].as_ref(); }
            i += 1;
        }
        r
    }
    pub fn contains_key(&self, k: &K) -> bool { self.get(k).is_some() }
}
impl<K: PartialEq + Copy, V: Copy> core::ops::Index<&K> for VecMap<K, V> {
    type Output = V;
    fn index(&self, k: &K) -> &V { self.get(k).unwrap() }
}

// --- abstraction maps: the implementation's operation tags to the specification's -------------

pub fn rd_op(u: RD_UPDATE) -> Option<Op> {
    use RD_UPDATE as R;
    Some(match u {
        R::NONE => return None,
        R::LUI => Op::LUI, R::AUIPC => Op::AUIPC, R::ADDI => Op::ADDI, R::SLTI => Op::SLTI,
        R::SLTIU => Op::SLTIU, R::XORI => Op::XORI, R::ORI => Op::ORI, R::ANDI => Op::ANDI,
        R::SLLI => Op::SLLI, R::SRLI => Op::SRLI, R::SRAI => Op::SRAI, R::ADD => Op::ADD,
        R::SUB => Op::SUB, R::SLL => Op::SLL, R::SLT => Op::SLT, R::SLTU => Op::SLTU,
        R::XOR => Op::XOR, R::SRL => Op::SRL, R::SRA => Op::SRA, R::OR => Op::OR, R::AND => Op::AND,
        R::LB => Op::LB, R::LBU => Op::LBU, R::LH => Op::LH, R::LHU => Op::LHU, R::LW => Op::LW,
        R::JAL => Op::JAL, R::JALR => Op::JALR, R::MUL => Op::MUL, R::MULH => Op::MULH,
        R::MULHSU => Op::MULHSU, R::MULHU => Op::MULHU, R::DIV => Op::DIV, R::DIVU => Op::DIVU,
        R::REM => Op::REM, R::REMU => Op::REMU,
    })
}
pub fn ram_op(u: RAM_UPDATE) -> Option<Op> {
    match u { RAM_UPDATE::NONE => None, RAM_UPDATE::SB => Some(Op::SB), RAM_UPDATE::SH => Some(Op::SH), RAM_UPDATE::SW => Some(Op::SW) }
}
pub fn pc_op(u: PC_UPDATE) -> Option<Op> {
    use PC_UPDATE as P;
    match u {
        P::NONE => None, P::JAL => Some(Op::JAL), P::JALR => Some(Op::JALR), P::BEQ => Some(Op::BEQ),
        P::BNE => Some(Op::BNE), P::BLT => Some(Op::BLT), P::BGE => Some(Op::BGE),
        P::BLTU => Some(Op::BLTU), P::BGEU => Some(Op::BGEU),
    }
}
/// (register effect, memory effect, pc effect) the ISA gives an operation
pub fn effects(op: Op) -> (Option<Op>, Option<Op>, Option<Op>) {
    let rd = if spec::is_store(op) || spec::is_branch(op) { None } else { Some(op) };
    let ram = if spec::is_store(op) { Some(op) } else { None };
    let pc = if spec::is_branch(op) || spec::is_jump(op) { Some(op) } else { None };
    (rd, ram, pc)
}

fn any_decodable() -> (u32, Dec) {
    let w = any_u32();
    match spec::decode(w) {
        Some(d) => (w, d),
        None => { pre(false); unreachable!() }
    }
}

/// the word w with instruction bits [hi:lo] replaced by the low bits of v
fn with_field(w: u32, hi: u32, lo: u32, v: u32) -> u32 {
    let m = (((1u64 << (hi - lo + 1)) - 1) << lo) as u32;
    (w & !m) | (((v as u64) << lo) as u32 & m)
}

fn has_rd(opc: u32) -> bool { matches!(opc, 0x33 | 0x13 | 0x03 | 0x67 | 0x37 | 0x17 | 0x6F) }
fn has_rs1(opc: u32) -> bool { matches!(opc, 0x33 | 0x13 | 0x03 | 0x67 | 0x23 | 0x63) }
fn has_rs2(opc: u32) -> bool { matches!(opc, 0x33 | 0x23 | 0x63) }

const TEMPLATES: [(RV32I, Op); 37] = [
    (RV32I::LUI, Op::LUI), (RV32I::AUIPC, Op::AUIPC), (RV32I::JAL, Op::JAL), (RV32I::ADDI, Op::ADDI),
    (RV32I::SLTI, Op::SLTI), (RV32I::SLTIU, Op::SLTIU), (RV32I::XORI, Op::XORI), (RV32I::ORI, Op::ORI),
    (RV32I::ANDI, Op::ANDI), (RV32I::SLLI, Op::SLLI), (RV32I::SRLI, Op::SRLI), (RV32I::SRAI, Op::SRAI),
    (RV32I::ADD, Op::ADD), (RV32I::SUB, Op::SUB), (RV32I::SLL, Op::SLL), (RV32I::SLT, Op::SLT),
    (RV32I::SLTU, Op::SLTU), (RV32I::XOR, Op::XOR), (RV32I::SRL, Op::SRL), (RV32I::SRA, Op::SRA),
    (RV32I::OR, Op::OR), (RV32I::AND, Op::AND), (RV32I::LB, Op::LB), (RV32I::LH, Op::LH),
    (RV32I::LW, Op::LW), (RV32I::LBU, Op::LBU), (RV32I::LHU, Op::LHU), (RV32I::SB, Op::SB),
    (RV32I::SH, Op::SH), (RV32I::SW, Op::SW), (RV32I::BEQ, Op::BEQ), (RV32I::BNE, Op::BNE),
    (RV32I::BLT, Op::BLT), (RV32I::BGE, Op::BGE), (RV32I::BLTU, Op::BLTU), (RV32I::BGEU, Op::BGEU),
    (RV32I::JALR, Op::JALR),
];

/// what an immediate argument becomes when carried by an instruction of this operation
fn carried_imm(op: Op, v: u32) -> u32 {
    match op {
        Op::LUI | Op::AUIPC => v & 0xF_FFFF,
        Op::JAL => spec::sx(v & !1, 21),
        Op::BEQ | Op::BNE | Op::BLT | Op::BGE | Op::BLTU | Op::BGEU => spec::sx(v & !1, 13),
        Op::SLLI | Op::SRLI | Op::SRAI => v & 31,
        _ => spec::sx(v, 12),
    }
}

pub struct C10 { regs: [u32; 32], ram: [u32; 4], pc: u32 }

/// one cycle of the reference interpreter from an arbitrary state, on an arbitrary instruction
fn c10_run(group: fn(Op) -> bool) -> (Dec, C10, InterpreterDebug) {
    let (w, d) = any_decodable();
    pre(!spec::is_rv32m(d.op) && group(d.op));
    let mut p = InstructionsParser::new();
    p.add(Instruction::new(0x0000_0013));
    p.add(Instruction::new(w));
    let mut regs = [0u32; 32];
    let mut i = 1;
    while i < 32 { regs[i] = any_u32(); i += 1; }
    let mut ram = [0u32; 4];
    let mut i = 0;
    while i < 4 { ram[i] = any_u32(); i += 1; }
    let pc = any_u32();
    pre(pc % 4 == 0);
    let mut it = InterpreterDebug::new(2, 4);
    it.set_instructions(&p);
    it.set_ram(&ram);
    it.registers = regs;
    it.pc = 4;
    it.read_instructions();
    it.pc = pc;
    it.read_registers();
    it.read_ram();
    it.update_registers(RD_UPDATE_RV32I_OP_LIST);
    it.update_ram();
    it.update_pc();
    (d, C10 { regs, ram, pc }, it)
}
macro_rules! c10 { ($id:literal, $group:expr) => {{
    let (d, s, it) = c10_run($group);
    let (a, b) = (s.regs[d.rs1 as usize], s.regs[d.rs2 as usize]);
    let addr = a.wrapping_add(d.imm).wrapping_sub(1 << 18);
    let mem = spec::is_load(d.op) || spec::is_store(d.op);
    if mem { pre(addr % spec::width(d.op) == 0); }
    reach!($id);
    let at = (addr >> 2) as usize % 4;
    let word = s.ram[at];
    ob!(concat!($id, ".next_pc"), it.pc == spec::next_pc(d.op, d.imm, a, b, s.pc));
    let k = any_below(32);
    let writes = k != 0 && d.rd as usize == k && !spec::is_store(d.op) && !spec::is_branch(d.op);
    let want = if writes { spec::rd_i(d.op, d.imm, a, b, s.pc, word >> (8 * (addr % 4))) } else { s.regs[k] };
    // known finding C10-1: the byte offset of a sub-word load is ignored
    let also = if writes && spec::is_load(d.op) && addr % 4 != 0 { spec::rd_i(d.op, d.imm, a, b, s.pc, word) } else { want };
    ob!(concat!($id, ".registers"), it.registers[k] == want || it.registers[k] == also);
    let j = any_below(4);
    let wantm = if spec::is_store(d.op) && j == at { spec::store_word(d.op, b, s.ram[j], addr % 4) } else { s.ram[j] };
    ob!(concat!($id, ".memory"), it.ram[j] == wantm);
}} }

/// one load or store on the shipped RAM of 1024 words: arbitrary where the access and the observation are, zero elsewhere
macro_rules! c10_wide { ($id:literal, $w:expr) => {{
    const R: usize = 1024;
    let (w, d) = ($w, spec::decode($w).unwrap());
    let mut p = InstructionsParser::new();
    p.add(Instruction::new(0x0000_0013));
    p.add(Instruction::new(w));
    let mut it = InterpreterDebug::new(2, R);
    it.set_instructions(&p);
    let (a, b) = (any_u32(), any_u32());
    it.registers[d.rs2 as usize] = b;
    it.registers[d.rs1 as usize] = a;
    let b = it.registers[d.rs2 as usize];
    it.pc = 4;
    let addr = a.wrapping_add(d.imm).wrapping_sub(1 << 18);
    pre(addr % spec::width(d.op) == 0);
    let at = (addr >> 2) as usize % R;
    let j = any_below(R);
    it.ram[j] = any_u32();
    it.ram[at] = any_u32();
    let (word, old) = (it.ram[at], it.ram[j]);
    reach!($id);
    it.read_instructions();
    it.read_registers();
    it.read_ram();
    it.update_registers(RD_UPDATE_RV32I_OP_LIST);
    it.update_ram();
    it.update_pc();
    ob!(concat!($id, ".next_pc"), it.pc == 8);
    let wantm = if spec::is_store(d.op) && j == at { spec::store_word(d.op, b, old, addr % 4) } else { old };
    ob!(concat!($id, ".memory"), it.ram[j] == wantm);
    if spec::is_load(d.op) { ob!(concat!($id, ".value"), it.registers[d.rd as usize] == spec::rd_i(d.op, d.imm, a, b, 4, word)); }
}} }

harnesses! {
    // ---------------- C01: decoding -------------------------------------------------------
    #[kani::proof] #[kani::unwind(40)]
    fn c01_fields() {
        let (w, d) = any_decodable();
        reach!("C01.fields");
        let (rs2, rs1, rd) = Instruction::new(w).get_registers();
        ob!("C01.rd", rd == d.rd);
        ob!("C01.rs1", rs1 == d.rs1);
        ob!("C01.rs2", rs2 == d.rs2);
        let imm = Instruction::new(w).get_imm();
        ob!("C01.imm", imm == d.imm);
    }
    #[kani::proof] #[kani::unwind(40)]
    fn c01_operation() {
        let (w, d) = any_decodable();
        reach!("C01.operation");
        let (r, m, p) = Instruction::new(w).get_opid();
        let (er, em, ep) = effects(d.op);
        ob!("C01.register_effect", rd_op(r) == er);
        ob!("C01.memory_effect", ram_op(m) == em);
        ob!("C01.pc_effect", pc_op(p) == ep);
    }
    // Only the named obligation counts here: a panic inside the decoder is the rejection.
    #[kani::proof] #[kani::unwind(40)]
    fn c01_reject_partial() {
        let w = any_u32();
        let opc = w & 0x7F;
        pre(spec::decode(w).is_none());
        // encodings the decoder is documented to treat leniently: SYSTEM (no-op), JALR/SLLI
        // with reserved function bits
        pre(opc != 0x73 && opc != 0x67 && !(opc == 0x13 && spec::bits(w, 14, 12) == 1));
        reach!("C01.reject");
        let _ = Instruction::new(w).get_opid();
        ob!("C01.undefined_word_rejected", false);
    }

    // ---------------- C02: building ---------------------------------------------------------
    #[kani::proof] #[kani::unwind(40)]
    fn c02_build() {
        let (t, op) = TEMPLATES[any_below(37)];
        let (rd, rs1, rs2, imm) = (any_u32(), any_u32(), any_u32(), any_u32());
        let mut i = t.new();
        let opc = i.get_opcode();
        if opc != 0x33 { i = i.set_imm(imm); }
        if has_rd(opc) { i = i.set_rd(rd); }
        if has_rs1(opc) { i = i.set_rs1(rs1); }
        if has_rs2(opc) { i = i.set_rs2(rs2); }
        reach!("C02.build");
        let d = spec::decode(i.get());
        ob!("C02.built_word_is_the_operation", matches!(d, Some(x) if x.op == op));
        if let Some(x) = d {
            ob!("C02.rd", x.rd == if has_rd(opc) { rd & 31 } else { 0 });
            ob!("C02.rs1", x.rs1 == if has_rs1(opc) { rs1 & 31 } else { 0 });
            ob!("C02.rs2", x.rs2 == if has_rs2(opc) { rs2 & 31 } else { 0 });
            ob!("C02.imm", x.imm == if opc == 0x33 { 0 } else { carried_imm(op, imm) });
            let (g2, g1, g0) = i.get_registers();
            ob!("C02.read_back_registers", (g2, g1, g0) == (x.rs2, x.rs1, x.rd));
            ob!("C02.read_back_imm", i.get_imm() == x.imm);
        }
    }
    #[kani::proof] #[kani::unwind(40)]
    fn c02_isolation() {
        let (w, d) = any_decodable();
        let v = any_u32();
        let i = Instruction::new(w);
        let opc = w & 0x7F;
        reach!("C02.isolation");
        if has_rd(opc) { ob!("C02.set_rd_only_rd", i.set_rd(v).get() == with_field(w, 11, 7, v)); }
        if has_rs1(opc) { ob!("C02.set_rs1_only_rs1", i.set_rs1(v).get() == with_field(w, 19, 15, v)); }
        if has_rs2(opc) { ob!("C02.set_rs2_only_rs2", i.set_rs2(v).get() == with_field(w, 24, 20, v)); }
        if opc != 0x37 && opc != 0x17 && opc != 0x6F {
            ob!("C02.set_funct3_only_funct3", i.set_funct3(v).get() == with_field(w, 14, 12, v));
        }
        if opc == 0x33 { ob!("C02.set_funct7_only_funct7", i.set_funct7(v).get() == with_field(w, 31, 25, v)); }
        ob!("C02.set_opcode_only_opcode", i.set_opcode(v).get() == with_field(w, 6, 0, v));
        if opc != 0x33 {
            let e = match d.op {
                Op::LUI | Op::AUIPC => with_field(w, 31, 12, v),
                Op::JAL => {
                    let a = with_field(w, 31, 31, v >> 20);
                    let a = with_field(a, 30, 21, v >> 1);
                    let a = with_field(a, 20, 20, v >> 11);
                    with_field(a, 19, 12, v >> 12)
                }
                Op::SLLI | Op::SRLI | Op::SRAI => with_field(w, 24, 20, v),
                _ if opc == 0x23 => with_field(with_field(w, 31, 25, v >> 5), 11, 7, v),
                _ if opc == 0x63 => {
                    let a = with_field(w, 31, 31, v >> 12);
                    let a = with_field(a, 30, 25, v >> 5);
                    let a = with_field(a, 11, 8, v >> 1);
                    with_field(a, 7, 7, v >> 11)
                }
                _ => with_field(w, 31, 20, v),
            };
            ob!("C02.set_imm_only_imm", i.set_imm(v).get() == e);
        }
    }

    // ---------------- C03: program store ------------------------------------------------------
    #[kani::proof] #[kani::unwind(40)]
    fn c03_store() {
        // Two consecutive additions to a program that already has 0 or 1 entries: the entry added
        // first keeps its position and content, the second is appended after it.
        let mut p = InstructionsParser::new();
        let base = any_below(2);
        if base == 1 { p.add(Instruction::new(0x0000_0013)); }
        let (w0, d0) = any_decodable();
        let (w1, d1) = any_decodable();
        p.add(Instruction::new(w0));
        p.add(Instruction::new(w1));
        p.assert_size(base + 2);
        let second = any_bool();
        let (w, d) = if second { (w1, d1) } else { (w0, d0) };
        let k = base + second as usize;
        reach!("C03.store");
        let (imm, rs2, rs1, rd, rdu, mu, pcu) = p.get(k);
        ob!("C03.raw_word", p.get_raw(k).get() == w);
        ob!("C03.imm", imm == d.imm as i64);
        ob!("C03.rs1", rs1 == d.rs1 as i64);
        ob!("C03.rs2", rs2 == d.rs2 as i64);
        ob!("C03.rd", rd == d.rd as i64);
        // the operation identifiers stored select exactly the operations of the instruction
        let (er, em, ep) = effects(d.op);
        let i = any_below(RD_UPDATE_RV32M_OP_LIST.len());
        ob!("C03.register_op", (RD_UPDATE_RV32M_OP_LIST[i].id() as i64 == rdu) == (rd_op(RD_UPDATE_RV32M_OP_LIST[i]) == er));
        let i = any_below(RAM_UPDATE_OP_LIST.len());
        ob!("C03.memory_op", (RAM_UPDATE_OP_LIST[i].id() as i64 == mu) == (ram_op(RAM_UPDATE_OP_LIST[i]) == em));
        let i = any_below(PC_UPDATE_OP_LIST.len());
        ob!("C03.pc_op", (PC_UPDATE_OP_LIST[i].id() as i64 == pcu) == (pc_op(PC_UPDATE_OP_LIST[i]) == ep));
    }
    #[kani::proof] #[kani::unwind(64)]
    fn c03_op_lists() {
        // the operation tables are complete, and identifiers fit the encrypted selectors
        let (_, d) = any_decodable();
        let (er, em, ep) = effects(d.op);
        reach!("C03.op_lists");
        let l = RD_UPDATE_RV32I_OP_LIST;
        let bits = usize::BITS - (l.len() - 1).leading_zeros();
        let mut n = 0;
        let mut i = 0;
        while i < l.len() {
            if rd_op(l[i]) == er { n += 1; }
            ob!("C03.register_id_fits", (l[i].id() as u64) < (1u64 << bits));
            i += 1;
        }
        ob!("C03.register_table_complete", n == if spec::is_rv32m(d.op) { 0 } else { 1 });
        let l = RAM_UPDATE_OP_LIST;
        let bits = usize::BITS - (l.len() - 1).leading_zeros();
        let mut n = 0;
        let mut i = 0;
        while i < l.len() {
            if ram_op(l[i]) == em { n += 1; }
            ob!("C03.memory_id_fits", (l[i].id() as u64) < (1u64 << bits));
            i += 1;
        }
        ob!("C03.memory_table_complete", n == 1);
        let l = PC_UPDATE_OP_LIST;
        let mut n = 0;
        let mut i = 0;
        while i < l.len() {
            if pc_op(l[i]) == ep { n += 1; }
            ob!("C03.pc_id_fits", l[i].id() < 16);
            i += 1;
        }
        ob!("C03.pc_table_complete", n == 1);
        let (i, j) = (any_below(RD_UPDATE_RV32M_OP_LIST.len()), any_below(RD_UPDATE_RV32M_OP_LIST.len()));
        ob!("C03.register_ids_distinct", i == j || RD_UPDATE_RV32M_OP_LIST[i].id() != RD_UPDATE_RV32M_OP_LIST[j].id());
    }

    // ---------------- C04..C07: plain operation semantics -----------------------------------
    #[kani::proof] #[kani::unwind(40)]
    fn c04_rv32i() {
        let u = RD_UPDATE_RV32I_OP_LIST[any_below(RD_UPDATE_RV32I_OP_LIST.len())];
        let (imm, rs1, rs2, pc, ram) = (any_u32(), any_u32(), any_u32(), any_u32(), any_u32());
        reach!("C04");
        let got = u.eval_plain(imm, rs1, rs2, pc, ram);
        match rd_op(u) {
            None => ob!("C04.none_is_zero", got == 0),
            Some(op) => ob!("C04.result", got == spec::rd_i(op, imm, rs1, rs2, pc, ram)),
        }
    }
    #[kani::proof] #[kani::unwind(40)] #[kani::solver(z3)]
    fn c05_mul() {
        let (imm, rs1, rs2, pc, ram) = (any_u32(), any_u32(), any_u32(), any_u32(), any_u32());
        reach!("C05.mul");
        ob!("C05.mul", RD_UPDATE::MUL.eval_plain(imm, rs1, rs2, pc, ram) == spec::rd_mul(Op::MUL, rs1, rs2));
    }
    #[kani::proof] #[kani::unwind(40)] #[kani::solver(z3)]
    fn c05_mulh() {
        let (imm, rs1, rs2, pc, ram) = (any_u32(), any_u32(), any_u32(), any_u32(), any_u32());
        reach!("C05.mulh");
        ob!("C05.mulh", RD_UPDATE::MULH.eval_plain(imm, rs1, rs2, pc, ram) == spec::rd_mul(Op::MULH, rs1, rs2));
    }
    #[kani::proof] #[kani::unwind(40)] #[kani::solver(z3)]
    fn c05_mulhsu() {
        let (imm, rs1, rs2, pc, ram) = (any_u32(), any_u32(), any_u32(), any_u32(), any_u32());
        reach!("C05.mulhsu");
        ob!("C05.mulhsu", RD_UPDATE::MULHSU.eval_plain(imm, rs1, rs2, pc, ram) == spec::rd_mul(Op::MULHSU, rs1, rs2));
    }
    #[kani::proof] #[kani::unwind(40)] #[kani::solver(z3)]
    fn c05_mulhu() {
        let (imm, rs1, rs2, pc, ram) = (any_u32(), any_u32(), any_u32(), any_u32(), any_u32());
        reach!("C05.mulhu");
        ob!("C05.mulhu", RD_UPDATE::MULHU.eval_plain(imm, rs1, rs2, pc, ram) == spec::rd_mul(Op::MULHU, rs1, rs2));
    }
    #[kani::proof] #[kani::unwind(40)] #[kani::solver(z3)]
    fn c05_div() {
        let (imm, rs1, rs2, pc, ram) = (any_u32(), any_u32(), any_u32(), any_u32(), any_u32());
        reach!("C05.div");
        ob!("C05.div", RD_UPDATE::DIV.eval_plain(imm, rs1, rs2, pc, ram) == spec::rd_div(Op::DIV, rs1, rs2));
    }
    #[kani::proof] #[kani::unwind(40)] #[kani::solver(z3)]
    fn c05_divu() {
        let (imm, rs1, rs2, pc, ram) = (any_u32(), any_u32(), any_u32(), any_u32(), any_u32());
        reach!("C05.divu");
        ob!("C05.divu", RD_UPDATE::DIVU.eval_plain(imm, rs1, rs2, pc, ram) == spec::rd_div(Op::DIVU, rs1, rs2));
    }
    #[kani::proof] #[kani::unwind(40)] #[kani::solver(z3)]
    fn c05_rem() {
        let (imm, rs1, rs2, pc, ram) = (any_u32(), any_u32(), any_u32(), any_u32(), any_u32());
        reach!("C05.rem");
        ob!("C05.rem", RD_UPDATE::REM.eval_plain(imm, rs1, rs2, pc, ram) == spec::rd_div(Op::REM, rs1, rs2));
    }
    #[kani::proof] #[kani::unwind(40)] #[kani::solver(z3)]
    fn c05_remu() {
        let (imm, rs1, rs2, pc, ram) = (any_u32(), any_u32(), any_u32(), any_u32(), any_u32());
        reach!("C05.remu");
        ob!("C05.remu", RD_UPDATE::REMU.eval_plain(imm, rs1, rs2, pc, ram) == spec::rd_div(Op::REMU, rs1, rs2));
    }
    #[kani::proof] #[kani::unwind(40)]
    fn c06_store() {
        let u = RAM_UPDATE_OP_LIST[any_below(RAM_UPDATE_OP_LIST.len())];
        let (rs2, ram, off) = (any_u32(), any_u32(), any_u32());
        pre(off < 4);
        pre(!matches!(u, RAM_UPDATE::SH) || off % 2 == 0);
        reach!("C06");
        let got = u.eval_plain(rs2, ram, off);
        match ram_op(u) {
            None => ob!("C06.none_keeps_word", got == ram),
            Some(Op::SW) => ob!("C06.word", got == rs2),
            Some(op) => ob!("C06.merge", got == spec::store_word(op, rs2, ram, off)),
        }
    }
    #[kani::proof] #[kani::unwind(40)]
    fn c07_next_pc() {
        let u = PC_UPDATE_OP_LIST[any_below(PC_UPDATE_OP_LIST.len())];
        let (imm, rs1, rs2, pc) = (any_u32(), any_u32(), any_u32(), any_u32());
        reach!("C07");
        let got = u.eval_plain(imm, rs1, rs2, pc);
        match pc_op(u) {
            None => ob!("C07.sequential", got == pc.wrapping_add(4)),
            Some(op) => ob!("C07.target", got == spec::next_pc(op, imm, rs1, rs2, pc)),
        }
    }

    // ---------------- C10: the reference interpreter ------------------------------------------
    #[kani::proof] #[kani::unwind(50)]
    fn c10_alu() { c10!("C10.alu", |o| !spec::is_load(o) && !spec::is_store(o) && !spec::is_branch(o) && !spec::is_jump(o)) }
    #[kani::proof] #[kani::unwind(50)]
    fn c10_control() { c10!("C10.control", |o| spec::is_branch(o) || spec::is_jump(o)) }
    #[kani::proof] #[kani::unwind(50)]
    fn c10_load() { c10!("C10.load", spec::is_load) }
    #[kani::proof] #[kani::unwind(50)]
    fn c10_store() { c10!("C10.store", spec::is_store) }
    #[kani::proof] #[kani::unwind(50)] #[kani::solver(z3)]
    fn c10_wide_lw() { c10_wide!("C10.wide_lw", 0x7F02_A383) }
    #[kani::proof] #[kani::unwind(50)] #[kani::solver(z3)]
    fn c10_wide_sw() { c10_wide!("C10.wide_sw", 0xFE62_A823) }
    #[kani::proof] #[kani::unwind(50)] #[kani::solver(z3)]
    fn c10_wide_sb() { c10_wide!("C10.wide_sb", 0xFE62_8823) }
    #[kani::proof] #[kani::unwind(50)] #[kani::solver(z3)]
    fn c10_wide_sh() { c10_wide!("C10.wide_sh", 0xFE62_9823) }
    // Finding probe: sub-word loads whose address is not word aligned.
    #[kani::proof] #[kani::unwind(50)]
    fn c10_subword_known() {
        let (d, s, it) = c10_run(|o| spec::is_load(o) && spec::width(o) < 4);
        let addr = s.regs[d.rs1 as usize].wrapping_add(d.imm).wrapping_sub(1 << 18);
        pre(addr % 4 != 0 && addr % spec::width(d.op) == 0 && d.rd != 0);
        reach!("C10.subword_known");
        let word = s.ram[(addr >> 2) as usize % 4];
        ob!("C10.unaligned_subword_load", it.registers[d.rd as usize] == spec::rd_i(d.op, 0, 0, 0, 0, word >> (8 * (addr % 4))));
    }
}

/// Contracts on the encrypted half (native execution only).
#[cfg(phantom_verif)]
#[allow(dead_code, unused_imports, private_interfaces)]
pub mod enc { include!(concat!(env!("PHANTOM_VERIF_SRC"), "/enc.rs")); }

/// Bounded complements of C03 and C10 at sizes the verifier does not reach.
#[cfg(not(kani))]
#[allow(dead_code)]
pub mod wide {
    use super::*;
    /// (postconditions evaluated, failures)
    pub type Res = (usize, Vec<String>);

    /// a random program run by the reference interpreter, compared after every cycle
    fn dbg_one(k: u64, seed: u64, r: &mut Res) {
        let mut g = trace::rng(seed << 20 | k);
        let rom = match g(4) { 0 => 6 + g(60), 1 => 1000 + g(3000), 2 => 1 << (3 + g(8)), _ => 6 + g(600) } as usize;
        let ram = match g(4) { 0 => 1024, 1 => 1 + g(70), 2 => 1 << g(12), _ => 1 + g(3000) } as usize;
        let c = trace::Conf { rom, ram, cycles: 150 + g(150) as usize, base: 1 << 18, mul: false, subword: false, ecall: true, boot: false };
        let t = trace::run(seed << 20 | k, &c);
        let mut p = InstructionsParser::new();
        for w in &t.prog { p.add(Instruction::new(*w)) }
        let mut it = InterpreterDebug::new(rom, ram);
        it.set_instructions(&p);
        it.set_ram(&t.m0);
        it.registers = t.x0;
        let mut m = t.m0.clone();
        for (q, s) in t.steps.iter().enumerate() {
            if let Some((j, v)) = s.wr { m[j] = v }
            it.read_instructions();
            it.read_registers();
            it.read_ram();
            it.update_registers(RD_UPDATE_RV32I_OP_LIST);
            it.update_ram();
            it.update_pc();
            r.0 += 33 + ram;
            if it.pc != s.pc || it.registers != s.x || it.ram != m {
                let i = (0..32).find(|i| it.registers[*i] != s.x[*i]);
                let j = (0..ram).find(|j| it.ram[*j] != m[*j]);
                r.1.push(format!("layout {k} (ROM {rom}, RAM {ram}): after step {q}, instruction {:#010x}: pc {:#x} want {:#x}, first wrong register {i:?}, first wrong memory word {j:?}", s.w, it.pc, s.pc));
                return;
            }
        }
    }

    /// a long random program read back from the parser
    fn prog_one(k: u64, seed: u64, r: &mut Res) {
        let mut g = trace::rng(seed << 20 | k);
        let n = match g(3) { 0 => 1 + g(40), 1 => 200 + g(900), _ => 1000 + g(9000) } as usize;
        let c = trace::Conf { rom: n, ram: 64, cycles: 0, base: 1 << 18, mul: true, subword: true, ecall: false, boot: false };
        let t = trace::run(seed << 20 | k, &c);
        let mut p = InstructionsParser::new();
        for w in &t.prog { p.add(Instruction::new(*w)) }
        p.assert_size(n);
        for (q, w) in t.prog.iter().enumerate() {
            let Some(d) = spec::decode(*w) else { continue };
            let (er, em, ep) = effects(d.op);
            let (imm, rs2, rs1, rd, rdu, mu, pcu) = p.get(q);
            let want_r = RD_UPDATE_RV32M_OP_LIST.iter().find(|o| rd_op(**o) == er).map(|o| o.id() as i64);
            let want_m = RAM_UPDATE_OP_LIST.iter().find(|o| ram_op(**o) == em).map(|o| o.id() as i64);
            let want_p = PC_UPDATE_OP_LIST.iter().find(|o| pc_op(**o) == ep).map(|o| o.id() as i64);
            r.0 += 8;
            if p.get_raw(q).get() != *w || (imm, rs1, rs2, rd) != (d.imm as i64, d.rs1 as i64, d.rs2 as i64, d.rd as i64)
                || (Some(rdu), Some(mu), Some(pcu)) != (want_r, want_m, want_p) {
                r.1.push(format!("layout {k}: instruction {q} of {n}, {w:#010x}, reads back as {:#010x} {:?}", p.get_raw(q).get(), p.get(q)));
                return;
            }
        }
    }

    /// RV32M on random and boundary operands
    fn muldiv_one(k: u64, seed: u64, r: &mut Res) {
        let mut g = trace::rng(seed << 32 | k);
        for _ in 0..9 { g(2); }
        let mut v = || match g(8) { 0 => g(4), 1 => u32::MAX - g(4), 2 => (0x8000_0000u32).wrapping_add(g(5)).wrapping_sub(2), 3 => 1 << g(32), 4 => (1 << g(31) + 1) - 1, 5 => g(1 << 16), _ => g(u32::MAX) };
        let (a, b) = (v(), v());
        for o in RD_UPDATE_RV32M_OP_LIST {
            let Some(op) = rd_op(*o) else { continue };
            if !spec::is_rv32m(op) { continue }
            let (got, want) = (o.eval_plain(v(), a, b, v(), v()), if spec::is_mul(op) { spec::rd_mul(op, a, b) } else { spec::rd_div(op, a, b) });
            r.0 += 1;
            if got != want { r.1.push(format!("layout {k}: {op:?} of {a:#x} and {b:#x} gives {got:#x}, want {want:#x}")) }
        }
    }

    /// dbg:SEED:FIRST:COUNT | muldiv:SEED:FIRST:COUNT | prog:SEED:FIRST:COUNT
    pub fn go(case: &str, only: Option<u64>) -> Res {
        let a: Vec<&str> = case.split(':').collect();
        let n = |i: usize| -> u64 { a[i].parse().unwrap() };
        let mut r = (0, vec![]);
        for k in n(2)..n(2) + n(3) {
            if only.is_some_and(|o| o != k) { continue }
            match a[0] { "dbg" => dbg_one(k, n(1), &mut r), "muldiv" => muldiv_one(k, n(1), &mut r), _ => prog_one(k, n(1), &mut r) }
            if r.1.len() > 5 { break }
        }
        r
    }
}
