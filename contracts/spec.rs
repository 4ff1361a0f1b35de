// Independent RV32IM specification used by every contract in this directory.
// It is written from the RISC-V unprivileged ISA manual, over plain integers,
// and shares no code with /repo.

#[allow(clippy::upper_case_acronyms)]
#[derive(Clone, Copy, PartialEq, Eq, Debug)]
pub enum Op {
    LUI, AUIPC, JAL, JALR,
    BEQ, BNE, BLT, BGE, BLTU, BGEU,
    LB, LH, LW, LBU, LHU,
    SB, SH, SW,
    ADDI, SLTI, SLTIU, XORI, ORI, ANDI, SLLI, SRLI, SRAI,
    ADD, SUB, SLL, SLT, SLTU, XOR, SRL, SRA, OR, AND,
    MUL, MULH, MULHSU, MULHU, DIV, DIVU, REM, REMU,
}

/// Architectural content of one instruction word. Fields an operation does not have are 0.
/// `imm` is the sign-extended immediate; for LUI/AUIPC it is the *raw* upper 20 bits
/// (not shifted), and for SLLI/SRLI/SRAI the 5-bit shift amount.
#[derive(Clone, Copy, PartialEq, Eq, Debug)]
pub struct Dec {
    pub op: Op,
    pub rd: u32,
    pub rs1: u32,
    pub rs2: u32,
    pub imm: u32,
}

pub fn bits(w: u32, hi: u32, lo: u32) -> u32 {
    ((w as u64 >> lo) & ((1u64 << (hi - lo + 1)) - 1)) as u32
}

/// sign extension of an n-bit value, n in 1..=32
pub fn sx(v: u32, n: u32) -> u32 {
    let m = 1i64 << n;
    let x = (v as i64) & (m - 1);
    (if x >= m / 2 { x - m } else { x }) as u32
}

pub fn imm_i(w: u32) -> u32 { sx(bits(w, 31, 20), 12) }
pub fn imm_s(w: u32) -> u32 { sx(bits(w, 31, 25) * 32 + bits(w, 11, 7), 12) }
pub fn imm_b(w: u32) -> u32 {
    sx(bits(w, 31, 31) * 4096 + bits(w, 7, 7) * 2048 + bits(w, 30, 25) * 32 + bits(w, 11, 8) * 2, 13)
}
pub fn imm_u_raw(w: u32) -> u32 { bits(w, 31, 12) }
pub fn imm_j(w: u32) -> u32 {
    sx(bits(w, 31, 31) * (1 << 20) + bits(w, 19, 12) * 4096 + bits(w, 20, 20) * 2048 + bits(w, 30, 21) * 2, 21)
}

pub fn decode(w: u32) -> Option<Dec> {
    let opc = bits(w, 6, 0);
    let f3 = bits(w, 14, 12);
    let f7 = bits(w, 31, 25);
    let rd = bits(w, 11, 7);
    let rs1 = bits(w, 19, 15);
    let rs2 = bits(w, 24, 20);
    let d = |op, rd, rs1, rs2, imm| Some(Dec { op, rd, rs1, rs2, imm });
    match opc {
        0x37 => d(Op::LUI, rd, 0, 0, imm_u_raw(w)),
        0x17 => d(Op::AUIPC, rd, 0, 0, imm_u_raw(w)),
        0x6F => d(Op::JAL, rd, 0, 0, imm_j(w)),
        0x67 => if f3 == 0 { d(Op::JALR, rd, rs1, 0, imm_i(w)) } else { None },
        0x63 => {
            let op = match f3 {
                0 => Op::BEQ, 1 => Op::BNE, 4 => Op::BLT, 5 => Op::BGE, 6 => Op::BLTU, 7 => Op::BGEU,
                _ => return None,
            };
            d(op, 0, rs1, rs2, imm_b(w))
        }
        0x03 => {
            let op = match f3 {
                0 => Op::LB, 1 => Op::LH, 2 => Op::LW, 4 => Op::LBU, 5 => Op::LHU,
                _ => return None,
            };
            d(op, rd, rs1, 0, imm_i(w))
        }
        0x23 => {
            let op = match f3 { 0 => Op::SB, 1 => Op::SH, 2 => Op::SW, _ => return None };
            d(op, 0, rs1, rs2, imm_s(w))
        }
        0x13 => match f3 {
            0 => d(Op::ADDI, rd, rs1, 0, imm_i(w)),
            2 => d(Op::SLTI, rd, rs1, 0, imm_i(w)),
            3 => d(Op::SLTIU, rd, rs1, 0, imm_i(w)),
            4 => d(Op::XORI, rd, rs1, 0, imm_i(w)),
            6 => d(Op::ORI, rd, rs1, 0, imm_i(w)),
            7 => d(Op::ANDI, rd, rs1, 0, imm_i(w)),
            1 => if f7 == 0 { d(Op::SLLI, rd, rs1, 0, rs2) } else { None },
            _ => match f7 {
                0x00 => d(Op::SRLI, rd, rs1, 0, rs2),
                0x20 => d(Op::SRAI, rd, rs1, 0, rs2),
                _ => None,
            },
        },
        0x33 => {
            let op = match (f7, f3) {
                (0x00, 0) => Op::ADD, (0x20, 0) => Op::SUB, (0x00, 1) => Op::SLL, (0x00, 2) => Op::SLT,
                (0x00, 3) => Op::SLTU, (0x00, 4) => Op::XOR, (0x00, 5) => Op::SRL, (0x20, 5) => Op::SRA,
                (0x00, 6) => Op::OR, (0x00, 7) => Op::AND,
                (0x01, 0) => Op::MUL, (0x01, 1) => Op::MULH, (0x01, 2) => Op::MULHSU, (0x01, 3) => Op::MULHU,
                (0x01, 4) => Op::DIV, (0x01, 5) => Op::DIVU, (0x01, 6) => Op::REM, (0x01, 7) => Op::REMU,
                _ => return None,
            };
            d(op, rd, rs1, rs2, 0)
        }
        _ => None,
    }
}

pub fn is_load(op: Op) -> bool { matches!(op, Op::LB | Op::LH | Op::LW | Op::LBU | Op::LHU) }
pub fn is_store(op: Op) -> bool { matches!(op, Op::SB | Op::SH | Op::SW) }
pub fn is_branch(op: Op) -> bool { matches!(op, Op::BEQ | Op::BNE | Op::BLT | Op::BGE | Op::BLTU | Op::BGEU) }
pub fn is_jump(op: Op) -> bool { matches!(op, Op::JAL | Op::JALR) }
pub fn is_mul(op: Op) -> bool { matches!(op, Op::MUL | Op::MULH | Op::MULHSU | Op::MULHU) }
pub fn is_div(op: Op) -> bool { matches!(op, Op::DIV | Op::DIVU | Op::REM | Op::REMU) }
pub fn is_rv32m(op: Op) -> bool { is_mul(op) || is_div(op) }

fn lt_s(a: u32, b: u32) -> bool { (a ^ 0x8000_0000) < (b ^ 0x8000_0000) }

fn shl(a: u32, s: u32) -> u32 { ((a as u64) << (s & 31)) as u32 }
fn shr(a: u32, s: u32) -> u32 { (a as u64 >> (s & 31)) as u32 }
fn sar(a: u32, s: u32) -> u32 { ((a as i32 as i64) >> (s & 31)) as u32 }

/// Destination register value; `loaded` is the word of memory addressed (already positioned so that
/// the addressed byte is byte 0). Operations without destination give 0. RV32M excluded.
pub fn rd_i(op: Op, imm: u32, rs1: u32, rs2: u32, pc: u32, loaded: u32) -> u32 {
    match op {
        Op::LUI => (imm & 0xF_FFFF) * 4096,
        Op::AUIPC => pc.wrapping_add((imm & 0xF_FFFF) * 4096),
        Op::JAL | Op::JALR => pc.wrapping_add(4),
        Op::LB => sx(loaded & 0xFF, 8),
        Op::LBU => loaded & 0xFF,
        Op::LH => sx(loaded & 0xFFFF, 16),
        Op::LHU => loaded & 0xFFFF,
        Op::LW => loaded,
        Op::ADDI => rs1.wrapping_add(imm),
        Op::ADD => rs1.wrapping_add(rs2),
        Op::SUB => rs1.wrapping_sub(rs2),
        Op::SLTI => lt_s(rs1, imm) as u32,
        Op::SLT => lt_s(rs1, rs2) as u32,
        Op::SLTIU => (rs1 < imm) as u32,
        Op::SLTU => (rs1 < rs2) as u32,
        Op::XORI => rs1 ^ imm,
        Op::XOR => rs1 ^ rs2,
        Op::ORI => rs1 | imm,
        Op::OR => rs1 | rs2,
        Op::ANDI => rs1 & imm,
        Op::AND => rs1 & rs2,
        Op::SLLI => shl(rs1, imm),
        Op::SLL => shl(rs1, rs2),
        Op::SRLI => shr(rs1, imm),
        Op::SRL => shr(rs1, rs2),
        Op::SRAI => sar(rs1, imm),
        Op::SRA => sar(rs1, rs2),
        _ => 0,
    }
}

pub fn rd_mul(op: Op, rs1: u32, rs2: u32) -> u32 {
    match op {
        Op::MUL => rs1.wrapping_mul(rs2),
        Op::MULH => (((rs1 as i32 as i64) * (rs2 as i32 as i64)) >> 32) as u32,
        Op::MULHSU => (((rs1 as i32 as i64) * (rs2 as i64)) >> 32) as u32,
        _ => (((rs1 as u64) * (rs2 as u64)) >> 32) as u32,
    }
}

pub fn rd_div(op: Op, rs1: u32, rs2: u32) -> u32 {
    let ovf = rs1 == 0x8000_0000 && rs2 == 0xFFFF_FFFF;
    match op {
        Op::DIV => if rs2 == 0 { 0xFFFF_FFFF } else if ovf { 0x8000_0000 } else { (rs1 as i32 / rs2 as i32) as u32 },
        Op::DIVU => if rs2 == 0 { 0xFFFF_FFFF } else { rs1 / rs2 },
        Op::REM => if rs2 == 0 { rs1 } else if ovf { 0 } else { (rs1 as i32 % rs2 as i32) as u32 },
        _ => if rs2 == 0 { rs1 } else { rs1 % rs2 },
    }
}

pub fn rd_val(op: Op, imm: u32, rs1: u32, rs2: u32, pc: u32, loaded: u32) -> u32 {
    if is_mul(op) { rd_mul(op, rs1, rs2) } else if is_div(op) { rd_div(op, rs1, rs2) } else { rd_i(op, imm, rs1, rs2, pc, loaded) }
}

pub fn next_pc(op: Op, imm: u32, rs1: u32, rs2: u32, pc: u32) -> u32 {
    let taken = match op {
        Op::BEQ => rs1 == rs2,
        Op::BNE => rs1 != rs2,
        Op::BLT => lt_s(rs1, rs2),
        Op::BGE => !lt_s(rs1, rs2),
        Op::BLTU => rs1 < rs2,
        Op::BGEU => rs1 >= rs2,
        Op::JAL => true,
        Op::JALR => return rs1.wrapping_add(imm) & !1,
        _ => false,
    };
    pc.wrapping_add(if taken { imm } else { 4 })
}

/// Word written back to the addressed (aligned) word for a store of rs2 at byte offset `off` in 0..4.
pub fn store_word(op: Op, rs2: u32, old: u32, off: u32) -> u32 {
    let (mask, val): (u64, u64) = match op {
        Op::SB => (0xFF, rs2 as u64 & 0xFF),
        Op::SH => (0xFFFF, rs2 as u64 & 0xFFFF),
        Op::SW => (0xFFFF_FFFF, rs2 as u64),
        _ => return old,
    };
    let s = off * 8;
    let m = (mask << s) as u32;
    (old & !m) | (((val << s) as u32) & m)
}

/// Access width in bytes of a load or store.
pub fn width(op: Op) -> u32 {
    match op {
        Op::LB | Op::LBU | Op::SB => 1,
        Op::LH | Op::LHU | Op::SH => 2,
        _ => 4,
    }
}
