"""RV32 reference semantics as SMT-LIB bit-vector terms over 32-bit words (strings)."""
def c(v, n=32): return f"(_ bv{v & ((1 << n) - 1)} {n})"
def add(a, b): return f"(bvadd {a} {b})"
def b2w(p): return f"(ite {p} {c(1)} {c(0)})"
def sx(a, n): return f"((_ sign_extend {32 - n}) ((_ extract {n - 1} 0) {a}))"
def zx(a, n): return f"((_ zero_extend {32 - n}) ((_ extract {n - 1} 0) {a}))"
def sh(b): return f"(bvand {b} {c(31)})"

RD = {
 "NONE": lambda v: c(0),
 "LUI": lambda v: f"(bvshl {v['imm']} {c(12)})",
 "AUIPC": lambda v: add(v["pc"], f"(bvshl {v['imm']} {c(12)})"),
 "JAL": lambda v: add(v["pc"], c(4)), "JALR": lambda v: add(v["pc"], c(4)),
 "LB": lambda v: sx(v["ram"], 8), "LBU": lambda v: zx(v["ram"], 8),
 "LH": lambda v: sx(v["ram"], 16), "LHU": lambda v: zx(v["ram"], 16), "LW": lambda v: v["ram"],
 "SUB": lambda v: f"(bvsub {v['rs1']} {v['rs2']})",
}
for _n, _f in {"ADD": lambda a, b: add(a, b), "SLT": lambda a, b: b2w(f"(bvslt {a} {b})"),
               "SLTU": lambda a, b: b2w(f"(bvult {a} {b})"), "XOR": lambda a, b: f"(bvxor {a} {b})",
               "OR": lambda a, b: f"(bvor {a} {b})", "AND": lambda a, b: f"(bvand {a} {b})",
               "SLL": lambda a, b: f"(bvshl {a} {sh(b)})", "SRL": lambda a, b: f"(bvlshr {a} {sh(b)})",
               "SRA": lambda a, b: f"(bvashr {a} {sh(b)})"}.items():
    RD[_n] = lambda v, f=_f: f(v["rs1"], v["rs2"])
    RD["SLTIU" if _n == "SLTU" else _n + "I"] = lambda v, f=_f: f(v["rs1"], v["imm"])

COND = {"BEQ": "(= {0} {1})", "BNE": "(not (= {0} {1}))", "BLT": "(bvslt {0} {1})", "BGE": "(bvsge {0} {1})",
        "BLTU": "(bvult {0} {1})", "BGEU": "(bvuge {0} {1})"}
def next_pc(op, v):
    if op == "NONE": return add(v["pc"], c(4))
    if op == "JAL": return add(v["pc"], v["imm"])
    if op == "JALR": return f"(bvand {add(v['rs1'], v['imm'])} {c(~1)})"
    return add(v["pc"], f"(ite {COND[op].format(v['rs1'], v['rs2'])} {v['imm']} {c(4)})")

def ram_addr(v): return f"(bvsub {add(v['rs1'], v['imm'])} {c(1 << 18)})"

def store(op, rs2, old, off):
    """word written back; off: 32-bit word whose two low bits select the byte"""
    if op == "NONE": return old
    if op == "SW": return rs2
    s = f"(bvshl (bvand {off} {c(3)}) {c(3)})"
    m = f"(bvshl {c(0xff if op == 'SB' else 0xffff)} {s})"
    return f"(bvor (bvand {old} (bvnot {m})) (bvand (bvshl {rs2} {s}) {m}))"
