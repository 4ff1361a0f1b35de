"""What each property's check runs. Harness names are functions in /verif/contracts."""
def H(crate, *names, **kw): return [dict(crate=crate, name=n, **kw) for n in names]

FAST = ("--no-memory-safety-checks",)   # safe Rust: only panics, overflow and the named obligations matter
A_KANI = ["Kani/CBMC and the SAT/SMT solver are sound", "contracts/spec.rs states the RV32IM ISA correctly"]
A_VM = ["the all-encodings proofs use a RAM of 4 or 16 bytes and a one-word program; the shipped sizes are proved for one encoding per operation and sampled by random programs"]

A_ENC = ["contracts of the FHE library's primitives (listed in the evidence): exact, noise-free, one secret key", "z3, rustc and the term algebra (harness/sym/overlay/sym.rs) are sound",
         "vlib/encspec.py states the ISA correctly", "the evaluator is data-oblivious: it has no access to plaintexts, so one execution stands for all inputs"]
RV32M = "mul mulh mulhsu mulhu div divu rem remu".split()
RV32I_RD = "LUI AUIPC JAL JALR LB LBU LH LHU LW ADDI SLTI SLTIU XORI ORI ANDI SLLI SRLI SRAI ADD SUB SLL SLT SLTU XOR SRL SRA OR AND".split()
BRANCHES = "BEQ BNE BLT BGE BLTU BGEU".split()
STORES = "SB SH SW".split()

def c11(tier):
    ts = (1, 2, 3, 5, 8, 16, 33) if tier == "quick" else (1, 2, 3, 4, 5, 6, 7, 8, 12, 16, 31, 32, 33, 64)
    return [f"pc:{o}:{t}" for o in ["NONE", "JAL", "JALR"] + BRANCHES for t in ts]
def c12(tier): return [f"addr:x:{t}" for t in ((1, 2, 3, 4, 5, 6, 7, 8, 16, 31, 32, 33, 40) if tier == "quick" else range(1, 41))]
def c13(tier): return [f"rd:{o}:{t}" for o in ["NONE"] + RV32I_RD for t in ((1, 2, 3, 5, 8, 16, 33) if tier == "quick" else (1, 2, 3, 4, 5, 6, 7, 8, 12, 16, 31, 32, 33, 64))]
def c14(tier): return [f"ram:{o}:{t}" for o in ["NONE"] + STORES for t in ((1, 2, 3, 5, 8, 16, 33) if tier == "quick" else (1, 2, 3, 4, 5, 6, 7, 8, 12, 16, 31, 32, 33, 64))]
def c15(tier):
    q = [f"mem:{o}:{t}:{n}:{w}:{off}" for o, t, n, w, off in [
        ("r", 1, 2, 32, 0), ("r", 3, 5, 32, 2), ("w", 1, 2, 32, 0), ("w", 3, 5, 32, 2), ("s", 1, 2, 32, 0), ("s", 3, 5, 32, 2),
        ("r", 2, 32, 32, 0), ("w", 2, 32, 32, 0), ("s", 8, 32, 32, 2), ("r", 5, 33, 32, 2), ("w", 5, 33, 32, 2), ("s", 5, 33, 32, 2),
        ("r", 1, 1000, 3, 2), ("w", 2, 1000, 3, 2), ("s", 3, 1000, 3, 2), ("r", 8, 1024, 9, 2), ("w", 1, 1024, 9, 0), ("s", 4, 1024, 9, 2),
        ("r", 1, 1025, 2, 2), ("w", 3, 1025, 2, 2), ("s", 2, 1025, 2, 2), ("r", 2, 2049, 2, 2), ("s", 1, 2049, 2, 2), ("w", 1, 2049, 2, 2),
        ("r", 1, 3072, 1, 2), ("w", 2, 3072, 1, 2), ("s", 1, 3072, 1, 2), ("r", 1, 4096, 1, 2), ("w", 2, 4096, 1, 2), ("s", 1, 4096, 1, 2),
        ("sss", 1, 5, 3, 2), ("wrs", 2, 6, 3, 0), ("srw", 1, 7, 3, 2), ("swr", 3, 8, 3, 2), ("wsr", 1, 5, 3, 2), ("ssr", 1, 16, 2, 2), ("rsw", 1, 5, 3, 2), ("wws", 1, 5, 3, 2),
        ("srss", 1, 5, 2, 2)]]
    q += [f"zero:x:{t}:{n}:{w}" for t, n, w in ((1, 2, 32), (3, 5, 32), (8, 32, 32), (2, 33, 5), (1, 1000, 1), (1, 1025, 1), (2, 2049, 1))]
    if tier == "thorough":
        q += [f"mem:{o}:{t}:{n}:{w}:2" for n, w in ((2, 32), (3, 32), (4, 32), (7, 32), (31, 32), (32, 32), (64, 32), (65, 32), (100, 32), (512, 32), (1023, 8), (1024, 32), (1536, 4), (2048, 4), (2500, 2), (5000, 1), (6145, 1))
              for o in "rws" for t in (1, 2, 5, 8, 33)]
        q += [f"mem:{a + b + c}:{t}:{n}:2:2" for a in "rws" for b in "rws" for c in "rws" for t, n in ((1, 4), (2, 5), (3, 9))]
        q += [f"zero:x:{t}:{n}:2" for n in (3, 4, 1024, 2048) for t in (1, 3, 8)]
    return q
def c16(tier):
    lists = ["1", "32", "5", "5,3,4,32,5,5,5", "32,32,12", "1,1,1", "31,1,32", "7,32", "3,5,7,11,13", "2,32,1,32,4"]
    ts = (1, 2, 3, 4, 5, 7, 8, 16, 31, 33, 60) if tier == "quick" else range(1, 70)
    extra = [] if tier == "quick" else [f"{a},{b}" for a in range(1, 33, 3) for b in range(1, 33, 5)]
    return [f"prep:{l}:{t}" for l in lists for t in ts] + [f"prep:{l}:{t}" for l in extra for t in (1, 3, 8)]
def c17(tier):
    sym = ["hist:77:1:8:8:300"] + [f"cycle:{o}:1:4:8:1:s:s:s" for o in RV32I_RD] + [f"cycle:{o}:1:4:8:1:s:s:0" for o in BRANCHES + STORES + ["ECALL"]]
    q = sym + [f"cycle:{o}:1:4:8:s:s:s:{'0' if o in STORES + ['ECALL'] else 's'}" for o in ("XOR", "SLLI", "LW", "SW", "LUI", "ECALL")]
    q += [f"cycle:{o}:1:5:8:{at}:5:6:{'7' if o in RV32I_RD else '0'}" for o in ("BEQ", "JAL", "AUIPC", "ADDI") for at in range(5)]
    q += [f"cycle:{o}:1:4:8:0:s:s:{'s' if o in RV32I_RD else '0'}:first" for o in ("ADD", "BNE", "JAL", "AUIPC", "SH", "LW")]
    q += [f"cycle:{o}:{t}:4:8:2:s:s:{'s' if o in RV32I_RD else '0'}" for t in (2, 3, 5, 8) for o in ("SUB", "BGE", "SB", "LHU", "JALR")]
    q += ["cycle:ADD:1:4:3:1:5:6:7", "cycle:SB:1:3:5:2:s:s:0", "cycle:LW:2:7:33:6:s:s:s", "cycle:SW:1:9:64:8:s:s:0", "cycle:OR:1:33:8:s:s:s:s"]
    q += [f"hist:{k}:{t}:{rom}:{ram}:{n}" for k, (t, rom, ram, n) in enumerate([(1, 40, 64, 60), (1, 1100, 64, 40), (3, 33, 1024, 40), (8, 9, 8, 40), (1, 3, 1024, 60),
          (2, 64, 33, 40), (5, 1025, 1024, 40), (1, 100, 16, 80), (33, 20, 64, 10), (1, 2, 5, 20), (1, 1024, 1024, 40), (1, 257, 128, 40)])]
    if tier == "thorough":
        q += [f"hist:{k}:{t}:{rom}:{ram}:150" for k in range(100, 140) for t, rom, ram in ((1, 30 + 37 * k % 1300, 1024), (k % 9 + 1, 1 << k % 5 + 2, 3 + 11 * k % 200))]
        q += [f"cycle:{o}:{t}:4:8:1:s:s:{'s' if o in RV32I_RD else '0'}" for t in (2, 8, 33) for o in RV32I_RD + BRANCHES + STORES + ["ECALL"]]
        q += [f"cycle:{o}:1:6:8:{at}:5:6:{'7' if o in RV32I_RD else '0'}" for o in BRANCHES + ["JAL", "JALR", "AUIPC"] for at in range(6)]
        q += ["cycle:LW:1:4:1024:1:s:s:s", "cycle:SB:2:4:1024:1:s:s:0", "cycle:ADD:8:4:1024:1:s:s:s", "cycle:SH:8:64:256:7:s:s:0", "cycle:XOR:1:1500:8:s:5:6:7"]
    return q

def c18(tier):
    q = [f"state:{d}:{t}:{rom}:{ram}:{fill}:{prog}" for d, t, rom, ram, fill, prog in [("x", 1, 2, 2, 2, 2), ("x", 1, 5, 8, 8, 5), ("x", 2, 40, 1024, 1024, 40), ("x", 1, 33, 1000, 1000, 20), ("x", 3, 1, 32, 20, 1),
         ("x", 1, 1023, 64, 64, 1023), ("x", 8, 1024, 64, 64, 1024), ("x", 1, 1025, 64, 60, 1025), ("x", 1, 2050, 1025, 1025, 2050), ("x", 1, 100, 2048, 2048, 100), ("debug", 1, 60, 3000, 3000, 60), ("x", 2, 3000, 4096, 4000, 2500)]]
    if tier == "thorough": q += [f"state:x:{t}:{n}:{n}:{f}:{f}" for n in list(range(2, 80)) + list(range(1000, 1050)) + [2047, 2048, 2049, 3071, 3072, 3073, 5000, 8192] for t in (1, 4) for f in (n, n - n // 3)]
    return q
def c19(tier): return [f"elf:{s}:0:{n}" for s in range(1, 9) for n in ((4000,) if tier == "quick" else (200000,))]
def c20(tier):
    q = [f"tape:{s}:0:{n}" for s in range(1, 9) for n in ((8,) if tier == "quick" else (80,))]
    q += [f"ctape:{s}:0:{n}" for s in range(1, 5) for n in ((500,) if tier == "quick" else (20000,))]
    return q + [f"run:{s}:{s}:{1 if tier == 'quick' else 6}:{c}" for s, c in enumerate((0, 1, 2, 6, 7, 9, 20, 33, 64, 100, 150, 200))]
def c03w(tier): return [f"prog:{s}:0:{100 if tier == 'quick' else 5000}" for s in range(1, 5)]
def c05w(tier): return [f"muldiv:{s}:0:{20000 if tier == 'quick' else 2000000}" for s in range(1, 9)]
def c08w(tier): return [f"vm:{s}:0:{500 if tier == 'quick' else 20000}" for s in range(1, 8)] + ["long:0:0:16"]
def c09w(tier): return [f"vm:{s}:0:{500 if tier == 'quick' else 20000}" for s in range(11, 19)]
def c10w(tier): return [f"dbg:{s}:0:{250 if tier == 'quick' else 10000}" for s in range(1, 9)]

CHECKS = {
 "C01": dict(engine="kani", level="proof", assumptions=A_KANI,
    harnesses=H("fhevm", "c01_fields", "c01_operation", "c01_reject_partial"),
    functions=["fhevm::instructions::Instruction::{get_registers,get_imm,get_opid}", "instructions::{r,i,s,b,u,j}_type getters"]),
 "C02": dict(engine="kani", level="proof", assumptions=A_KANI, harnesses=H("fhevm", "c02_build", "c02_isolation"),
    functions=["fhevm::instructions::RV32I::new", "Instruction::{set_rd,set_rs1,set_rs2,set_imm,set_funct3,set_funct7,set_opcode}"]),
 "C03": dict(engine="both", level="proof", cases=c03w, assumptions=A_KANI + ["two additions to a program of 0 or 1 instructions stand for any history of additions (add only appends)"],
    harnesses=H("fhevm", "c03_store", "c03_op_lists", opts=FAST),
    functions=["fhevm::instructions::InstructionsParser::{new,add,get,get_raw,assert_size}", "RD_UPDATE/RAM_UPDATE/PC_UPDATE::id and the three operation tables"],
    bounds=["proved: program length at most 3 in the store harness; bounded complement: random programs of up to 10000 instructions"]),
 "C04": dict(engine="kani", level="proof", assumptions=A_KANI, harnesses=H("fhevm", "c04_rv32i"), functions=["fhevm::instructions::RD_UPDATE::eval_plain (RV32I)"]),
 "C05": dict(engine="both", level="proof", assumptions=A_KANI,
    harnesses=H("fhevm", *["c05_" + o for o in RV32M], soft=True), cases=c05w, functions=["fhevm::instructions::RD_UPDATE::eval_plain (RV32M)"]),
 "C06": dict(engine="kani", level="proof", assumptions=A_KANI, harnesses=H("fhevm", "c06_store"), functions=["fhevm::instructions::RAM_UPDATE::eval_plain"]),
 "C07": dict(engine="kani", level="proof", assumptions=A_KANI, harnesses=H("fhevm", "c07_next_pc"), functions=["fhevm::instructions::PC_UPDATE::eval_plain"]),
 "C08": dict(engine="both", level="proof", cases=c08w, assumptions=A_KANI + A_VM,
    harnesses=H("testvm", "c08_alu_imm", "c08_alu_reg", "c08_upper_jump", "c08_branch", "c08_mul_routing", "c08_div_routing", "c08_execute", opts=FAST)
      + H("testvm", *["c08_arith_" + o for o in RV32M], "c08_fetch_wide", opts=FAST, soft=True)
      + H("testvm", *["c08_arith32_" + o for o in RV32M], "c08_mul", "c08_mulh", "c08_mulhsu", "c08_mulhu", "c08_mul_all", "c08_div_small", opts=FAST, soft=True, thorough=True),
    functions=["compiler::interpreter::testvm::TestVM::{init,run,decode_inst,execute,register,register_mut}", "testvm::utils::{extract_bits,sign_extend}", "testvm::Memory::{new,load_memory,read_word}"],
    bounds=["multiplications and divisions: all operand values on 8 encodings (thorough: 32, every register in every role; MUL also on all encodings), boundary operands on all encodings (not a proof for their combination)", "execute: at most 5 cycles proved; bounded complement: runs of up to 3 000 001 cycles, random RV32IM programs of up to 21000 words on a RAM of up to 16 KB"]),
 "C09": dict(engine="both", level="proof", cases=c09w, assumptions=A_KANI + A_VM, harnesses=H("testvm", "c09_load", "c09_store", opts=FAST) + H("testvm", *["c09_wide_" + o for o in "lb lh lw lbu lhu sb sh sw".split()], opts=FAST, soft=True),
    functions=["compiler::interpreter::testvm::TestVM::run (loads, stores)", "testvm::Memory::{write_byte,write_half,write_word,read_byte,read_half,read_word}"],
    bounds=["proved on a RAM of 16 bytes for all encodings, and on the shipped 4096 bytes for one encoding of each operation; bounded complement: random programs on a RAM of up to 16 KB"]),
 "C10": dict(engine="both", level="proof", cases=c10w, assumptions=A_KANI + ["under the verifier only, the std hash map is replaced by an association list with the same insert/get contract"],
    harnesses=H("fhevm", "c10_alu", "c10_control", "c10_load", "c10_store", opts=FAST) + H("fhevm", *["c10_wide_" + o for o in "lw sw sb sh".split()], opts=FAST, soft=True), probes=H("fhevm", "c10_subword_known", opts=FAST),
    functions=["fhevm::debug::InterpreterDebug::{new,set_instructions,set_ram,read_instructions,read_registers,read_ram,update_registers,update_ram,update_pc}"],
    bounds=["proved: RAM of 4 words, ROM of 2 (LW, SB, SH, SW also on the shipped RAM of 1024 words); bounded complement: random RV32I programs, ROM up to 4000 words, RAM up to 4096 words"]),
 "C11": dict(engine="enc", level="proof", assumptions=A_ENC + ["immediate representable in 20 bits with sign"], cases=c11,
    functions=["fhevm::pc_update::update_pc", "pc_update::FheUintHelper::get_bit", "codegen::codegen_pc_update (all 32 circuits)", "poulpy FheUint::pack, execute_bdd_circuit (run as shipped)"],
    bounds=["thread counts: those listed in the cases"]),
 "C12": dict(engine="enc", level="proof", assumptions=A_ENC, cases=c12, functions=["fhevm::ram_offset::ram_offset", "codegen::codegen_ram_offset (all 32 circuits)"], bounds=["thread counts: those listed in the cases"]),
 "C13": dict(engine="enc", level="proof", assumptions=A_ENC, cases=c13, functions=["fhevm::rd_update::<RD_UPDATE as Evaluate>::eval_enc (28 operations)", "codegen_{auipc,jalr,lui}"], bounds=["thread counts: those listed in the cases"]),
 "C14": dict(engine="enc", level="proof", assumptions=A_ENC, cases=c14, functions=["fhevm::ram_update::<RAM_UPDATE as Store>::eval_enc"], bounds=["thread counts: those listed in the cases"]),
 "C15": dict(engine="enc", level="other", explanation="each listed memory size, operation sequence and thread count is decided for every address and every content (complete case analysis of symbolic executions of the real code); the sizes and sequence lengths themselves are enumerated, not quantified", assumptions=A_ENC + ["memory of at least two words, address in range"], cases=c15,
    functions=["fhevm::memory::Memory::{alloc,read_stateless,read_statefull,read_statefull_rev,write,zero}", "memory::BitArray (all operations)"],
    bounds=["for each listed size, thread count and operation sequence: every address and every content; other sizes and longer sequences are not covered"]),
 "C16": dict(engine="enc", level="other", explanation="each listed list of bit counts and thread count is decided for every content (z3 on terms from a symbolic execution of the real code); lists and thread counts are enumerated, not quantified", assumptions=A_ENC, cases=c16, functions=["fhevm::prepare::PrepareMultiple::prepare_multiple_fheuint"],
    bounds=["for each listed list of bit counts and thread count: every content"]),
 "C17": dict(engine="enc", level="proof", assumptions=A_ENC + ["one cycle from a state left by an arbitrary earlier cycle stands for any history",
      "jump and branch immediates representable in 20 bits with sign; sub-word loads at a word-aligned address (known finding C17-1)"], cases=c17,
    probes={"c17_subword": "cycle:LB:1:4:8:1:5:6:7:subword"},
    functions=["fhevm::interpreter::Interpreter::{new,cycle,cycle_internal,read_and_prepare_instruction_components,read_and_prepare_registers,read_ram,update_registers,update_ram,update_pc}", "and everything under C11 to C16"],
    bounds=["RAM and ROM sizes and thread counts: those listed in the cases (quick: RAM of 3 to 64 words; thorough: up to the shipped 1024)"]),
 "C18": dict(engine="enc", level="other", explanation="bounded stand-in: the real loading and decryption code runs over assumed exact contracts of the FHE primitives; the postcondition is evaluated for every word on the listed sizes with position-distinguishing contents", assumptions=["contracts of the FHE library's encryption, decryption and encoding: exact and noise-free",
      "loading copies bits without depending on their values: contents that tell all positions apart (every bit of the position number, and its complement), all-ones, zeros and random words stand for all contents"],
    cases=c18, functions=["fhevm::interpreter::Interpreter::{new,new_with_debug,init_registers,ram_encrypt_sk,ram_decrypt,instructions_encrypt_sk}", "fhevm::memory::Memory::{encrypt_sk,decrypt}", "memory::BitArray::{alloc,encrypt_sk,decrypt}"],
    bounds=["bounded: the listed memory and program sizes, thread counts and the contents above"]),
 "C19": dict(engine="enc", level="other", explanation="bounded stand-in: the postcondition of Phantom::from_elf is evaluated byte for byte on enumerated ELF layouts", assumptions=["the elf crate parses headers correctly"], cases=c19, functions=["compiler::interpreter::Phantom::from_elf"],
    bounds=["bounded: pseudo-random ELF layouts (32 000 quick, 1 600 000 thorough): 0 to 4 data segments in ascending order, any file order, file-backed and not, decoy headers, 4 RAM bases, any input and output areas"]),
 "C20": dict(engine="both", level="other", explanation="cleartext half: contracts discharged by Kani for every placement, length and content on a 4-byte RAM; encrypted half: bounded stand-in, postcondition evaluated on enumerated layouts of the 4 KB RAM over assumed exact FHE contracts", assumptions=A_KANI + ["encrypted half (bounded): contracts of the FHE library's primitives, exact and noise-free"],
    harnesses=H("testvm", "c20_input", "c20_output", "c20_length_partial", opts=FAST), cases=c20,
    functions=["compiler::interpreter::testvm::TestVM::{init,read_input_tape,output_tape}", "testvm::Memory::{load_memory,read_byte}", "compiler::interpreter::Phantom::encrypted_vm", "EncryptedVM::{execute,output_tape}"],
    bounds=["cleartext half, proved: RAM of 4 bytes, every placement and length of the two areas, every content, every base address",
            "cleartext half, bounded complement: pseudo-random areas on RAMs of 1 to 70000 bytes, every byte compared",
            "encrypted half, bounded: pseudo-random areas and contents of the 4 KB RAM before any cycle, and random programs after 0 to 200 cycles, for several thread counts, with and without debug mode"]),
 "C21": dict(engine="kani", heap=True, level="proof", assumptions=A_KANI + ["the guest heap is verified with 64-bit addresses; the assembly reading the stack pointer is assumed to return it",
      "first allocation makes the heap position arbitrary, so the second and third stand for any later allocation"],
    harnesses=H("alloc", "c21_first_partial", "c21_next_partial", "c21_granted"),
    functions=["runtime::alloc::sys_alloc_aligned", "<runtime::Heap as GlobalAlloc>::{alloc,dealloc}"],
    bounds=["bounded complement: 200 (thorough 5000) pseudo-random histories of up to 4000 alloc, alloc_zeroed, realloc and dealloc calls on a 1 MB heap"]),
}

NOT_APPLICABLE = {
 "C22": "noise growth is a probabilistic statement about the FHE library's error distributions; no contract a deductive verifier can discharge on this code expresses it (the contracts of the FHE primitives are assumed noise-free)",
 "C23": "secrecy and freshness are distributional/computational properties, not functional contracts; by inspection Phantom::encrypted_vm uses fixed all-zero seeds, recorded in DESIGN.md",
}
