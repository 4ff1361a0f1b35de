#!/usr/bin/env python3
"""Writes properties.jsonl."""
import json, pathlib
P = []
def p(id, title, statement, over, qtext, why, files, mech, **kw):
    P.append({"id": id, "title": title, "statement": statement, "quantifier": {"over": over, "text": qtext},
      "why_tests_cant": why, "anchors": {"files": files, "mechanism": [{"name": n, "where": w} for n, w in mech], **kw}})
I = "fhevm/src/instructions/mod.rs"
p("C01", "Instruction words decode to the ISA's operation, registers and immediate",
  "For every 32-bit word that encodes an RV32IM instruction, the decoder reports the destination and source registers, the sign-extended immediate, and the register, memory and program-counter effect that the RISC-V ISA assigns to it; fields an instruction format does not have read as zero (the upper-immediate instructions report the raw 20-bit field, immediate shifts the 5-bit amount). A word with no defined meaning is refused instead of being given one, except that system instructions are no-ops and reserved function bits of JALR and SLLI are ignored.",
  ["inputs"], "all 2^32 instruction words", "tests decode a few hand-picked words per format; a wrong bit position or sign bit in one field only shows on particular words",
  [I, "fhevm/src/instructions/r_type.rs", "fhevm/src/instructions/i_type.rs", "fhevm/src/instructions/s_type.rs", "fhevm/src/instructions/b_type.rs", "fhevm/src/instructions/u_type.rs", "fhevm/src/instructions/j_type.rs"],
  [("Instruction::get_registers / get_imm / get_opid", I)], hook_needed="cfg-guarded include of external contracts")
p("C02", "Instructions built from fields encode exactly those fields",
  "Building any RV32I instruction from its template and setting its register and immediate fields, with any argument values, gives a word that is that operation with those fields (each argument reduced to the width its format carries), and reading the fields back returns them. Setting one field of an instruction changes no other field.",
  ["inputs"], "every RV32I template, every field, all 32-bit argument values and all instruction words", "the field/value/format product is far beyond the samples in the round-trip tests",
  [I, "fhevm/src/instructions/i_type.rs", "fhevm/src/instructions/s_type.rs", "fhevm/src/instructions/b_type.rs", "fhevm/src/instructions/j_type.rs", "fhevm/src/instructions/u_type.rs"],
  [("RV32I::new, Instruction::set_*", I)], hook_needed="cfg-guarded include of external contracts")
p("C03", "The program store keeps every instruction, in order, with distinct operation ids",
  "Adding instructions to a program keeps all earlier entries and appends the new one, and each entry yields the instruction's own immediate, register numbers and operation identifiers. Every supported operation has exactly one entry in the operation tables, identifiers are pairwise distinct, and they fit the number of bits with which they are encrypted and selected.",
  ["programs", "inputs"], "all instruction words at any position", "a clash or a dropped operation shows only for programs that use exactly those operations",
  [I], [("InstructionsParser::add/get/get_raw", I), ("RD_UPDATE/RAM_UPDATE/PC_UPDATE tables and ids", I)], hook_needed="cfg-guarded include of external contracts")
p("C04", "Plain evaluation of RV32I results matches the ISA for all operands",
  "For every RV32I operation that writes a register, the plain evaluator returns the value the ISA defines for every immediate, operand, program-counter and loaded-word value, including wrap-around, signed comparison, arithmetic shift, shift amounts reduced modulo 32, and sign or zero extension of loads. It never aborts.",
  ["inputs"], "all 32-bit operand values for every operation", "tests use a few random operands; boundary values (sign bits, shift >= 32, overflow) are rarely drawn",
  [I], [("RD_UPDATE::eval_plain", I)], hook_needed="cfg-guarded include of external contracts")
p("C05", "Plain multiplication and division match the ISA, including zero divisors",
  "The eight RV32M operations return the ISA's result for all operands: low and high product words for each signedness, quotient rounded toward zero, remainder with the dividend's sign. Division by zero and the signed overflow case give the ISA's defined values and never abort.",
  ["inputs"], "all pairs of 32-bit operands for all eight operations", "2^64 operand pairs; the defining corner cases are single points",
  [I], [("RD_UPDATE::eval_plain (MUL..REMU)", I)], hook_needed="cfg-guarded include of external contracts")
p("C06", "Plain byte, half and word stores change exactly the addressed bytes",
  "Merging a stored value into a memory word at an aligned byte offset replaces exactly the addressed byte, half-word or word by the low bits of the source and leaves every other bit of the word as it was; with no store the word is unchanged.",
  ["inputs"], "all source and memory words, all offsets aligned to the access", "frame violations show only when the clobbered bits differ",
  [I], [("RAM_UPDATE::eval_plain", I)], hook_needed="cfg-guarded include of external contracts")
p("C07", "Plain next-program-counter computation matches the ISA",
  "For every branch, jump and sequential instruction the plain evaluator gives the ISA's next program counter for all operand, immediate and program-counter values: signed and unsigned comparisons are told apart, an untaken branch continues with the next instruction, an indirect jump clears the lowest bit, and arithmetic wraps modulo 2^32.",
  ["inputs"], "all 32-bit operand, immediate and pc values for all nine operations", "comparisons differ only on sign-boundary operands; wrap-around only at the ends of the range",
  [I], [("PC_UPDATE::eval_plain", I)], hook_needed="cfg-guarded include of external contracts")
T = "compiler/src/interpreter/testvm.rs"
p("C08", "One step of the cleartext VM is one RV32IM instruction",
  "From any state, one step of the cleartext VM on any RV32IM computational, jump or branch instruction writes exactly the destination register with the ISA's value, keeps register zero at zero and every other register, memory byte and the program unchanged, and moves the program counter as the ISA says (for word-aligned targets). Running for n cycles performs exactly n such steps.",
  ["inputs", "programs"], "all instruction words of these classes, all register contents and program counters", "the cleartext VM is the oracle for guest programs and has no unit tests of its own; a decode or operand slip shows only for particular encodings or values",
  [T], [("TestVM::run / decode_inst / execute", T)], hook_needed="cfg-guarded include of external contracts")
p("C09", "Cleartext VM loads and stores are little-endian and touch nothing else",
  "From any state, a naturally aligned load or store of the cleartext VM reads or writes exactly the addressed bytes in little-endian order, with sign or zero extension as the ISA says; a store changes no register and no other memory byte, and a load changes no memory and no register but its destination. Addresses wrap at the RAM size.",
  ["inputs", "histories"], "all load/store words, register contents, RAM contents and RAM base addresses", "aliasing and frame faults show only for particular addresses and contents",
  [T], [("TestVM::run loads/stores, Memory::read_*/write_*", T)], hook_needed="cfg-guarded include of external contracts")
p("C10", "The plain reference interpreter executes one RV32I instruction per cycle",
  "The plain reference interpreter that debug runs compare against performs, in one cycle and from any state, exactly the ISA's effect of the fetched RV32I instruction on registers, memory and program counter, with register zero fixed at zero, data addresses relative to the RAM base and wrapping at the RAM size, and every other register and word unchanged.",
  ["inputs", "programs"], "all RV32I words, register files, memory contents, program counters", "it is the oracle of the encrypted tests; an error in it hides the same error in the encrypted path",
  ["fhevm/src/debug.rs"], [("InterpreterDebug::read_*/update_*", "fhevm/src/debug.rs")], hook_needed="cfg-guarded include of external contracts")
p("C11", "The encrypted next program counter equals the ISA's",
  "For every encrypted operand pair, program counter, operation selector and immediate representable in 20 bits with sign, evaluating the encrypted program-counter update and decrypting gives exactly the ISA's next program counter for the selected branch, jump or sequential operation, whatever the number of threads.",
  ["inputs", "configurations"], "all operand words, program counters, 20-bit immediates, the nine operation selectors", "the circuit has thousands of nodes; tests sample a few random operands per operation",
  ["fhevm/src/pc_update.rs", "fhevm/src/codegen/codegen_pc_update.rs"], [("update_pc", "fhevm/src/pc_update.rs"), ("pc update circuit", "fhevm/src/codegen/codegen_pc_update.rs")], hook_needed="cfg-guarded include of external contracts")
p("C12", "The encrypted data address equals base register plus immediate minus RAM base",
  "For every encrypted base-register value and immediate, the encrypted address computation decrypts to their sum minus the RAM base address, modulo 2^32, whatever the number of threads.",
  ["inputs", "configurations"], "all pairs of 32-bit words", "carry chains fail only for particular operand bits; tests draw a handful",
  ["fhevm/src/ram_offset.rs", "fhevm/src/codegen/codegen_ram_offset.rs"], [("ram_offset", "fhevm/src/ram_offset.rs"), ("ram offset circuit", "fhevm/src/codegen/codegen_ram_offset.rs")], hook_needed="cfg-guarded include of external contracts")
p("C13", "Encrypted RV32I results decrypt to the ISA's values",
  "For every RV32I operation that writes a register, evaluating it on encrypted operands, immediate, program counter and loaded word, and decrypting, gives the value the ISA defines for those plaintexts, whatever the number of threads.",
  ["inputs", "configurations"], "all 32-bit plaintext operands for all 28 operations", "each encrypted evaluation is slow, so tests sample a few operands; each result bit is its own circuit",
  ["fhevm/src/rd_update.rs", "fhevm/src/codegen/codegen_auipc.rs", "fhevm/src/codegen/codegen_jalr.rs", "fhevm/src/codegen/codegen_lui.rs"], [("RD_UPDATE::eval_enc", "fhevm/src/rd_update.rs")], hook_needed="cfg-guarded include of external contracts")
p("C14", "Encrypted stores merge exactly the addressed bytes into the word",
  "For every encrypted source, memory word and byte offset aligned to the access, the encrypted store evaluation decrypts to the memory word with exactly the addressed byte, half-word or word replaced by the low bits of the source; with no store the word is unchanged.",
  ["inputs"], "all source and memory words, all aligned offsets, all store operations", "tests use a few random words; an offset handled wrongly shows only at that offset",
  ["fhevm/src/ram_update.rs"], [("RAM_UPDATE::eval_enc", "fhevm/src/ram_update.rs")], hook_needed="cfg-guarded include of external contracts")
p("C15", "Encrypted memory reads and writes hit exactly the addressed word",
  "Reading an encrypted memory at any encrypted address in range returns the word last written there; a read-modify-write cycle at an address replaces exactly that word and restores every other word, clearing a word clears exactly that word, and this holds after any sequence of such accesses, for any memory size and thread count.",
  ["histories", "inputs", "configurations"], "all addresses, contents, memory sizes, access sequences and thread counts", "tests visit a few addresses and one size; a rotation or tree-index slip corrupts only some other words",
  ["fhevm/src/memory.rs"], [("Memory::read_stateless/read_statefull/read_statefull_rev/write/zero", "fhevm/src/memory.rs")], hook_needed="cfg-guarded include of external contracts")
p("C16", "Preparing encrypted words for selection is correct for any thread count",
  "Preparing any list of encrypted words, each for any requested number of low bits, makes every requested bit of every word available as the selector of exactly that bit and marks the rest as zero, independent of how the work is divided among threads.",
  ["schedules", "configurations", "inputs"], "all word lists, bit counts 1..32 and thread counts", "work-splitting errors show only for particular combinations of counts and threads",
  ["fhevm/src/prepare.rs"], [("prepare_multiple_fheuint", "fhevm/src/prepare.rs")], hook_needed="cfg-guarded include of external contracts")
p("C17", "One encrypted cycle is one RV32I instruction on the decrypted state",
  "From any encrypted machine state, one encrypted cycle on any loaded RV32I instruction produces a state whose decryption (registers, memory, program counter) is exactly the ISA's successor of the decrypted state before it: only the destination register and, for stores, only the addressed memory bytes change, register zero stays zero, and the result does not depend on the number of threads.",
  ["histories", "programs", "inputs", "configurations"], "every instruction at every program position, all register and memory contents, any number of earlier cycles, any thread count", "this is the system's purpose; an encrypted cycle takes seconds, so tests run a few short programs and cannot cover instruction/state combinations or later cycles",
  ["fhevm/src/interpreter.rs", "fhevm/src/memory.rs", "fhevm/src/prepare.rs", "fhevm/src/rd_update.rs", "fhevm/src/ram_update.rs", "fhevm/src/pc_update.rs"], [("Interpreter::cycle", "fhevm/src/interpreter.rs")], hook_needed="cfg-guarded include of external contracts")
p("C18", "Encrypting and decrypting machine state is lossless",
  "Whatever registers, memory words, program-counter value and program are loaded into the encrypted machine, decrypting returns exactly the same registers, memory words and program counter, each at its own position, for every size of memory and program.",
  ["inputs", "configurations"], "all contents and all memory sizes up to the 4 KB RAM and beyond one polynomial", "tests load one size of random data",
  ["fhevm/src/interpreter.rs", "fhevm/src/memory.rs"], [("Interpreter::*_encrypt_sk / *_decrypt", "fhevm/src/interpreter.rs"), ("Memory::encrypt_sk/decrypt", "fhevm/src/memory.rs")], hook_needed="cfg-guarded include of external contracts")
p("C19", "The boot image is exactly what the ELF file says",
  "Loading an ELF program puts every byte of the executable segment at its address in program memory and every file-backed byte of each readable or writable data segment at its address relative to the RAM base, with zero everywhere else (including the part of a segment not backed by the file), and takes the input and output areas from their sections.",
  ["programs", "configurations"], "all ELF files with one executable segment and data segments within the 4 KB RAM", "there are no loader tests; layout errors show only for particular segment combinations",
  ["compiler/src/interpreter.rs"], [("Phantom::from_elf", "compiler/src/interpreter.rs")])
p("C20", "Input and output tapes map exactly to their memory areas",
  "Supplying an input tape writes its bytes to the input area and changes no other byte of memory, a tape of the wrong length is refused, and the output tape is exactly the bytes of the output area, in order, at the end of execution; the cleartext VM and the encrypted VM agree on this.",
  ["inputs", "configurations"], "all placements and lengths of the areas and all contents", "guest examples use one layout each",
  [T, "compiler/src/interpreter.rs"], [("TestVM::read_input_tape/output_tape", T), ("Phantom::encrypted_vm, EncryptedVM::output_tape", "compiler/src/interpreter.rs")], hook_needed="cfg-guarded include of external contracts")
p("C21", "Guest heap allocations are aligned, disjoint and clear of data and stack",
  "Every block the guest allocator returns is aligned as requested, lies above the program's static data, overlaps no block returned earlier (whether or not freed), and ends at least 256 bytes below the stack pointer; a request that cannot be met this way is refused with an abort, and one that can is granted.",
  ["histories", "inputs"], "all sequences of sizes, alignments, frees and stack positions", "the allocator only runs inside guest programs and is not tested",
  ["runtime/src/alloc.rs", "runtime/src/lib.rs"], [("sys_alloc_aligned", "runtime/src/alloc.rs"), ("Heap: GlobalAlloc", "runtime/src/lib.rs")])
p("C22", "Ciphertext noise stays below the decryption threshold over any execution",
  "However many cycles are executed, the noise of every register, memory and program-counter ciphertext stays below the bound at which decryption would return a wrong bit, because each cycle refreshes what it writes.",
  ["histories", "configurations"], "any number of cycles of any program under the shipped parameters", "failures are rare probabilistic events that grow with the cycle count",
  ["fhevm/src/parameters.rs", "fhevm/src/interpreter.rs"], [("circuit bootstrapping after each cycle", "fhevm/src/prepare.rs"), ("parameter set", "fhevm/src/parameters.rs")])
p("C23", "Keys and encryption randomness are fresh and secret",
  "Two machines set up independently use independent secret keys and encryption randomness, and nothing given to the evaluating server reveals plaintext data, instructions or keys.",
  ["histories", "inputs"], "all set-ups and all program and input data", "secrecy is a property of distributions, not of any single run",
  ["compiler/src/interpreter.rs", "fhevm/src/keys.rs"], [("key and ciphertext generation", "compiler/src/interpreter.rs")])
pathlib.Path(__file__).with_name("properties.jsonl").write_text("".join(json.dumps(x) + "\n" for x in P))
