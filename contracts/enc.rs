// Contract drivers for the encrypted half of the fhevm crate (`fhevm::verif::enc`).
//
// Each driver calls one function of the crate on inputs named by words and records its outputs.
// * cfg(phantom_sym): the poulpy primitives are replaced by their contracts over a symbolic
//   plaintext domain; input words are free variables, so one execution stands for all inputs
//   (the evaluator never sees a plaintext and cannot branch on one).
// * otherwise: the unmodified library; input words come from `vals` (replay of a counterexample).
#[allow(unused_imports)]
use crate::{
    instructions::*, interpreter::Interpreter, keys::{VMKeys, VMKeysPrepared}, memory::{self, Memory},
    parameters::CryptographicParameters, pc_update::update_pc, prepare::PrepareMultiple,
    ram_offset::ram_offset, ram_update::Store, rd_update::Evaluate,
};
use poulpy_core::layouts::{prepared::GLWESecretPrepared, GGSWInfos, GGSWLayout, GLWELayout, GLWEInfos, GLWESecret, LWEInfos, LWESecret};
use poulpy_cpu_ref::FFT64Ref;
use poulpy_hal::{api::{ScratchOwnedAlloc, ScratchOwnedBorrow}, layouts::{Module, ScratchOwned}, source::Source};
use poulpy_schemes::bin_fhe::{bdd_arithmetic::{FheUint, FheUintPrepared, UnsignedInteger}, blind_rotation::CGGI};
use std::collections::HashMap;
use super::trace;

pub type BE = FFT64Ref;
pub type U = FheUint<Vec<u8>, u32>;
pub type P = FheUintPrepared<Vec<u8>, u32, BE>;

#[derive(Clone, Debug)]
pub enum Out { Sym(Vec<i64>), Val(u32) }

pub struct Ctx {
    pub params: CryptographicParameters<BE>,
    pub sk: GLWESecretPrepared<Vec<u8>, BE>,
    pub keys: VMKeysPrepared<Vec<u8>, CGGI, BE>,
    pub scratch: ScratchOwned<BE>,
    pub xa: Source,
    pub xe: Source,
    pub vals: HashMap<String, u32>,
    pub out: Vec<(String, Out)>,
    /// postconditions decided in place: how many were examined, and those that failed
    pub checked: usize,
    pub failed: Vec<String>,
}

pub const SCRATCH: usize = 1 << 24;

impl Ctx {
    pub fn new(threads: usize) -> Self {
        let params = CryptographicParameters::<BE>::new();
        let mut xs = Source::new([1u8; 32]);
        let (mut xa, mut xe) = (Source::new([2u8; 32]), Source::new([3u8; 32]));
        let mut sk_glwe: GLWESecret<Vec<u8>> = GLWESecret::alloc(params.n_glwe(), params.rank());
        sk_glwe.fill_ternary_prob(0.5, &mut xs);
        let mut sk_lwe: LWESecret<Vec<u8>> = LWESecret::alloc(params.n_lwe());
        sk_lwe.fill_binary_block(params.lwe_block_size(), &mut xs);
        let mut scratch = ScratchOwned::alloc(SCRATCH * threads);
        let mut sk = GLWESecretPrepared::alloc(params.module(), sk_glwe.rank());
        sk.prepare(params.module(), &sk_glwe);
        let k: VMKeys<Vec<u8>, CGGI> = VMKeys::encrypt_sk(&params, &sk_lwe, &sk_glwe, &mut xa, &mut xe);
        let mut keys = VMKeysPrepared::alloc(&params);
        keys.prepare(params.module(), &k, scratch.borrow());
        Ctx { params, sk, keys, scratch, xa, xe, vals: HashMap::new(), out: vec![], checked: 0, failed: vec![] }
    }
    pub fn scratch_for(&mut self, threads: usize) { self.scratch = ScratchOwned::alloc(SCRATCH * threads); }
    pub fn expect(&mut self, ok: bool, what: impl FnOnce() -> String) {
        self.checked += 1;
        if !ok && self.failed.len() < 40 { self.failed.push(what()) }
    }
    pub fn val(&self, name: &str) -> u32 { *self.vals.get(name).unwrap_or(&0) }
    /// scratch memory holds arbitrary bytes on entry to the function under contract
    pub fn poison(&mut self) {
        #[cfg(phantom_sym)]
        poulpy_hal::sym::poison_bytes(self.scratch.borrow().data.as_mut());
    }
    pub fn word_alloc(&self) -> U {
        #[allow(unused_mut)]
        let mut u = FheUint::alloc_from_infos(&self.params.fhe_uint_infos());
        u
    }
    /// a previously used destination: arbitrary contents
    pub fn dirty(&self) -> U {
        #[allow(unused_mut)]
        let mut u = self.word_alloc();
        #[cfg(phantom_sym)]
        {
            use poulpy_core::layouts::GLWEToMut;
            use poulpy_hal::layouts::ZnxViewMut;
            for c in u.to_mut().data_mut().at_mut(0, 0) { *c = poulpy_hal::sym::POISON }
        }
        u
    }
    /// encryption of the public constant v
    pub fn cword(&mut self, v: u32) -> U {
        let mut u = self.word_alloc();
        u.encrypt_sk(self.params.module(), v, &self.sk, &mut self.xa, &mut self.xe, self.scratch.borrow());
        u
    }
    /// encryption of an arbitrary word of `bits` significant bits
    pub fn word(&mut self, name: &str, bits: usize) -> U {
        #[cfg(phantom_sym)]
        {
            let hs: Vec<i64> = (0..32).map(|i| if i < bits { var(name, i) } else { 0 }).collect();
            let mut u = self.word_alloc();
            put(&mut u, &hs);
            u
        }
        #[cfg(not(phantom_sym))]
        {
            let v = (self.val(name) as u64 & ((1u64 << bits) - 1)) as u32;
            self.cword(v)
        }
    }
    pub fn prepared_alloc(&self) -> P { FheUintPrepared::alloc_from_infos(self.params.module(), &self.params.fhe_uint_prepared_infos()) }
    pub fn cprep(&mut self, v: u32) -> P {
        let mut p = self.prepared_alloc();
        p.encrypt_sk(self.params.module(), v, &self.sk, &mut self.xa, &mut self.xe, self.scratch.borrow());
        p
    }
    pub fn prep(&mut self, name: &str, bits: usize) -> P {
        #[cfg(phantom_sym)]
        {
            let u = self.word(name, bits);
            let mut p = self.prepared_alloc();
            p.prepare(self.params.module(), &u, &self.keys, self.scratch.borrow());
            p
        }
        #[cfg(not(phantom_sym))]
        {
            let v = (self.val(name) as u64 & ((1u64 << bits) - 1)) as u32;
            self.cprep(v)
        }
    }
    pub fn result(&mut self, name: &str, u: &U) {
        #[cfg(phantom_sym)]
        let o = Out::Sym(take(u));
        #[cfg(not(phantom_sym))]
        let o = Out::Val(u.decrypt(self.params.module(), &self.sk, self.scratch.borrow()));
        self.out.push((name.into(), o));
    }
    pub fn result_prep(&mut self, name: &str, p: &P) {
        #[cfg(phantom_sym)]
        let o = {
            use poulpy_hal::layouts::DataView;
            use poulpy_schemes::bin_fhe::bdd_arithmetic::GetGGSWBit;
            Out::Sym((0..32).map(|i| poulpy_hal::sym::read_handle(GetGGSWBit::get_bit(p, i).data().data())).collect())
        };
        #[cfg(not(phantom_sym))]
        let o = Out::Val(p.decrypt(self.params.module(), &self.sk, &self.keys, self.scratch.borrow()));
        self.out.push((name.into(), o));
    }
    /// fills `m` with arbitrary words `name[j]` (0 where `zero(j)`)
    /// `any_pad`: coefficients that hold no word are arbitrary torus elements (otherwise: bits)
    pub fn mem_fill(&mut self, m: &mut Memory, name: &str, zero: impl Fn(usize) -> bool, any_pad: bool) {
        #[cfg(phantom_sym)]
        {
            memory::verif::set(m, |j, i| if zero(j) { 0 } else { var(&format!("{name}[{j}]"), i) },
                |j, i| poulpy_hal::sym::arena().var(&format!("{name}.pad[{j}].{i}"), !any_pad));
        }
        #[cfg(not(phantom_sym))]
        {
            let _ = any_pad;
            let data: Vec<u32> = (0..m.size()).map(|j| if zero(j) { 0 } else { self.val(&format!("{name}[{j}]")) }).collect();
            m.encrypt_sk(self.params.module(), &data, &self.sk, &mut self.xa, &mut self.xe, self.scratch.borrow());
        }
    }
    pub fn result_mem(&mut self, name: &str, m: &Memory) {
        #[cfg(phantom_sym)]
        for j in 0..m.size() { self.out.push((format!("{name}[{j}]"), Out::Sym(memory::verif::get(m, j)))); }
        #[cfg(not(phantom_sym))]
        {
            let mut d = vec![0u32; m.size()];
            m.decrypt(self.params.module(), &mut d, &self.sk, self.scratch.borrow());
            for (j, v) in d.iter().enumerate() { self.out.push((format!("{name}[{j}]"), Out::Val(*v))); }
        }
    }
}

#[cfg(phantom_sym)]
fn var(name: &str, i: usize) -> i64 { poulpy_hal::sym::arena().var(&format!("{name}.{i}"), true) }
#[cfg(phantom_sym)]
fn put(u: &mut U, hs: &[i64]) {
    use poulpy_core::layouts::GLWEToMut;
    use poulpy_hal::layouts::ZnxViewMut;
    let mut g = u.to_mut();
    let c = g.data_mut().at_mut(0, 0);
    let gap = c.len() / 32;
    for (i, h) in hs.iter().enumerate() { c[u32::bit_index(i) * gap] = *h }
}
#[cfg(phantom_sym)]
fn take(u: &U) -> Vec<i64> {
    use poulpy_core::layouts::GLWEToRef;
    use poulpy_hal::layouts::ZnxView;
    let g = u.to_ref();
    let c = g.data().at(0, 0);
    (0..32).map(|i| c[u32::bit_index(i) * (c.len() / 32)]).collect()
}

// ---- drivers: one per function under contract; `arg` selects the case ---------------------------

pub fn pc_update(c: &mut Ctx, threads: usize, id: u32) {
    let (rs1, rs2, pc, imm) = (c.prep("rs1", 32), c.prep("rs2", 32), c.prep("pc", 32), c.prep("imm", 32));
    let op = c.cprep(id);
    let mut res = c.dirty();
    c.poison();
    update_pc(threads, c.params.module(), &mut res, &rs1, &rs2, &pc, &imm, &op, &c.keys, c.scratch.borrow());
    c.result("res", &res);
}
pub fn ram_addr(c: &mut Ctx, threads: usize) {
    let (rs1, imm) = (c.prep("rs1", 32), c.prep("imm", 32));
    let mut res = c.dirty();
    c.poison();
    ram_offset(threads, c.params.module(), &mut res, &rs1, &imm, &c.keys, c.scratch.borrow());
    c.result("res", &res);
}
pub fn rd_eval(c: &mut Ctx, threads: usize, op: RD_UPDATE) {
    let (rs1, rs2, imm, pc) = (c.prep("rs1", 32), c.prep("rs2", 32), c.prep("imm", 32), c.prep("pc", 32));
    let ram = c.word("ram", 32);
    // the caller hands in a fresh (zero) destination
    let mut res = c.word_alloc();
    c.poison();
    op.eval_enc(threads, c.params.module(), &mut res, &rs1, &rs2, &imm, &pc, &ram, &c.keys, c.scratch.borrow());
    c.result("res", &res);
}
pub fn ram_eval(c: &mut Ctx, threads: usize, op: RAM_UPDATE) {
    let (rs2, loaded) = (c.word("rs2", 32), c.word("loaded", 32));
    let off = c.prep("off", 32);
    let mut res = c.word_alloc();
    c.poison();
    op.eval_enc(threads, c.params.module(), &mut res, &rs2, &loaded, &off, &c.keys, c.scratch.borrow());
    c.result("res", &res);
}

/// A sequence of memory operations on a memory of `size` words of `ws` bits, each at its own
/// arbitrary in-range word address held at bit `off` of the address word:
/// r = read_stateless, w = write, s = read_statefull followed by read_statefull_rev.
pub fn mem_seq(c: &mut Ctx, t: usize, ops: &str, size: usize, ws: usize, off: usize) {
    let abits = (usize::BITS - (size - 1).leading_zeros()) as usize;
    let mut m = Memory::alloc(&c.params.ram_infos(), ws, size);
    c.mem_fill(&mut m, "m", |_| false, true);
    let mut got: Vec<Option<U>> = vec![];
    for (k, o) in ops.chars().enumerate() {
        let a = c.prep(&format!("a{k}"), off + abits);
        let w = c.word(&format!("w{k}"), ws);
        let mut res = c.dirty();
        c.poison();
        let (md, ks) = (c.params.module(), &c.keys);
        match o {
            'r' => m.read_stateless(t, md, &mut res, &a, off, ks, c.scratch.borrow()),
            'w' => m.write(t, md, &w, &a, off, ks, c.scratch.borrow()),
            's' => {
                m.read_statefull(t, md, &mut res, &a, off, ks, c.scratch.borrow());
                #[cfg(phantom_sym)]
                poulpy_hal::sym::poison_bytes(c.scratch.borrow().data.as_mut());
                m.read_statefull_rev(t, md, &w, &a, off, ks, c.scratch.borrow());
            }
            _ => unreachable!(),
        }
        got.push(if o == 'w' { None } else { Some(res) });
    }
    // postcondition, by case analysis over the addresses
    #[cfg(phantom_sym)]
    {
        let k = ops.len();
        let mut roots: Vec<i64> = vec![];
        for g in got.iter().flatten() { roots.extend(&take(g)[..ws]) }
        for j in 0..size { roots.extend(memory::verif::get(&m, j)) }
        let av: Vec<Vec<i64>> = (0..k).map(|q| (0..abits).map(|i| var(&format!("a{q}"), off + i)).collect()).collect();
        let mv: Vec<Vec<i64>> = (0..size).map(|j| (0..ws).map(|i| var(&format!("m[{j}]"), i)).collect()).collect();
        let wv: Vec<Vec<i64>> = (0..k).map(|q| (0..ws).map(|i| var(&format!("w{q}"), i)).collect()).collect();
        let mut memo = vec![];
        for case in 0..size.pow(k as u32) {
            let addr: Vec<usize> = (0..k).map(|q| case / size.pow(q as u32) % size).collect();
            let env: Vec<(i64, bool)> = (0..k).flat_map(|q| (0..abits).map(move |i| (q, i))).map(|(q, i)| (av[q][i], addr[q] >> i & 1 == 1)).collect();
            let r = poulpy_hal::sym::arena().substitute(&roots, &env, &mut memo);
            let mut st = mv.clone();
            let mut p = 0;
            for (q, o) in ops.chars().enumerate() {
                if o != 'w' {
                    let (h, e) = (&r[p..p + ws], &st[addr[q]]);
                    c.expect(h == &e[..], || format!("operation {q} ({o}) addresses {addr:?}: value read is not the word at the address"));
                    p += ws;
                }
                if o != 'r' { st[addr[q]] = wv[q].clone() }
            }
            for j in 0..size {
                let h = &r[p + j * ws..p + (j + 1) * ws];
                c.expect(h == &st[j][..], || format!("addresses {addr:?}: word {j} of the memory after the operations"));
            }
        }
    }
    #[cfg(not(phantom_sym))]
    {
        let mask = ((1u64 << ws) - 1) as u32;
        let mut st: Vec<u32> = (0..size).map(|j| c.val(&format!("m[{j}]")) & mask).collect();
        for (q, o) in ops.chars().enumerate() {
            let a = (c.val(&format!("a{q}")) as usize >> off) & ((1 << abits) - 1);
            if let Some(u) = &got[q] {
                let v = u.decrypt(c.params.module(), &c.sk, c.scratch.borrow()) & mask;
                c.expect(v == st[a], || format!("operation {q} ({o}) at word address {a}: read {v:#x}, word is {:#x}", st[a]));
            }
            if o != 'r' { st[a] = c.val(&format!("w{q}")) & mask }
        }
        let mut d = vec![0u32; size];
        m.decrypt(c.params.module(), &mut d, &c.sk, c.scratch.borrow());
        for j in 0..size { c.expect(d[j] == st[j], || format!("word {j} after the operations: {:#x}, want {:#x}", d[j], st[j])) }
    }
}

/// zero(addr) for every address: clears that word and no other
pub fn mem_zero(c: &mut Ctx, t: usize, size: usize, ws: usize, only: Option<usize>) {
    for a in 0..size {
        if only.is_some_and(|o| o != a) { continue }
        let mut m = Memory::alloc(&c.params.ram_infos(), ws, size);
        c.mem_fill(&mut m, "m", |_| false, true);
        c.poison();
        m.zero(t, c.params.module(), a, &c.keys, c.scratch.borrow());
        #[cfg(phantom_sym)]
        for j in 0..size {
            let h = memory::verif::get(&m, j);
            let want: Vec<i64> = (0..ws).map(|i| if j == a { 0 } else { var(&format!("m[{j}]"), i) }).collect();
            c.expect(h == want, || format!("zero({a}): word {j}"));
        }
        #[cfg(not(phantom_sym))]
        {
            let mask = ((1u64 << ws) - 1) as u32;
            let mut d = vec![0u32; size];
            m.decrypt(c.params.module(), &mut d, &c.sk, c.scratch.borrow());
            for j in 0..size {
                let want = if j == a { 0 } else { c.val(&format!("m[{j}]")) & mask };
                c.expect(d[j] == want, || format!("zero({a}): word {j} is {:#x}, want {want:#x}", d[j]));
            }
        }
    }
}

/// bit_counts: numbers of low bits to refresh, one per word
pub fn prepare_multi(c: &mut Ctx, t: usize, counts: &[usize]) {
    let us: Vec<U> = (0..counts.len()).map(|k| c.word(&format!("u{k}"), 32)).collect();
    // destinations hold earlier values
    let mut ps: Vec<P> = (0..counts.len()).map(|_| c.cprep(0xFFFF_FFFF)).collect();
    c.poison();
    {
        let mut rs: Vec<&mut P> = ps.iter_mut().collect();
        c.params.module().prepare_multiple_fheuint(t, &mut rs, us.iter().collect(), counts.to_vec(), &c.keys, c.scratch.borrow());
    }
    for (k, p) in ps.iter().enumerate() { c.result_prep(&format!("p{k}"), p) }
}

fn opid(op: &str) -> (u32, u32, u32) {
    if op == "ECALL" { return tri(0x73) }
    for opc in [0x37u32, 0x17, 0x6F, 0x67, 0x63, 0x03, 0x23, 0x13, 0x33] { for f3 in 0..8u32 { for f7 in [0u32, 0x20] {
        let w = opc | f3 << 12 | f7 << 25;
        if super::spec::decode(w).is_some_and(|d| format!("{:?}", d.op) == op) { return tri(w) }
    } } }
    panic!("SYM-UNSUPPORTED: no encoding of {op}")
}
fn tri(w: u32) -> (u32, u32, u32) { let (a, b, d) = Instruction::new(w).get_opid(); (a.id(), b.id(), d.id()) }

/// how a register index of the instruction is given
fn idx(s: &str) -> Option<u32> { s.parse().ok() }

/// One cycle of the interpreter from an arbitrary state: registers (x0 = 0), memory, pc and immediate
/// are free; the operation is fixed. `at`: program counter / 4, or "s" (free). `ri`: rs1,rs2,rd or "s".
pub fn cycle(c: &mut Ctx, t: usize, op: &str, rom: usize, ram: usize, at: &str, ri: [&str; 3], first: bool) {
    let mut vm: Interpreter<BE> = Interpreter::new(&c.params, rom, ram);
    vm.set_threads(t);
    let (rdu, mu, pcu) = opid(op);
    // every slot holds this operation, each with operands of its own
    let rep = |v: u32| vec![v; rom];
    let ks: [(u32, u8); 3] = [(rdu, 0), (mu, 1), (pcu, 2)];
    for (v, w) in ks {
        let m = match w { 0 => &mut vm.rdu_rom, 1 => &mut vm.mu_rom, _ => &mut vm.pcu_rom };
        m.encrypt_sk(c.params.module(), &rep(v), &c.sk, &mut c.xa, &mut c.xe, c.scratch.borrow());
    }
    for (k, name) in ["rs1i", "rs2i", "rdi"].iter().enumerate() {
        let m = match k { 0 => &mut vm.rs1_rom, 1 => &mut vm.rs2_rom, _ => &mut vm.rd_rom };
        match idx(ri[k]) {
            Some(v) => m.encrypt_sk(c.params.module(), &rep(v), &c.sk, &mut c.xa, &mut c.xe, c.scratch.borrow()),
            None => {
                #[cfg(phantom_sym)]
                memory::verif::set(m, |j, i| if i < 5 { var(&format!("{name}[{j}]"), i) } else { 0 }, |_, _| 0);
                #[cfg(not(phantom_sym))]
                { let d: Vec<u32> = (0..rom).map(|j| c.val(&format!("{name}[{j}]")) & 31).collect();
                  m.encrypt_sk(c.params.module(), &d, &c.sk, &mut c.xa, &mut c.xe, c.scratch.borrow()) }
            }
        }
    }
    c.mem_fill(&mut vm.imm_rom, "imm", |_| false, false);
    if !first {
        // an earlier cycle leaves its values in every intermediate register of the evaluator
        c.mem_fill(&mut vm.registers, "old", |j| j == 0, false);
        c.mem_fill(&mut vm.ram, "oldram", |_| false, false);
        c.poison();
        vm.cycle(c.params.module(), &c.keys, c.scratch.borrow());
    }
    c.mem_fill(&mut vm.registers, "x", |j| j == 0, false);
    c.mem_fill(&mut vm.ram, "ram", |_| false, false);
    if !first {
        let pcbits = (usize::BITS - (rom - 1).leading_zeros()) as usize;
        vm.pc_fhe_uint = match idx(at) {
            Some(v) => c.cword(v * 4),
            None => {
                #[cfg(phantom_sym)]
                { let mut u = c.word_alloc();
                  let hs: Vec<i64> = (0..32).map(|i| if i >= 2 && i < 2 + pcbits { var("pc", i) } else { 0 }).collect();
                  put(&mut u, &hs); u }
                #[cfg(not(phantom_sym))]
                { let v = c.val("pc") & (((1 << pcbits) - 1) << 2); c.cword(v) }
            }
        };
    }
    c.poison();
    vm.cycle(c.params.module(), &c.keys, c.scratch.borrow());
    let pc = std::mem::replace(&mut vm.pc_fhe_uint, c.word_alloc());
    c.result("pc", &pc);
    let r = std::mem::replace(&mut vm.registers, Memory::alloc(&c.params.ram_infos(), 32, 32));
    c.result_mem("x", &r);
    let r = std::mem::replace(&mut vm.ram, Memory::alloc(&c.params.ram_infos(), 32, ram));
    c.result_mem("ram", &r);
}

/// contents that tell every (word, bit) position apart: the bits of its own number, their complements, and random words
fn pattern(k: usize, j: usize, words: usize) -> u32 {
    let nb = (usize::BITS - (words * 32 - 1).leading_zeros()) as usize;
    let code = |b: usize| (0..32).fold(0u32, |a, i| a | (((j * 32 + i) >> b & 1) as u32) << i);
    if k < nb { code(k) } else if k < 2 * nb { !code(k - nb) } else if k == 2 * nb { 0xFFFF_FFFF } else if k == 2 * nb + 1 { 0 } else {
        let mut z = ((k as u64) << 32 | j as u64).wrapping_add(0x9E37_79B9_7F4A_7C15);
        z = (z ^ z >> 30).wrapping_mul(0xBF58_476D_1CE4_E5B9);
        z = (z ^ z >> 27).wrapping_mul(0x94D0_49BB_1331_11EB);
        (z ^ z >> 31) as u32
    }
}

/// Loading registers, memory and program and decrypting them again; `fill`: words given, of `ram`.
pub fn state(c: &mut Ctx, t: usize, rom: usize, ram: usize, fill: usize, prog: usize, only: Option<usize>, debug: bool) {
    let mut words: Vec<u32> = vec![];
    for k in 0.. {
        if words.len() >= prog { break }
        let mut w = pattern(2 * 20 + 2 + k % 7, k, 1 << 10);
        const OPC: [u32; 10] = [0x37, 0x17, 0x6F, 0x67, 0x63, 0x03, 0x23, 0x13, 0x33, 0x73];
        w = w & !0x7F | OPC[k % 10];
        if k % 10 == 8 || k % 10 == 7 { w &= 0x41FF_FFFF }
        if k % 10 == 9 { w = 0x73 }
        if super::spec::decode(w).is_some() || w == 0x73 { words.push(w) }
    }
    let mut parser = InstructionsParser::new();
    for w in &words { parser.add(Instruction::new(*w)) }
    let mut vm: Interpreter<BE> = if debug { Interpreter::new_with_debug(&c.params, rom, ram) } else { Interpreter::new(&c.params, rom, ram) };
    vm.set_threads(t);
    let pc = vm.pc_fhe_uint.decrypt(c.params.module(), &c.sk, c.scratch.borrow());
    c.expect(pc == 0, || format!("program counter of a new machine decrypts to {pc}"));
    let nb = (usize::BITS - (ram.max(32) * 32 - 1).leading_zeros()) as usize;
    for k in 0..2 * nb + 6 {
        if only.is_some_and(|o| o != k) { continue }
        let regs: Vec<u32> = (0..32).map(|j| pattern(k, (j * 7 + 3) % 32, 32.max(ram))).collect();
        let data: Vec<u32> = (0..fill).map(|j| pattern(k, j, 32.max(ram))).collect();
        let (md, sk) = (c.params.module(), &c.sk);
        #[cfg(phantom_sym)]
        poulpy_hal::sym::poison_bytes(c.scratch.borrow().data.as_mut());
        if k % 2 == 0 { vm.init_registers(md, &regs, sk, &mut c.xa, &mut c.xe, c.scratch.borrow()) }
        vm.ram_encrypt_sk(md, &data, sk, &mut c.xa, &mut c.xe, c.scratch.borrow());
        if k % 2 == 1 { vm.init_registers(md, &regs, sk, &mut c.xa, &mut c.xe, c.scratch.borrow()) }
        if k < 2 || only.is_some() { vm.instructions_encrypt_sk(md, &parser, sk, &mut c.xa, &mut c.xe, c.scratch.borrow()) }
        #[cfg(phantom_sym)]
        poulpy_hal::sym::poison_bytes(c.scratch.borrow().data.as_mut());
        let mut d = vec![0xA5A5_5A5Au32; ram];
        vm.ram_decrypt(c.params.module(), &mut d, &c.sk, c.scratch.borrow());
        for j in 0..ram {
            let want = if j < fill { data[j] } else { 0 };
            c.expect(d[j] == want, || format!("pattern {k}: memory word {j} decrypts to {:#x}, was {want:#x}", d[j]));
        }
        let mut r = vec![0xA5A5_5A5Au32; 32];
        vm.registers.decrypt(c.params.module(), &mut r, &c.sk, c.scratch.borrow());
        for j in 0..32 { c.expect(r[j] == regs[j], || format!("pattern {k}: register {j} decrypts to {:#x}, was {:#x}", r[j], regs[j])) }
        #[cfg(phantom_sym)]
        for (m, n, v) in [(&vm.ram, "memory", &data), (&vm.registers, "registers", &regs)] {
            for j in 0..v.len() {
                let h = memory::verif::get(m, j);
                let ok = (0..32).all(|i| h[i] == poulpy_hal::sym::encode((v[j] >> i & 1) as i64, 2));
                c.expect(ok, || format!("pattern {k}: {n} word {j} is not held where the machine reads it"));
            }
        }
        if k < 2 || only.is_some() {
            for (f, m) in [&vm.imm_rom, &vm.rs1_rom, &vm.rs2_rom, &vm.rd_rom, &vm.rdu_rom, &vm.mu_rom, &vm.pcu_rom].iter().enumerate() {
                let mut d = vec![0x5A5A_A5A5u32; rom];
                m.decrypt(c.params.module(), &mut d, &c.sk, c.scratch.borrow());
                for j in 0..rom {
                    let want = if j < prog {
                        let i = Instruction::new(words[j]);
                        let ((rs2, rs1, rd), (a, b, e)) = (i.get_registers(), i.get_opid());
                        [i.get_imm() as u32, rs1 as u32, rs2 as u32, rd as u32, a.id(), b.id(), e.id()][f]
                    } else { 0 };
                    c.checked += 1;
                    if d[j] != want && c.failed.len() < 40 {
                        c.failed.push(format!("pattern {k}: instruction {j} ({:#010x}): {} decrypts to {:#x}, want {want:#x}",
                            words.get(j).unwrap_or(&0), ["imm", "rs1", "rs2", "rd", "rd operation", "ram operation", "pc operation"][f], d[j]));
                    }
                }
            }
        }
    }
}

/// A random program run from the first cycle on; after every cycle the decrypted state is the ISA's.
pub fn history(c: &mut Ctx, t: usize, seed: u64, rom: usize, ram: usize, cycles: usize, upto: Option<usize>) {
    let g = trace::run(seed, &trace::Conf { rom, ram, cycles, base: 0x40000, mul: false, subword: false, ecall: true, boot: false });
    let mut parser = InstructionsParser::new();
    for w in &g.prog { parser.add(Instruction::new(*w)) }
    let mut vm: Interpreter<BE> = Interpreter::new(&c.params, rom, ram);
    vm.set_threads(t);
    let (md, sk) = (c.params.module(), &c.sk);
    vm.instructions_encrypt_sk(md, &parser, sk, &mut c.xa, &mut c.xe, c.scratch.borrow());
    vm.init_registers(md, &g.x0, sk, &mut c.xa, &mut c.xe, c.scratch.borrow());
    vm.ram_encrypt_sk(md, &g.m0, sk, &mut c.xa, &mut c.xe, c.scratch.borrow());
    let mut m = g.m0.clone();
    for (k, trace::Step { w, pc, x, wr }) in g.steps.iter().enumerate() {
        if let Some((j, v)) = wr { m[*j] = *v }
        if upto.is_some_and(|u| k > u) { break }
        vm.cycle(c.params.module(), &c.keys, c.scratch.borrow());
        #[cfg(not(phantom_sym))]
        if upto.is_some_and(|u| k < u) { continue }
        let what = format!("cycle {k} of random program {seed}, instruction {w:#010x}");
        let v = vm.pc_fhe_uint.decrypt(c.params.module(), &c.sk, c.scratch.borrow());
        c.expect(v == *pc, || format!("{what}: next pc {v:#x}, want {pc:#x}"));
        let mut r = vec![0u32; 32];
        vm.registers.decrypt(c.params.module(), &mut r, &c.sk, c.scratch.borrow());
        for j in 0..32 { c.expect(r[j] == x[j], || format!("{what}: x{j} is {:#x}, want {:#x}", r[j], x[j])) }
        let mut d = vec![0u32; ram];
        vm.ram_decrypt(c.params.module(), &mut d, &c.sk, c.scratch.borrow());
        for j in 0..ram { c.expect(d[j] == m[j], || format!("{what}: memory word {j} is {:#x}, want {:#x}", d[j], m[j])) }
        if !c.failed.is_empty() { break }
    }
}

fn rd_by_name(n: &str) -> RD_UPDATE {
    *RD_UPDATE_RV32I_OP_LIST.iter().find(|o| super::rd_op(**o).map(|o| format!("{o:?}")).unwrap_or("NONE".into()) == n).unwrap_or_else(|| panic!("SYM-UNSUPPORTED: no rd operation {n}"))
}
fn ram_by_name(n: &str) -> RAM_UPDATE {
    *RAM_UPDATE_OP_LIST.iter().find(|o| super::ram_op(**o).map(|o| format!("{o:?}")).unwrap_or("NONE".into()) == n)
        .unwrap_or_else(|| panic!("SYM-UNSUPPORTED: no ram operation {n}"))
}
fn pc_by_name(n: &str) -> u32 {
    PC_UPDATE_OP_LIST.iter().find(|o| super::pc_op(**o).map(|o| format!("{o:?}")).unwrap_or("NONE".into()) == n)
        .unwrap_or_else(|| panic!("SYM-UNSUPPORTED: no pc operation {n}")).id()
}

/// case = DRIVER:ARG:THREADS[:…]
pub fn run(c: &mut Ctx, case: &str) {
    let a: Vec<&str> = case.split(':').collect();
    let t: usize = a[2].parse().unwrap();
    let n = |i: usize| -> usize { a[i].parse().unwrap() };
    c.scratch_for(t);
    match a[0] {
        "pc" => pc_update(c, t, pc_by_name(a[1])),
        "addr" => ram_addr(c, t),
        "rd" => rd_eval(c, t, rd_by_name(a[1])),
        "ram" => ram_eval(c, t, ram_by_name(a[1])),
        // mem:OPS:THREADS:SIZE:WORDBITS:OFFSET
        "mem" => mem_seq(c, t, a[1], n(3), n(4), n(5)),
        "zero" => { let only = c.vals.get("zero").map(|v| *v as usize); mem_zero(c, t, n(3), n(4), only) }
        "prep" => { let k: Vec<usize> = a[1].split(',').map(|x| x.parse().unwrap()).collect(); prepare_multi(c, t, &k) }
        // cycle:OP:THREADS:ROM:RAM:PC:RS1:RS2:RD[:first]
        "cycle" => cycle(c, t, a[1], n(3), n(4), a[5], [a[6], a[7], a[8]], a.get(9) == Some(&"first")),
        // state:DEBUG:THREADS:ROM:RAM:RAM WORDS GIVEN:INSTRUCTIONS GIVEN
        "state" => { let only = c.vals.get("pattern").map(|v| *v as usize); state(c, t, n(3), n(4), n(5), n(6), only, a[1] == "debug") }
        // hist:SEED:THREADS:ROM:RAM:CYCLES
        "hist" => { let upto = c.vals.get("cycle").map(|v| *v as usize); history(c, t, n(1) as u64, n(3), n(4), n(5), upto) }
        x => panic!("no driver {x}"),
    }
}
