// Contracts on program loading; included inside compiler::interpreter.
#[allow(unused_imports)]
use super::*;
pub use super::testvm::verif as testvm_verif;
include!(concat!(env!("PHANTOM_VERIF_SRC"), "/prelude.rs"));

/// one ELF program header: (type, flags, file offset, vaddr, filesz, memsz)
pub type Ph = (u32, u32, u32, u32, u32, u32);
/// one section: (name offset in the string table, address, size)
pub type Sh = (u32, u32, u32);

fn put(v: &mut Vec<u8>, x: u32, n: usize) { let mut i = 0; while i < n { v.push((x >> (8 * i)) as u8); i += 1; } }

const NAMES: &[u8] = b"\0.inpdata\0.outdata\0.shstrtab\0";

/// A little-endian 32-bit ELF file: header, program headers, `body` at file offset 0x200, string
/// table, section headers. Nothing but the layout is fixed.
pub fn elf_file(phs: &[Ph], body: &[u8], secs: &[Sh]) -> Vec<u8> {
    let mut v: Vec<u8> = Vec::with_capacity(1024);
    let strtab = 0x200 + body.len();
    let shoff = (strtab + NAMES.len() + 3) / 4 * 4;
    put(&mut v, 0x464C_457F, 4);
    put(&mut v, 0x0001_0101, 4); // 32 bit, little endian, version 1
    put(&mut v, 0, 4); put(&mut v, 0, 4);
    put(&mut v, 2, 2); put(&mut v, 243, 2); put(&mut v, 1, 4);
    put(&mut v, 0, 4); put(&mut v, 52, 4); put(&mut v, shoff as u32, 4); put(&mut v, 0, 4);
    put(&mut v, 52, 2); put(&mut v, 32, 2); put(&mut v, phs.len() as u32, 2);
    put(&mut v, 40, 2); put(&mut v, secs.len() as u32 + 2, 2); put(&mut v, secs.len() as u32 + 1, 2);
    for p in phs {
        put(&mut v, p.0, 4); put(&mut v, p.2, 4); put(&mut v, p.3, 4); put(&mut v, p.3, 4);
        put(&mut v, p.4, 4); put(&mut v, p.5, 4); put(&mut v, p.1, 4); put(&mut v, 4, 4);
    }
    while v.len() < 0x200 { v.push(0); }
    for b in body { v.push(*b); }
    for b in NAMES { v.push(*b); }
    while v.len() < shoff { v.push(0); }
    for _ in 0..10 { put(&mut v, 0, 4); }
    for s in secs {
        put(&mut v, s.0, 4); put(&mut v, 1, 4); put(&mut v, 3, 4); put(&mut v, s.1, 4);
        put(&mut v, 0x200, 4); put(&mut v, s.2, 4); put(&mut v, 0, 4); put(&mut v, 0, 4); put(&mut v, 4, 4); put(&mut v, 0, 4);
    }
    put(&mut v, 19, 4); put(&mut v, 3, 4); put(&mut v, 0, 4); put(&mut v, 0, 4);
    put(&mut v, strtab as u32, 4); put(&mut v, NAMES.len() as u32, 4); put(&mut v, 0, 4); put(&mut v, 0, 4); put(&mut v, 1, 4); put(&mut v, 0, 4);
    v
}


/// Bounded checks of program loading and of the encrypted machine's tapes, run natively over
/// enumerated layouts. `only` selects one layout (replay).
#[cfg(not(kani))]
pub mod run {
    use super::*;
    use super::testvm_verif::trace;
    use std::panic::{catch_unwind, AssertUnwindSafe};

    #[derive(Default)]
    pub struct Res { pub checked: usize, pub failed: Vec<String>, pub cases: usize }
    impl Res {
        fn expect(&mut self, ok: bool, what: impl FnOnce() -> String) {
            self.checked += 1;
            if !ok && self.failed.len() < 40 { self.failed.push(what()) }
        }
    }
    pub struct Rng(u64);
    impl Rng {
        pub fn new(seed: u64, k: u64) -> Self { Rng(seed << 32 ^ k.wrapping_mul(0xD134_2543_DE82_EF95) ^ 0x1234_5678_9ABC_DEF1) }
        pub fn next(&mut self) -> u64 {
            self.0 = self.0.wrapping_add(0x9E37_79B9_7F4A_7C15);
            let z = (self.0 ^ self.0 >> 30).wrapping_mul(0xBF58_476D_1CE4_E5B9);
            let z = (z ^ z >> 27).wrapping_mul(0x94D0_49BB_1331_11EB);
            z ^ z >> 31
        }
        pub fn below(&mut self, n: usize) -> usize { (self.next() % n.max(1) as u64) as usize }
        pub fn chance(&mut self, p: usize, of: usize) -> bool { self.below(of) < p }
        fn pick<T: Copy>(&mut self, v: &[T]) -> T { v[self.below(v.len())] }
        fn bytes(&mut self, n: usize) -> Vec<u8> { (0..n).map(|_| (self.below(255) + 1) as u8).collect() }
    }

    /// One ELF layout: an executable segment at 0, data segments in ascending order inside the 4 KB
    /// RAM, decoys that are not loadable; the image loaded must be the one the headers describe.
    fn elf_one(k: u64, seed: u64, r: &mut Res) {
        let mut g = Rng::new(seed, k);
        let text = 4 * if g.chance(1, 12) { 256 + g.below(2000) } else { 1 + g.below(40) };
        let base: u32 = g.pick(&[0x40000, 0x40000, 0x40000, 0x1000, 0x10000, 0x8000_0000, 0x4_0004]);
        // data segments: (address in RAM, file-backed bytes, bytes in memory)
        let nseg = g.below(5);
        let mut segs: Vec<(usize, usize, usize)> = vec![];
        let mut at = 0;
        for q in 0..nseg {
            if q > 0 { at += g.pick(&[0, 0, 1, 2, 3, 4, 12, 100, 700]) }
            let left = 4096usize.saturating_sub(at);
            let mem = match g.below(8) { 0 => 0, 1 => left, 2 => left.min(1 + g.below(3)), 3 => left.min(1024 + g.below(1024)), _ => left.min(g.below(200)) };
            let file = match g.below(4) { 0 => 0, 1 => g.below(mem + 1), _ => mem };
            segs.push((at, file, mem));
            at += mem;
        }
        // file image: the pieces in an arbitrary order, with gaps of other bytes
        let mut body = g.bytes(512);
        let mut pieces: Vec<usize> = (0..nseg + 1).collect();
        for i in (1..pieces.len()).rev() { let j = g.below(i + 1); pieces.swap(i, j) }
        let mut off = vec![0usize; nseg + 1];
        for p in pieces {
            let gap = g.below(9);
            body.extend(g.bytes(gap));
            off[p] = 0x200 + body.len();
            let len = if p == 0 { text } else { segs[p - 1].2.max(segs[p - 1].1) };
            body.extend(g.bytes(len));
        }
        let gap = g.below(5);
        body.extend(g.bytes(gap));
        // program headers: data in order, text anywhere, decoys anywhere
        let mut phs: Vec<Ph> = (0..nseg).map(|q| (1, g.pick(&[4, 6]), off[q + 1] as u32, base.wrapping_add(segs[q].0 as u32), segs[q].1 as u32, segs[q].2 as u32)).collect();
        let pos = if g.chance(2, 3) { 0 } else { g.below(phs.len() + 1) };
        phs.insert(pos, (1, 5, off[0] as u32, 0, text as u32, text as u32));
        for _ in 0..g.below(3) {
            let pos = g.below(phs.len() + 1);
            let ty = g.pick(&[0x6474_E551u32, 6, 4, 7, 0x7000_0003]);
            let fl = g.pick(&[4, 6, 5]);
            let (va, sz) = (g.next() as u32 & 0xFFFF, g.below(64) as u32);
            phs.insert(pos, (ty, fl, 0x200, va, sz, sz));
        }
        let io = |g: &mut Rng| -> (u32, u32) { let a = g.below(4096); let n = g.below(4096 - a + 1).min(if g.chance(1, 2) { 64 } else { 4096 }); (base.wrapping_add(a as u32), n as u32) };
        let (inp, out) = (io(&mut g), io(&mut g));
        let mut secs: Vec<Sh> = vec![(1, inp.0, inp.1), (10, out.0, out.1)];
        if g.chance(1, 2) { secs.swap(0, 1) }
        let f = elf_file(&phs, &body, &secs);
        let desc = format!("layout {k}: text {text}, base {base:#x}, segments (address, file, memory) {segs:?}, headers (type, flags, offset, address, file, memory) {phs:?}");
        let p = match catch_unwind(AssertUnwindSafe(|| Phantom::from_elf(f.clone()))) {
            Ok(p) => p,
            Err(_) => { r.expect(false, || format!("{desc}: refused")); return }
        };
        r.cases += 1;
        let rom = p.boot_rom();
        r.expect(*rom.offset() == 0 && *rom.size() == text && rom.data().len() == text, || format!("{desc}: program memory is {} bytes at {:#x}", rom.data().len(), rom.offset()));
        let want = &f[off[0]..off[0] + text];
        r.expect(&rom.data()[..] == want, || format!("{desc}: program memory differs from the file at byte {:?}", rom.data().iter().zip(want).position(|(a, b)| a != b)));
        let ram = p.boot_ram();
        let b = if nseg > 0 { base as usize } else { 0 };
        r.expect(*ram.offset() == b && *ram.size() == 4096 && ram.data().len() == 4096, || format!("{desc}: RAM is {} bytes at {:#x}", ram.data().len(), ram.offset()));
        let mut want = vec![0u8; 4096];
        for (q, s) in segs.iter().enumerate() { for i in 0..s.1 { want[s.0 + i] = f[off[q + 1] + i] } }
        r.expect(ram.data()[..] == want[..], || { let i = ram.data().iter().zip(&want).position(|(a, b)| a != b).unwrap_or(4096);
            format!("{desc}: RAM byte {i} is {:?}, want {:?}", ram.data().get(i), want.get(i)) });
        r.expect((*p.input_info().start_addr(), *p.input_info().size()) == (inp.0 as usize, inp.1 as usize), || format!("{desc}: input area {:#x}+{}", p.input_info().start_addr, p.input_info().size));
        r.expect((*p.output_info().start_addr(), *p.output_info().size()) == (out.0 as usize, out.1 as usize), || format!("{desc}: output area {:#x}+{}", p.output_info().start_addr, p.output_info().size));
    }

    fn machine(base: usize, rom: Vec<u8>, ram: Vec<u8>, inp: (usize, usize), out: (usize, usize)) -> Phantom {
        Phantom {
            boot_rom: BootMemory::new(0, rom.len(), rom),
            boot_ram: BootMemory::new(base, ram.len(), ram),
            output_info: OutputInfo { start_addr: base + out.0, size: out.1 },
            input_info: InputInfo { start_addr: base + inp.0, size: inp.1 },
            _elf_bytes: None,
        }
    }
    /// the environment the encrypted machine is configured by: threads, debug mode
    fn configure(g: &mut Rng) -> String {
        let t = g.pick(&["", "1", "2", "3", "5", "8", "33"]);
        let d = g.pick(&["", "", "1"]);
        for (k, v) in [("PHANTOM_THREADS", t), ("PHANTOM_DEBUG", d)] {
            if v.is_empty() { std::env::remove_var(k) } else { std::env::set_var(k, v) }
        }
        format!("threads {t:?}, debug {d:?}")
    }
    fn words(ws: &[u32]) -> Vec<u8> { ws.iter().flat_map(|w| w.to_le_bytes()).collect() }

    /// Before any cycle the encrypted machine's output tape is the output area of the boot image
    /// with the input tape in place, and the cleartext machine says the same.
    fn tape_one(k: u64, seed: u64, r: &mut Res) {
        let mut g = Rng::new(seed, k);
        let base = g.pick(&[0x40000usize, 0x40000, 0, 0x1000]);
        let ram = g.bytes(4096);
        let area = |g: &mut Rng| -> (usize, usize) { match g.below(6) {
            0 => (0, 4096), 1 => (4096 - 1 - g.below(7), 1), 2 => (g.below(4096), 0),
            _ => { let a = g.below(4096); (a, g.below(4096 - a + 1).min(1 + g.below(600))) } } };
        let (inp, out) = (area(&mut g), area(&mut g));
        let out = if k % 5 == 0 { (0, 4096) } else { out };
        let p = machine(base, words(&[0x13, 0x13]), ram.clone(), inp, out);
        let tape = g.bytes(inp.1);
        let cfg = configure(&mut g);
        let desc = format!("layout {k}: RAM base {base:#x}, input area {inp:?}, output area {out:?}, {cfg}");
        let mut want = ram.clone();
        want[inp.0..inp.0 + inp.1].copy_from_slice(&tape);
        let want = &want[out.0..out.0 + out.1];
        match catch_unwind(AssertUnwindSafe(|| { let mut e = p.encrypted_vm(&tape, 0); e.execute(); e.output_tape() })) {
            Ok(o) => r.expect(o == want, || { let i = o.iter().zip(want).position(|(a, b)| a != b);
                format!("{desc}: encrypted output tape of {} bytes differs at byte {i:?}: {:?}, want {:?}", o.len(), i.map(|i| o[i]), i.map(|i| want[i])) }),
            Err(_) => r.expect(false, || format!("{desc}: encrypted machine aborts")),
        }
        let mut t = p.test_vm(0);
        t.read_input_tape(&tape);
        t.execute();
        let o = t.output_tape();
        r.expect(o == want, || format!("{desc}: cleartext output tape differs"));
        r.cases += 1;
        if k % 4 == 0 {
            for n in [inp.1 + 1, inp.1.wrapping_sub(1), 0] {
                if n == inp.1 || n > 5000 { continue }
                let wrong = g.bytes(n);
                let ok = catch_unwind(AssertUnwindSafe(|| p.encrypted_vm(&wrong, 0))).is_err();
                r.expect(ok, || format!("{desc}: a tape of {n} bytes is accepted"));
            }
        }
    }

    /// The cleartext machine's tapes on any RAM size: every byte of memory is looked at.
    fn ctape_one(k: u64, seed: u64, r: &mut Res) {
        let mut g = Rng::new(seed, k);
        let base = g.pick(&[0x40000usize, 0, 4, 0x1000, 0x8000_0000, 0xFFFF_0000]);
        let size = g.pick(&[1usize, 4, 64, 100, 255, 256, 1024, 4096, 4096, 4096, 5000, 16384, 70000]);
        let ram = g.bytes(size);
        let area = |g: &mut Rng| -> (usize, usize) { match g.below(6) {
            0 => (0, size), 1 => (size - 1 - g.below(7.min(size)), 1), 2 => (g.below(size), 0), 3 => { let a = g.below(size); (a, size - a) }
            _ => { let a = g.below(size); (a, g.below(size - a + 1).min(1 + g.below(600))) } } };
        let (inp, out) = (area(&mut g), area(&mut g));
        let tape = g.bytes(inp.1);
        let desc = format!("layout {k}: RAM of {size} at {base:#x}, input area {inp:?}, output area {out:?}");
        let mut all = ram.clone();
        all[inp.0..inp.0 + inp.1].copy_from_slice(&tape);
        // the input is loaded, and nothing else changes
        for o in [(0, size), out] {
            let p = machine(base, words(&[0x13, 0x13]), ram.clone(), inp, o);
            let mut t = p.test_vm(1);
            let want = &all[o.0..o.0 + o.1];
            let got = catch_unwind(AssertUnwindSafe(|| { t.read_input_tape(&tape); t.execute(); t.output_tape() }));
            r.expect(got.as_ref().is_ok_and(|x| x == want), || match &got {
                Ok(x) => { let i = x.iter().zip(want).position(|(a, b)| a != b); format!("{desc}: output {o:?} has {} bytes, first wrong byte {i:?}", x.len()) }
                Err(_) => format!("{desc}: aborts") });
        }
        let p = machine(base, words(&[0x13, 0x13]), ram.clone(), inp, (0, size));
        for n in [inp.1 + 1, inp.1.wrapping_sub(1), 0, inp.1 * 2, inp.1 / 2, inp.1 + 4, inp.1 & !3, size, inp.1 + 256] {
            if n == inp.1 || n > 1 << 20 { continue }
            let wrong = g.bytes(n);
            let mut t = p.test_vm(0);
            let ok = catch_unwind(AssertUnwindSafe(|| t.read_input_tape(&wrong))).is_err();
            r.expect(ok, || format!("{desc}: a tape of {n} bytes is accepted"));
        }
        r.cases += 1;
    }

    /// A random program run for some cycles through both machines: the output tapes are those of the ISA.
    fn run_one(k: u64, cycles: usize, seed: u64, r: &mut Res) {
        let mut g = Rng::new(seed, k);
        let mut ram = g.bytes(4096);
        let area = |g: &mut Rng| -> (usize, usize) { let a = g.below(4096); (a, 1 + g.below((4096 - a).min(200))) };
        let (inp, out) = (area(&mut g), if g.chance(1, 2) { (0, 4096) } else { area(&mut g) });
        let tape = g.bytes(inp.1);
        let boot = ram.clone();
        ram[inp.0..inp.0 + inp.1].copy_from_slice(&tape);
        let m0 = ram.chunks(4).map(|b| u32::from_le_bytes(b.try_into().unwrap())).collect();
        let rom = g.pick(&[10usize, 33, 64, 300, 1025]);
        let c = trace::Conf { rom, ram: 1024, cycles, base: 0x40000, mul: false, subword: false, ecall: false, boot: true };
        let t = trace::run_from(trace::rng(seed << 20 | k), m0, &c);
        let n = t.steps.len();
        let mut m = t.m0.clone();
        for s in &t.steps { if let Some((j, v)) = s.wr { m[j] = v } }
        let want = &words(&m)[out.0..out.0 + out.1];
        let p = machine(0x40000, words(&t.prog), boot, inp, out);
        let cfg = configure(&mut g);
        let desc = format!("program {k} of {rom} instructions after {n} cycles (input area {inp:?}, output area {out:?}, {cfg})");
        let mut v = p.test_vm(n);
        v.read_input_tape(&tape);
        v.execute();
        let o = v.output_tape();
        let diff = |o: &[u8]| { let i = o.iter().zip(want).position(|(a, b)| a != b); format!("{} bytes, first difference at {i:?}", o.len()) };
        r.expect(o == want, || format!("{desc}: cleartext output tape: {}", diff(&o)));
        let o = match catch_unwind(AssertUnwindSafe(|| { let mut e = p.encrypted_vm(&tape, n); e.execute(); e.output_tape() })) {
            Ok(o) => o,
            Err(_) => { r.expect(false, || format!("{desc}: encrypted machine aborts")); return }
        };
        r.cases += 1;
        r.expect(o == want, || format!("{desc}: encrypted output tape: {}", diff(&o)));
    }

    /// elf:SEED:FIRST:COUNT | tape:SEED:FIRST:COUNT | run:SEED:FIRST:COUNT:CYCLES
    pub fn go(case: &str, only: Option<u64>) -> Res {
        let a: Vec<&str> = case.split(':').collect();
        let n = |i: usize| -> u64 { a[i].parse().unwrap() };
        let mut r = Res::default();
        for k in n(2)..n(2) + n(3) {
            if only.is_some_and(|o| o != k) { continue }
            match a[0] {
                "elf" => elf_one(k, n(1), &mut r),
                "ctape" => ctape_one(k, n(1), &mut r),
                "tape" => tape_one(k, n(1), &mut r),
                "run" => run_one(k, n(4) as usize, n(1), &mut r),
                x => panic!("no driver {x}"),
            }
        }
        r
    }
}
