//! Runs the contract drivers of the encrypted half over symbolic plaintexts and writes the
//! verification conditions' terms. usage: sym OUTDIR CASE...
use fhevm::verif::enc::{self, Ctx, Out};
use poulpy_hal::sym;
use std::{fmt::Write, fs, panic::{catch_unwind, AssertUnwindSafe}, sync::Mutex};

static PANICS: Mutex<Vec<String>> = Mutex::new(Vec::new());

/// bounded drivers of the cleartext machines
fn wide(case: &str, only: Option<u64>) -> Option<(usize, Vec<String>)> {
    match case.split(':').next().unwrap() {
        "dbg" | "prog" | "muldiv" => Some(fhevm::verif::wide::go(case, only)),
        "vm" | "long" => Some(compiler::interpreter::verif::testvm_verif::wide::go(case, only)),
        _ => None,
    }
}

fn q(s: &str) -> String { format!("{:?}", s) }

fn main() {
    std::panic::set_hook(Box::new(|i| {
        let m = i.payload().downcast_ref::<String>().cloned().or(i.payload().downcast_ref::<&str>().map(|s| s.to_string())).unwrap_or_default();
        PANICS.lock().unwrap().push(format!("{m} at {}", i.location().map(|l| l.to_string()).unwrap_or_default()));
    }));
    let a: Vec<String> = std::env::args().collect();
    let dir = &a[1];
    fs::create_dir_all(dir).unwrap();
    let mut ctx = Ctx::new(1);
    for case in &a[2..] {
        sym::reset();
        PANICS.lock().unwrap().clear();
        ctx.out.clear();
        ctx.checked = 0;
        ctx.failed.clear();
        let t0 = std::time::Instant::now();
        let r = catch_unwind(AssertUnwindSafe(|| {
            if ["elf", "tape", "ctape", "run"].contains(&case.split(':').next().unwrap()) {
                let r = compiler::interpreter::verif::run::go(case, None);
                (ctx.checked, ctx.failed) = (r.checked, r.failed);
            } else if let Some(r) = wide(case, None) {
                (ctx.checked, ctx.failed) = r;
            } else { enc::run(&mut ctx, case) }
        }));
        let t = t0.elapsed().as_secs_f64();
        let ar = sym::arena();
        let mut roots = vec![];
        for (_, o) in &ctx.out { if let Out::Sym(h) = o { roots.extend(h.iter().copied()) } }
        let k = roots.len();
        roots.extend(ar.must_be_bit.iter().map(|x| x.0));
        let (vars, defs, ex) = ar.emit(&roots);
        let mut s = String::new();
        for (n, b) in &vars { writeln!(s, "(declare-const |{n}| {})", if *b { "Bool" } else { "(_ BitVec 8)" }).unwrap() }
        s += &defs;
        let f = case.replace(['/', ':', ','], "_");
        fs::write(format!("{dir}/{f}.smt2"), &s).unwrap();
        let mut j = format!("{{\"case\":{},\"time\":{t:.3},\"nodes\":{},\"ok\":{},\"panics\":[{}],\"faults\":[{}],\"checked\":{},\"failed\":[{}],\n\"vars\":[{}],\n\"must\":[{}],\n\"out\":{{",
            q(case), ar.nodes.len(), r.is_ok(),
            PANICS.lock().unwrap().iter().map(|x| q(x)).collect::<Vec<_>>().join(","),
            ar.faults.iter().map(|x| q(x)).collect::<Vec<_>>().join(","),
            ctx.checked, ctx.failed.iter().map(|x| q(x)).collect::<Vec<_>>().join(","),
            vars.iter().map(|v| q(&v.0)).collect::<Vec<_>>().join(","),
            ex[k..].iter().map(|e| format!("[{},{}]", e.0, q(&e.1))).collect::<Vec<_>>().join(","));
        let (mut i, mut first) = (0, true);
        for (n, o) in &ctx.out {
            if let Out::Sym(h) = o {
                write!(j, "{}{}:[{}]", if first { "" } else { ",\n" }, q(n),
                    ex[i..i + h.len()].iter().map(|e| format!("[{},{}]", e.0, q(&e.1))).collect::<Vec<_>>().join(",")).unwrap();
                i += h.len();
                first = false;
            }
        }
        j += "}}\n";
        fs::write(format!("{dir}/{f}.json"), j).unwrap();
        println!("{case} {t:.2}s nodes={} must={} checked={} ok={} {:?} {:?} {:?}", ar.nodes.len(), ar.must_be_bit.len(), ctx.checked, r.is_ok(),
            PANICS.lock().unwrap(), ar.faults, &ctx.failed[..ctx.failed.len().min(3)]);
        drop(ar);
        if std::env::var("SYM_SERVE").is_ok() { serve(&ctx) }
    }
}

/// Case analysis on request. One line "PREFIX ADDR,… OPAQUE,…": for every value of the address bits
/// (node numbers, least significant first) the bits of the outputs PREFIX[j] that are not the input
/// bit of the same name, with the opaque nodes kept as they are.
fn serve(ctx: &Ctx) {
    use std::io::{BufRead, Write};
    println!("@ready");
    for l in std::io::stdin().lock().lines() {
        let l = l.unwrap();
        let a: Vec<&str> = l.split(' ').collect();
        let nums = |s: &str| -> Vec<i64> { s.split(',').filter(|x| !x.is_empty())
            .map(|x| if let Some(n) = x.strip_prefix('b') { n.parse().unwrap() } else { sym::arena().lookup(x.trim_matches('|')) }).collect() };
        let (addr, opaque) = (nums(a[1]), nums(a[2]));
        let (mut roots, mut names, mut same) = (vec![], vec![], vec![]);
        for (n, o) in &ctx.out {
            if let (true, Out::Sym(h)) = (n.starts_with(&format!("{}[", a[0])), o) {
                for (i, x) in h.iter().enumerate() {
                    roots.push(*x);
                    names.push((n.clone(), i));
                    same.push(sym::arena().lookup(&format!("{n}.{i}")));
                }
            }
        }
        let out = std::io::stdout();
        let mut out = std::io::BufWriter::new(out.lock());
        let mut memo = vec![];
        for c in 0..1usize << addr.len() {
            let env: Vec<(i64, bool)> = addr.iter().enumerate().map(|(k, h)| (*h, c >> k & 1 == 1)).collect();
            let r = sym::arena().substitute_opaque(&roots, &env, &opaque, &mut memo);
            for k in 0..r.len() {
                if r[k] != same[k] {
                    writeln!(out, "{c} {} {} {}", names[k].0, names[k].1, sym::arena().name(r[k])).unwrap();
                }
            }
        }
        writeln!(out, "@done").unwrap();
        out.flush().unwrap();
    }
}
