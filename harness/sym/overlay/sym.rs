//! Symbolic term arena used by the contract stand-ins of the poulpy primitives.
//!
//! A ciphertext coefficient is an i64 *handle* held in column 0, limb 0:
//!   0        the torus value 0
//!   +id      the value of arena node `id`
//!   -id      its negation
//! Torus values are integers mod 256 (multiples of 2^-8); the message bit 1
//! (encoded at precision k = 2) is 64.
use std::collections::HashMap;
use std::sync::{LazyLock, Mutex, MutexGuard};

#[derive(Clone, PartialEq, Eq, Hash, Debug)]
pub enum Node {
    Zero,
    /// a free variable; `bit` nodes range over {0,64}, others over all of Z_256
    Var(String),
    Const(u8),
    /// selector (bit node, positive), then-handle, else-handle
    Ite(u32, i64, i64),
    /// sum of coeff*node + const (mod 256), at least two summands
    Lin(Vec<(u32, u8)>, u8),
    /// circuit bootstrapping of a value not syntactically in {0,64}
    Cbt(i64),
}

pub struct Arena {
    pub nodes: Vec<Node>,
    pub bit: Vec<bool>,
    pub map: HashMap<Node, u32>,
    /// side conditions (callee preconditions) to be discharged: (handle must be in {0,64}, where)
    pub must_be_bit: Vec<(i64, String)>,
    /// violated / undischargeable preconditions found during execution
    pub faults: Vec<String>,
}

pub const BIT: u8 = 64;
pub const POISON: i64 = 1;

impl Arena {
    fn new() -> Self {
        let mut a = Arena { nodes: vec![Node::Zero], bit: vec![true], map: HashMap::new(), must_be_bit: vec![], faults: vec![] };
        let p = a.intern(Node::Var("POISON".into()), false);
        assert_eq!(p as i64, POISON);
        a
    }
    pub fn intern(&mut self, n: Node, bit: bool) -> u32 {
        if let Some(&i) = self.map.get(&n) {
            return i;
        }
        let i = self.nodes.len() as u32;
        self.nodes.push(n.clone());
        self.bit.push(bit);
        self.map.insert(n, i);
        i
    }
    pub fn var(&mut self, name: &str, bit: bool) -> i64 {
        self.intern(Node::Var(name.into()), bit) as i64
    }
    pub fn cst(&mut self, v: u8) -> i64 {
        if v == 0 {
            0
        } else if v <= 128 {
            self.intern(Node::Const(v), v == BIT) as i64
        } else {
            let w = 0u8.wrapping_sub(v);
            -(self.intern(Node::Const(w), w == BIT) as i64)
        }
    }
    pub fn as_const(&self, h: i64) -> Option<u8> {
        if h == 0 {
            return Some(0);
        }
        match &self.nodes[h.unsigned_abs() as usize] {
            Node::Const(c) => Some(if h > 0 { *c } else { 0u8.wrapping_sub(*c) }),
            _ => None,
        }
    }
    pub fn is_bit(&self, h: i64) -> bool {
        h >= 0 && self.bit[h as usize]
    }
    pub fn ite(&mut self, s: i64, t: i64, f: i64) -> i64 {
        if t == f || s == 0 {
            return f;
        }
        if s < 0 || !self.bit[s as usize] {
            self.fault(format!("cmux selector is not an encryption of a bit (handle {s})"));
            return POISON;
        }
        match self.nodes[s as usize] {
            Node::Const(_) => return t,
            _ => {}
        }
        // restrict one level
        let t = self.restrict(t, s as u32, true);
        let f = self.restrict(f, s as u32, false);
        if t == f {
            return f;
        }
        if t <= 0 && f <= 0 {
            return -self.ite(s, -t, -f);
        }
        if f == 0 && t == s {
            return s;
        }
        if f == 0 && t > 0 && self.nodes[t as usize] == Node::Const(BIT) {
            return s;
        }
        let bit = self.is_bit(t) && self.is_bit(f);
        self.intern(Node::Ite(s as u32, t, f), bit) as i64
    }
    fn restrict(&mut self, h: i64, s: u32, v: bool) -> i64 {
        if h == 0 {
            return 0;
        }
        let a = h.unsigned_abs() as usize;
        let r = if a == s as usize {
            if v {
                self.cst(BIT)
            } else {
                0
            }
        } else {
            match self.nodes[a] {
                Node::Ite(x, t, f) if x == s => {
                    if v {
                        t
                    } else {
                        f
                    }
                }
                _ => return h,
            }
        };
        if h > 0 { r } else { -r }
    }
    fn lin_of(&self, h: i64, neg: bool, acc: &mut Vec<(u32, u8)>, c: &mut u8) {
        if h == 0 {
            return;
        }
        let neg = neg ^ (h < 0);
        let sg = |v: u8| if neg { 0u8.wrapping_sub(v) } else { v };
        let i = h.unsigned_abs() as u32;
        match &self.nodes[i as usize] {
            Node::Const(v) => *c = c.wrapping_add(sg(*v)),
            Node::Lin(ts, k) => {
                for (n, v) in ts {
                    acc.push((*n, sg(*v)));
                }
                *c = c.wrapping_add(sg(*k));
            }
            _ => acc.push((i, sg(1))),
        }
    }
    pub fn add(&mut self, a: i64, b: i64, neg_b: bool) -> i64 {
        if b == 0 {
            return a;
        }
        if a == 0 {
            return if neg_b { -b } else { b };
        }
        if neg_b && a == b || !neg_b && a == -b {
            return 0;
        }
        let (mut acc, mut c) = (vec![], 0u8);
        self.lin_of(a, false, &mut acc, &mut c);
        self.lin_of(b, neg_b, &mut acc, &mut c);
        acc.sort();
        let mut out: Vec<(u32, u8)> = vec![];
        for (n, v) in acc {
            match out.last_mut() {
                Some(l) if l.0 == n => l.1 = l.1.wrapping_add(v),
                _ => out.push((n, v)),
            }
        }
        for e in out.iter_mut() {
            if self.bit[e.0 as usize] {
                e.1 &= 3; // 4*64 = 0 mod 256
                if e.1 == 3 {
                    e.1 = 255;
                }
            }
        }
        out.retain(|e| e.1 != 0);
        if out.is_empty() {
            return self.cst(c);
        }
        if c == 0 && out.len() == 1 && (out[0].1 == 1 || out[0].1 == 255) {
            return if out[0].1 == 1 { out[0].0 as i64 } else { -(out[0].0 as i64) };
        }
        // canonical sign: first coefficient <= 128
        if out[0].1 > 128 {
            let o: Vec<(u32, u8)> = out.iter().map(|(n, v)| (*n, 0u8.wrapping_sub(*v))).collect();
            return -(self.intern(Node::Lin(o, 0u8.wrapping_sub(c)), false) as i64);
        }
        self.intern(Node::Lin(out, c), false) as i64
    }
    pub fn cbt(&mut self, h: i64, w: &str) -> i64 {
        if self.is_bit(h) {
            return h;
        }
        if let Some(c) = self.as_const(h) {
            self.fault(format!("{w}: circuit bootstrapping of constant {c}/256, not 0 or 64/256"));
            return POISON;
        }
        self.must_be_bit.push((h, w.into()));
        self.intern(Node::Cbt(h), true) as i64
    }
    /// terms of `roots` with the given variables replaced by constants (complete case analysis)
    pub fn substitute(&mut self, roots: &[i64], env: &[(i64, bool)], memo: &mut Vec<i64>) -> Vec<i64> {
        self.substitute_opaque(roots, env, &[], memo)
    }
    /// the same, with the nodes `opaque` left as they are
    pub fn substitute_opaque(&mut self, roots: &[i64], env: &[(i64, bool)], opaque: &[i64], memo: &mut Vec<i64>) -> Vec<i64> {
        const NONE: i64 = i64::MIN;
        memo.clear();
        memo.resize(self.nodes.len(), NONE);
        memo[0] = 0;
        for o in opaque {
            memo[*o as usize] = *o;
        }
        for (v, b) in env {
            memo[*v as usize] = if *b { self.cst(BIT) } else { 0 };
        }
        let sg = |h: i64, m: &Vec<i64>| { let r = m[h.unsigned_abs() as usize]; if h < 0 { -r } else { r } };
        let mut stack: Vec<usize> = vec![];
        for r in roots {
            stack.push(r.unsigned_abs() as usize);
            while let Some(&i) = stack.last() {
                if memo[i] != NONE { stack.pop(); continue; }
                let need = |h: i64, m: &Vec<i64>| if m[h.unsigned_abs() as usize] == NONE { Some(h.unsigned_abs() as usize) } else { None };
                match self.nodes[i].clone() {
                    Node::Ite(s, t, f) => {
                        if let Some(x) = need(s as i64, memo) { stack.push(x); continue; }
                        let sv = memo[s as usize];
                        let is1 = sv > 0 && matches!(self.nodes[sv as usize], Node::Const(_));
                        if sv == 0 || is1 {
                            let b = if is1 { t } else { f };
                            if let Some(x) = need(b, memo) { stack.push(x); continue; }
                            memo[i] = sg(b, memo);
                        } else {
                            let l = stack.len();
                            for h in [t, f] { if let Some(x) = need(h, memo) { stack.push(x) } }
                            if stack.len() > l { continue; }
                            let (a, b) = (sg(t, memo), sg(f, memo));
                            memo[i] = self.ite(sv, a, b);
                        }
                    }
                    Node::Lin(ts, k) => {
                        let l = stack.len();
                        for (n, _) in &ts { if let Some(x) = need(*n as i64, memo) { stack.push(x) } }
                        if stack.len() > l { continue; }
                        let mut acc = self.cst(k);
                        for (n, c) in ts {
                            let h = memo[n as usize];
                            for _ in 0..(if c > 128 { 0u8.wrapping_sub(c) } else { c }) { acc = self.add(acc, h, c > 128); }
                        }
                        memo[i] = acc;
                    }
                    Node::Cbt(h) => {
                        if let Some(x) = need(h, memo) { stack.push(x); continue; }
                        let a = sg(h, memo);
                        memo[i] = self.cbt(a, "circuit bootstrapping");
                    }
                    _ => memo[i] = i as i64,
                }
                stack.pop();
            }
        }
        roots.iter().map(|r| sg(*r, memo)).collect()
    }
    pub fn lookup(&self, var: &str) -> i64 {
        self.map.get(&Node::Var(var.into())).map(|i| *i as i64).unwrap_or(0)
    }
    pub fn name(&self, h: i64) -> String {
        if self.is_bit(h) { self.b(h) } else { self.v(h) }
    }
    pub fn fault(&mut self, s: String) {
        if self.faults.len() < 64 && !self.faults.contains(&s) {
            self.faults.push(s);
        }
    }
}

static ARENA: LazyLock<Mutex<Arena>> = LazyLock::new(|| Mutex::new(Arena::new()));

pub fn arena() -> MutexGuard<'static, Arena> {
    match ARENA.lock() {
        Ok(g) => g,
        Err(p) => p.into_inner(),
    }
}
pub fn reset() {
    *arena() = Arena::new();
}
pub fn fault(s: String) {
    arena().fault(s)
}
pub fn unsupported(s: &str) -> ! {
    panic!("SYM-UNSUPPORTED: {s}")
}

/// dst[i] = s ? t[i] : f[i]
pub fn ite_slice(dst: &mut [i64], s: i64, t: &[i64], f: &[i64]) {
    let mut g: Option<MutexGuard<Arena>> = None;
    for i in 0..dst.len() {
        dst[i] = if s == 0 || t[i] == f[i] {
            f[i]
        } else {
            g.get_or_insert_with(arena).ite(s, t[i], f[i])
        };
    }
}
/// dst[i] = a[i] +- b[i]
pub fn add_slice(dst: &mut [i64], a: &[i64], b: &[i64], neg_b: bool) {
    let mut g: Option<MutexGuard<Arena>> = None;
    for i in 0..dst.len() {
        dst[i] = if b[i] == 0 {
            a[i]
        } else {
            g.get_or_insert_with(arena).add(a[i], b[i], neg_b)
        };
    }
}
/// torus value of the integer v at precision 2^-k
pub fn encode(v: i64, k: usize) -> i64 {
    if v == 0 {
        return 0;
    }
    if k > 8 {
        unsupported("encode at precision finer than 2^-8");
    }
    arena().cst(((v as i128) << (8 - k)) as u8)
}
pub fn decode(h: i64, k: usize) -> i64 {
    if h == 0 {
        return 0;
    }
    if k > 8 {
        unsupported("decode at precision finer than 2^-8");
    }
    match arena().as_const(h) {
        Some(c) => {
            let v = c as i8 as i64;
            let s = 1i64 << (8 - k);
            (v + s / 2).div_euclid(s)
        }
        None => unsupported("decoding a symbolic coefficient"),
    }
}
pub fn read_handle(b: &[u8]) -> i64 {
    i64::from_ne_bytes(b[..8].try_into().unwrap())
}
pub fn write_handle(b: &mut [u8], h: i64) {
    b[..8].copy_from_slice(&h.to_ne_bytes())
}
pub fn poison_bytes(b: &mut [u8]) {
    for c in b.chunks_exact_mut(8) {
        c.copy_from_slice(&POISON.to_ne_bytes());
    }
}

// ---- SMT-LIB emission ------------------------------------------------------------------------
impl Arena {
    fn b(&self, h: i64) -> String {
        debug_assert!(self.is_bit(h));
        if h == 0 {
            return "false".into();
        }
        match &self.nodes[h as usize] {
            Node::Const(_) => "true".into(),
            Node::Var(n) => format!("|{n}|"),
            _ => format!("b{h}"),
        }
    }
    fn v(&self, h: i64) -> String {
        if h < 0 {
            return format!("(bvneg {})", self.v(-h));
        }
        if self.is_bit(h) {
            return match self.b(h).as_str() {
                "false" => "#x00".into(),
                "true" => "#x40".into(),
                s => format!("(ite {s} #x40 #x00)"),
            };
        }
        match &self.nodes[h as usize] {
            Node::Const(c) => format!("#x{c:02x}"),
            Node::Var(n) => format!("|{n}|"),
            _ => format!("v{h}"),
        }
    }
    /// (variables as (name, is_bit), definitions, expression of each root: (is_bool, text))
    pub fn emit(&self, roots: &[i64]) -> (Vec<(String, bool)>, String, Vec<(bool, String)>) {
        use std::fmt::Write;
        let mut seen = vec![false; self.nodes.len()];
        let mut stack: Vec<usize> = roots.iter().map(|h| h.unsigned_abs() as usize).collect();
        while let Some(i) = stack.pop() {
            if i == 0 || seen[i] {
                continue;
            }
            seen[i] = true;
            match &self.nodes[i] {
                Node::Ite(s, t, f) => stack.extend([*s as usize, t.unsigned_abs() as usize, f.unsigned_abs() as usize]),
                Node::Lin(ts, _) => stack.extend(ts.iter().map(|x| x.0 as usize)),
                Node::Cbt(h) => stack.push(h.unsigned_abs() as usize),
                _ => {}
            }
        }
        let (mut vars, mut defs) = (vec![], String::new());
        for i in 1..self.nodes.len() {
            if !seen[i] {
                continue;
            }
            match &self.nodes[i] {
                Node::Var(n) => vars.push((n.clone(), self.bit[i])),
                Node::Ite(s, t, f) => {
                    let s = self.b(*s as i64);
                    if self.bit[i] {
                        writeln!(defs, "(define-fun b{i} () Bool (ite {s} {} {}))", self.b(*t), self.b(*f)).unwrap()
                    } else {
                        writeln!(defs, "(define-fun v{i} () (_ BitVec 8) (ite {s} {} {}))", self.v(*t), self.v(*f)).unwrap()
                    }
                }
                Node::Lin(ts, k) => {
                    let mut e = format!("#x{k:02x}");
                    for (n, c) in ts {
                        let x = self.v(*n as i64);
                        e = match c {
                            1 => format!("(bvadd {e} {x})"),
                            255 => format!("(bvsub {e} {x})"),
                            _ => format!("(bvadd {e} (bvmul #x{c:02x} {x}))"),
                        };
                    }
                    writeln!(defs, "(define-fun v{i} () (_ BitVec 8) {e})").unwrap()
                }
                Node::Cbt(h) => writeln!(defs, "(define-fun b{i} () Bool (= {} #x40))", self.v(*h)).unwrap(),
                _ => {}
            }
        }
        let exprs = roots
            .iter()
            .map(|h| if self.is_bit(*h) { (true, self.b(*h)) } else { (false, self.v(*h)) })
            .collect();
        (vars, defs, exprs)
    }
}
