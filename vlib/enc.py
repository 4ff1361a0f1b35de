"""Contracts of the encrypted half. The crates of /repo are compiled from the working tree against
copies of poulpy whose lattice primitives carry their (assumed) contracts over symbolic plaintexts;
each driver of contracts/enc.rs is executed once per case and yields, for every output bit, the term
it computes for all inputs. Here each postcondition is discharged by z3, bit by bit."""
import hashlib, itertools, json, random, re, shutil, threading, time
from concurrent.futures import ThreadPoolExecutor
from .common import *
from . import encspec as S, terms as T

TOOLCHAIN = "nightly-2025-12-08"
SYM = BUILD / "sym/release/sym"

# ---- building ---------------------------------------------------------------------------------
def build():
    rc, out = run(["bash", str(ROOT / "harness/sym/build.sh")], 700, cwd=ROOT)
    if rc != 0 or not SYM.exists():
        raise Inconclusive("the tree does not build under the verifier (or an anchor is gone):\n"
                           + "\n".join(l for l in out.splitlines() if not l.startswith("warning"))[-3500:])

def fname(case): return re.sub(r"[/:,]", "_", case)

# ---- specification of each driver -------------------------------------------------------------
def word(name, bits=range(32)):
    return "(concat " + " ".join(f"(ite |{name}.{i}| #b1 #b0)" if i in bits else "#b0" for i in reversed(range(32))) + ")"

class Spec:
    def __init__(self):
        self.inputs, self.lets, self.pre, self.range, self.out, self.split = [], [], [], [], {}, {}
    def inp(self, name, bits=range(32)):
        self.inputs.append((name, bits))
        return f"|W.{name}|"
    def let(self, name, e):
        self.lets.append((name, e))
        return f"|{name}|"
    def defs(self, cuts={}):
        """definitions; a bit (name, i) in `cuts` is replaced by a fresh variable"""
        d = [f"(define-fun |W.{n}| () (_ BitVec 32) {word(n, bits)})" for n, bits in self.inputs]
        for n, e in self.lets:
            if not any(k[0] == n for k in cuts): d.append(f"(define-fun |{n}| () (_ BitVec 32) {e})")
            else:
                d.append(f"(define-fun |{n}!| () (_ BitVec 32) {e})")
                d.append(f"(define-fun |{n}| () (_ BitVec 32) (concat " + " ".join(
                    f"(ite |cut.{n}.{i}| #b1 #b0)" if (n, i) in cuts else f"((_ extract {i} {i}) |{n}!|)" for i in reversed(range(32))) + "))")
        return "\n".join(d) + "\n"
    def values(self, inputs, full=True):
        """-> (precondition (with full=False: only that addresses are in range) holds, {let: value}, {output: value}) for concrete inputs"""
        env = {f"|W.{n}|": inputs.get(n, 0) & sum(1 << i for i in bits) for n, bits in self.inputs}
        for n, e in self.lets: env[f"|{n}|"] = T.word(self.parsed(e), env)
        return (all(T.word(self.parsed(p), env) for p in (self.pre if full else []) + self.range), {n: env[f"|{n}|"] for n, _ in self.lets},
                {n: T.word(self.parsed(e), env) for n, e in self.out.items()})
    def parsed(self, e):
        if e not in self.cache: self.cache[e] = T.parse(e)
        return self.cache[e]
    cache = {}

IMM20 = lambda v: f"(= {v} {S.sx(v, 20)})"
def pick(idx, ws):
    """ws[idx] for idx < len(ws); any of them otherwise"""
    if len(ws) == 1: return ws[0]
    b = (len(ws) - 1).bit_length() - 1
    return f"(ite (= ((_ extract {b} {b}) {idx}) #b1) {pick(idx, ws[1 << b:])} {pick(idx, ws[:1 << b])})"

LOADS, STORES = ("LB", "LBU", "LH", "LHU", "LW"), ("SB", "SH", "SW")
BRANCHES = tuple(S.COND)
# drivers that evaluate their postcondition on enumerated inputs
BOUNDED = ("state", "hist", "elf", "tape", "ctape", "run", "vm", "long", "dbg", "prog", "muldiv")

def spec(case):
    a = case.split(":")
    s, d, op = Spec(), a[0], a[1]
    if d == "addr": s.out["res"] = S.ram_addr({"rs1": s.inp("rs1"), "imm": s.inp("imm")})
    elif d == "rd": s.out["res"] = S.RD[op]({n: s.inp(n) for n in ("rs1", "rs2", "imm", "pc", "ram")})
    elif d == "pc":
        v = {n: s.inp(n) for n in ("rs1", "rs2", "pc", "imm")}
        s.pre.append(IMM20(v["imm"]))
        s.out["res"] = S.next_pc(op, v)
    elif d == "ram":
        v = {n: s.inp(n) for n in ("rs2", "loaded", "off")}
        if op == "SH": s.pre.append(f"(= ((_ extract 0 0) {v['off']}) #b0)")
        s.out["res"] = S.store(op, v["rs2"], v["loaded"], v["off"])
    elif d == "prep":
        for k, n in enumerate(op.split(",")): s.out[f"p{k}"] = S.zx(s.inp(f"u{k}"), int(n)) if int(n) < 32 else s.inp(f"u{k}")
    elif d in ("mem", "zero") + BOUNDED: pass     # postcondition decided by the driver
    elif d == "cycle": cycle_spec(s, a)
    else: raise Inconclusive(f"no specification for {case}")
    return s

def cycle_spec(s, a):
    op, rom, ram, at, first = a[1], int(a[3]), int(a[4]), a[5], len(a) > 9 and a[9] == "first"
    unaligned = len(a) > 9 and a[9] == "subword"
    pcbits = (rom - 1).bit_length()
    if first: pc, slot = S.c(0), 0
    elif at == "s":
        pc, slot = s.inp("pc", range(2, 2 + pcbits)), None
        s.range.append(f"(bvult (bvlshr {pc} {S.c(2)}) {S.c(rom)})")
    else: pc, slot = S.c(4 * int(at)), int(at)
    def rom_word(name, bits=range(32)):
        ws = [s.inp(f"{name}[{j}]", bits) for j in range(rom)]
        return s.let(name, ws[slot] if slot is not None else pick(f"(bvlshr {pc} {S.c(2)})", ws))
    imm = rom_word("imm")
    x = [S.c(0)] + [s.inp(f"x[{j}]") for j in range(1, 32)]
    m = [s.inp(f"ram[{j}]") for j in range(ram)]
    ri = [S.c(int(v)) if v != "s" else rom_word(n, range(5)) for v, n in zip(a[6:9], ("rs1i", "rs2i", "rdi"))]
    reg = lambda i, v, n: x[int(v)] if v != "s" else s.let(n, pick(i, x))
    rs1, rs2 = reg(ri[0], a[6], "RS1"), reg(ri[1], a[7], "RS2")
    pc_op = op if op in BRANCHES or op in ("JAL", "JALR") else "NONE"
    if pc_op != "NONE": s.pre.append(IMM20(imm))
    addr = s.let("ADDR", S.ram_addr({"rs1": rs1, "imm": imm}))
    idx = s.let("IDX", S.zx(f"(bvlshr {addr} {S.c(2)})", (ram - 1).bit_length()))
    if op in LOADS + STORES:
        s.range.append(f"(bvult {idx} {S.c(ram)})")
        n = {"B": 0, "H": 1, "W": 3}[op[1]]
        if n: s.pre.append(f"(= (bvand {addr} {S.c(n)}) {S.c(0)})")
        # known finding C17-1: sub-word loads at a non-zero byte offset are excluded here and probed apart
        if op in LOADS and not unaligned: s.pre.append(f"(= (bvand {addr} {S.c(3)}) {S.c(0)})")
    loaded = loaded0 = s.let("LOADED", pick(idx, m))
    if unaligned: loaded = s.let("SHIFTED", f"(bvlshr {loaded} (bvshl (bvand {addr} {S.c(3)}) {S.c(3)}))")
    rd_op = "NONE" if op in BRANCHES + STORES + ("ECALL",) else op
    if rd_op == "NONE": assert a[8] == "0"
    val = s.let("RD", S.RD[rd_op]({"rs1": rs1, "rs2": rs2, "imm": imm, "pc": pc, "ram": loaded}))
    s.out["pc"] = S.next_pc(pc_op, {"rs1": rs1, "rs2": rs2, "pc": pc, "imm": imm})
    # memories decided by case analysis over the address: (address value, first bit, bits), value written, fixed words
    s.split = {"x": ("rdi", 0, 5, "RD", {0})} if a[8] == "s" else {}
    # what is written back to the addressed word
    st = s.let("STORED", S.store(op, rs2, loaded0, addr) if op in STORES else loaded0)
    if op in LOADS + STORES or ram == 1 << (ram - 1).bit_length(): s.split["ram"] = ("ADDR", 2, (ram - 1).bit_length(), "STORED", set())
    for j in range(32):
        if a[8] != "s": s.out[f"x[{j}]"] = val if int(a[8]) == j != 0 else x[j]
        else: s.out[f"x[{j}]"] = f"(ite (= {ri[2]} {S.c(j)}) {val} {x[j]})" if j else S.c(0)
    for j in range(ram):
        s.out[f"ram[{j}]"] = f"(ite (= {idx} {S.c(j)}) {st} {m[j]})" if op in STORES else m[j]

# ---- discharging ------------------------------------------------------------------------------
class Z3:
    def __init__(self, timeout_ms):
        import subprocess
        self.p = subprocess.Popen(["z3-new", "-in"], stdin=subprocess.PIPE, stdout=subprocess.PIPE, text=True)
        self.n = 0
        self.send(f"(set-option :timeout {timeout_ms})\n(set-logic QF_BV)\n")
    def send(self, t): self.p.stdin.write(t)
    def ask(self, t):
        """everything printed in answer to t"""
        self.n += 1
        self.send(t + f'\n(echo "@{self.n}")\n')
        self.p.stdin.flush()
        out = []
        for l in self.p.stdout:
            if l.strip() == f"@{self.n}": return "".join(out).strip()
            out.append(l)
        raise Inconclusive("the solver ended: " + "".join(out)[-300:])
    def close(self):
        self.p.kill(); self.p.wait()

def values(text, names):
    return {n: int(v, 16) if b == "x" else int(v, 2) for n, (b, v) in zip(names, re.findall(r"#([xb])([0-9a-f]+)\)", text))}

def decls(s, have): return "".join(f"(declare-const |{n}.{i}| Bool)\n" for n, bits in s.inputs for i in bits if f"{n}.{i}" not in have)

CORNER = [0, 1, 2, 4, 0x7FFFFFFF, 0x80000000, 0xFFFFFFFF, 0xFFFFFFFE, 0x00040000, 0x0003FFFC, 0x80, 0x8000]
def patterns(s, rnd, pre=True):
    """T.K concrete inputs, meeting the precondition where that is easy"""
    out = []
    for k in range(T.K):
        for attempt in range(40):
            v, common = {}, rnd.getrandbits(32)
            for n, bits in s.inputs:
                w = rnd.choice(CORNER) if rnd.random() < .15 else common if rnd.random() < .1 else rnd.getrandbits(32)
                if n.startswith("imm"):
                    b = rnd.choice((12, 13, 20))
                    w = T.sgn(w & ((1 << b) - 1), b) & T.M if rnd.random() < .9 else w
                if n.startswith("off") or n.startswith("x[") or n.startswith("rs1"): w &= rnd.choice((T.M, ~1, ~3)) & T.M
                v[n] = w & sum(1 << i for i in bits)
            if s.values(v, pre)[0]: break
        out.append(v)
    return out

DEF = re.compile(r"^\(define-fun (\S+) \(\) (Bool|\(_ BitVec 8\)) (.*)\)$")

class Sim:
    """the implementation's terms and the specification on T.K concrete inputs"""
    def __init__(self, s, smt, rnd, pre=True):
        self.pats = patterns(s, rnd, pre)
        self.res = [s.values(v, pre) for v in self.pats]
        self.pats = [v for v, x in zip(self.pats, self.res) if pre or x[0]] or self.pats
        self.pats = (self.pats * T.K)[:T.K]
        self.res = [s.values(v, pre) for v in self.pats]
        env = {}
        for l in smt.splitlines():
            if l.startswith("(declare-const "):
                n, bool_ = l.split()[1][1:-1], l.endswith(" Bool)")
                w, _, i = n.rpartition(".")
                if bool_ and self.pats and w in self.pats[0]:
                    env[f"|{n}|"] = int.from_bytes(bytes(0xFF if v[w] >> int(i) & 1 else 0 for v in self.pats), "little")
                else:
                    b = rnd.getrandbits(8 * T.K)
                    env[f"|{n}|"] = (b & T.LANES) * 0xFF if bool_ else b
            else:
                m = DEF.match(l)
                env[m.group(1)] = T.term(T.parse(m.group(3)), env)
        self.env = env
    def bits(self, f):
        """lanes of a boolean function of the pattern number"""
        return int.from_bytes(bytes(0xFF if f(k) else 0 for k in range(T.K)), "little")
    def counterexample(self, s, j):
        ok = self.bits(lambda k: self.res[k][0])
        for k, (b, e) in enumerate(j["must"]):
            x = T.term(T.parse(e), self.env)
            if b: continue
            bad = self.first((x & T.LANES * 0xBF) & ok)
            if bad is not None: return f"callee precondition {k} (a bit is bootstrapped)", self.pats[bad]
        for n in s.out:
            for i, (b, e) in enumerate(j["out"][n]):
                want = self.bits(lambda k: self.res[k][2][n] >> i & 1)
                got = T.term(T.parse(e), self.env)
                bad = self.first((got ^ (want if b else want & T.LANES * 0x40)) & ok)
                if bad is not None: return f"{n} bit {i}", self.pats[bad]
    def first(self, x): return next((k for k, c in enumerate(x.to_bytes(T.K, "little")) if c), None) if x else None

def cut(s, j, smt, sim, head, st):
    """Cut points: nodes that equal a bit of a named intermediate value of the specification. Each is
    proved equal before it is replaced by a fresh variable, on both sides. -> {(let, bit): [node]}"""
    cuts, sig = {}, {}
    for l in smt.splitlines():
        if l.startswith("(define-fun b"):
            n = l.split()[1]
            sig.setdefault(sim.env[n], []).append(n)
    for name, e in s.lets:
        if re.fullmatch(r"\|W\.[^|]*\|", e): continue   # an input as it is
        z = Z3(4000)
        try:
            z.send(head(cuts, False))
            new = {}
            for i in range(32):
                w = sim.bits(lambda k: sim.res[k][1][name] >> i & 1)
                if w in (0, T.FULL): continue
                for n in sig.get(w, [])[:-4:-1]:
                    if any(n in v for v in cuts.values()): continue
                    e = f"(= {n} (= ((_ extract {i} {i}) |{name}|) #b1))"
                    st["obligations"] += 1
                    if z.ask(f"(push 1)\n(assert (not {e}))\n(check-sat)\n(pop 1)") == "unsat":
                        z.send(f"(assert {e})\n")
                        st["discharged"] += 1
                        new.setdefault((name, i), []).append(n)
                    else: st["obligations"] -= 1
            cuts.update(new)
        finally: z.close()
    return cuts

def split(s, j, sim, cuts, ask):
    """Memories whose address bits are known nodes: complete case analysis over the address.
    -> {prefix: set of (bit, expression that must equal that bit of the value written)}; a memory that
    does not come out as "only the addressed word changes" is left to the solver."""
    done = {}
    opaque = [n for ns in cuts.values() for n in ns]
    for pre, (let, lo, nb, val, fixed) in s.split.items():
        addr = []
        for i in range(lo, lo + nb):
            e = dict(s.lets)[let]
            if re.fullmatch(r"\|W\.[^|]*\|", e): addr.append(f"|{e[3:-1]}.{i}|")
            elif (let, i) in cuts: addr.append(cuts[let, i][0])
        if len(addr) < nb: continue
        ok, obs = True, set()
        for l in ask(f"{pre} {','.join(addr)} {','.join(n for n in opaque if n not in addr)}"):
            c, name, i, e = l.split(" ", 3)
            k = int(name[len(pre) + 1:-1])
            if f"{pre}[{c}]" not in s.out: continue     # out of range: excluded by the precondition
            if k != int(c) or k in fixed or (e[0] == "b" and e not in sim.env) or e.startswith("("): ok = False; break
            obs.add((int(i), e))
        if ok: done[pre] = (val, obs)
    return done

def prove(s, j, head, cuts, mems, timeout_ms, r):
    """-> 'ok' | ('sat', what, inputs) | ('unknown', list)"""
    z = Z3(timeout_ms)
    try:
        z.send(head(cuts))
        for n, e in s.out.items(): z.send(f"(define-fun |S.{n}| () (_ BitVec 32) {e})\n")
        obs = [(f"callee precondition {k} (a bit is bootstrapped)", f"(or (= {e} #x00) (= {e} #x40))") for k, (b, e) in enumerate(j["must"]) if not b]
        done = len(j["must"]) - len(obs)
        for pre, (val, eqs) in mems.items():
            done += 32 * sum(n.startswith(pre + "[") for n in s.out)
            for i, e in sorted(eqs):
                if e in cuts.get((val, i), ()): continue
                r["obligations"] += 1
                obs.append((f"{pre}[addressed] bit {i}", f"(= {e} (= ((_ extract {i} {i}) |{val}|) #b1))"))
        for n in s.out:
            if n.split("[")[0] in mems: continue
            for i, (b, e) in enumerate(j["out"][n]):
                if b and e == f"|{n}.{i}|" and s.out[n] == f"|W.{n}|": done += 1; continue
                sb = f"(= ((_ extract {i} {i}) |S.{n}|) #b1)"
                obs.append((f"{n} bit {i}", f"(= {e} {sb})" if b else f"(= {e} (ite {sb} #x40 #x00))"))
        unk = []
        for what, e in obs:
            a = z.ask(f"(push 1)\n(assert (not {e}))\n(check-sat)")
            if a == "unsat":
                # carry chains need the lower bits as lemmas; words of a memory are independent
                z.send("(pop 1)\n" if "[" in what else f"(pop 1)\n(assert {e})\n")
                done += 1
            elif a == "sat":
                names = [n for n, _ in s.inputs]
                return "sat", what, values(z.ask("(get-value (" + " ".join(f"|W.{n}|" for n in names) + "))"), names) if names else {}
            else:
                z.send("(pop 1)\n")
                unk.append(f"{what}: {a[:80]}")
                if len(unk) > 3: break
        r["discharged"] += done
        return ("unknown", unk) if unk else "ok"
    finally: z.close()

def discharge(case, dir_, timeout_ms):
    """-> dict(verdict ok|fail|unknown, obligations, discharged, solver_s, why, input)"""
    f = dir_ / fname(case)
    r = dict(case=case, verdict="unknown", obligations=0, discharged=0, solver_s=0.0, why=[], input=None, cuts=0)
    t0 = time.time()
    p = subprocess.Popen([str(SYM), str(dir_), case], stdin=subprocess.PIPE, stdout=subprocess.PIPE, stderr=subprocess.DEVNULL,
                         text=True, env=env(SYM_SERVE="1"), start_new_session=True)
    try: return discharge_(case, r, f, p, timeout_ms, t0)
    finally: p.kill(); p.wait()

def discharge_(case, r, f, p, timeout_ms, t0):
    out = ""
    for l in p.stdout:
        if l.strip() == "@ready": break
        out += l
    r["exec_s"] = round(time.time() - t0, 2)
    def ask(q):
        p.stdin.write(q + "\n"); p.stdin.flush()
        got = []
        for l in p.stdout:
            if l.strip() == "@done": return got
            got.append(l.rstrip("\n"))
        raise Inconclusive("symbolic execution ended early")
    jf, sf = pathlib.Path(str(f) + ".json"), pathlib.Path(str(f) + ".smt2")
    if not jf.exists():
        r["why"] = [f"no result from the symbolic execution: {out[-400:]}"]
        return r
    j, smt = json.loads(jf.read_text()), sf.read_text()
    sf.unlink(); jf.unlink()
    if any("SYM-UNSUPPORTED" in p for p in j["panics"]):
        r["why"] = j["panics"][:3]
        return r
    r["obligations"], r["discharged"] = j["checked"] + len(j["must"]), j["checked"] - len(j["failed"])
    if not j["ok"]:
        r.update(verdict="fail", why=["PANIC " + p for p in j["panics"][:3]], obligations=r["obligations"] + 1)
        return r
    if j["failed"]:
        r.update(verdict="fail", why=["POST " + x for x in j["failed"][:3]])
        return r
    s = spec(case)
    if set(s.out) != set(j["out"]): raise Inconclusive(f"{case}: outputs {sorted(set(s.out) ^ set(j['out']))[:4]}")
    r["obligations"] += 32 * len(s.out)
    if j["faults"]:
        r.update(verdict="fail", why=["CALLEE-PRE " + x for x in j["faults"][:3]])
        return r
    if not s.out:
        r["verdict"] = "ok"
        return r
    t1 = time.time()
    dec = decls(s, set(j["vars"]))
    def head(cuts, pre=True):
        by = {n: f"(define-fun {n} () Bool |cut.{k[0]}.{k[1]}|)" for k, ns in cuts.items() for n in ns}
        body = "\n".join(by.get(l.split(" ", 2)[1], l) if l.startswith("(define-fun b") else l for l in smt.splitlines()) if by else smt
        return (dec + "".join(f"(declare-const |cut.{n}.{i}| Bool)\n" for n, i in cuts) + body + "\n" + s.defs(cuts)
                + "".join(f"(assert {p})\n" for p in (s.pre if pre else []) + s.range))
    try:
        sim = Sim(s, smt, random.Random(case))
        if not any(x[0] for x in sim.res): raise Inconclusive(f"{case}: no input meets the precondition")   # vacuity guard
        bad = sim.counterexample(s, j)
        if bad:
            r.update(verdict="fail", why=[f"POST {bad[0]}"], input=bad[1])
            return r
        # cuts hold for all inputs, without the precondition
        cuts = cut(s, j, smt, Sim(s, smt, random.Random(case + "cut"), False), head, r) if s.lets else {}
        r["cuts"] = len(cuts)
        mems = split(s, j, sim, cuts, ask)
        r["split"] = sorted(mems)
        base = r["obligations"], r["discharged"]
        a = prove(s, j, head, cuts, mems, timeout_ms, r)
        # a cut may have lost a relation (an instruction field is a function of pc): retry with fewer
        for c in ({k: v for k, v in cuts.items() if k[0] != "imm"}, {}):
            if a[0] == "sat" and len(c) < len(cuts): r["obligations"], r["discharged"] = base; a = prove(s, j, head, c, {}, timeout_ms, r)
        if a == "ok": r["verdict"] = "ok"
        elif a[0] == "sat": r.update(verdict="fail", why=[f"POST {a[1]}"], input=a[2])
        else: r["why"] = a[1]
        return r
    finally: r["solver_s"] = round(time.time() - t1, 2)

# ---- replay on real ciphertexts ---------------------------------------------------------------
def replay(case, inputs, timeout=400):
    """-> (outputs, failure lines) of the unmodified library and /repo's code"""
    e = env(RUSTFLAGS="--cfg phantom_verif -A warnings", RUSTUP_TOOLCHAIN=TOOLCHAIN)
    arg = ",".join(f"{k}={v}" for k, v in inputs.items())
    rc, out = run(["cargo", "run", "--offline", "-q", "--release", "--target-dir", str(BUILD / "native-enc"), "--", "enc", case, arg],
                  timeout, cwd=ROOT / "harness/replay", env_=e)
    if "REPLAY DONE" not in out: return None, [out[-1500:]]
    return ({m[0]: int(m[1]) for m in re.findall(r"^([\w\[\].]+)=(\d+)$", out, re.M)}, re.findall(r"^REPLAY FAILS .*$", out, re.M))

def concrete(r, rnd):
    """inputs to try for a failed case"""
    case, a = r["case"], r["case"].split(":")
    if a[0] in ("mem", "zero"):
        size, off = int(a[3]), int(a[5]) if len(a) > 5 else 0
        for k in range(2):
            v = {f"m[{j}]": rnd.getrandbits(32) for j in range(size)}
            v.update({f"w{q}": rnd.getrandbits(32) for q in range(4)})
            m = re.search(r"addresses \[([\d, ]+)\]", r["why"][0])
            if m: v.update({f"a{q}": int(x) << off for q, x in enumerate(m.group(1).split(","))})
            m = re.search(r"zero\((\d+)\)", r["why"][0])
            if m: v["zero"] = int(m.group(1))
            elif a[0] == "zero": v["zero"] = rnd.randrange(size)
            yield v
    elif a[0] in BOUNDED:
        m = re.search(r"(?:pattern|cycle|layout|program) (\d+)", r["why"][0])
        key = {"state": "pattern", "hist": "cycle"}.get(a[0], "only")
        yield {key: int(m.group(1))} if m else {}
    elif r["input"] is not None: yield r["input"]
    else:
        s = spec(case)
        for k in range(3): yield {n: rnd.getrandbits(32) & sum(1 << i for i in bits) for n, bits in s.inputs}

def confirm(r, rnd, deadline):
    """-> (reproduced, inputs, text)"""
    text = ""
    a = r["case"].split(":")
    if a[0] == "hist" and int(a[2]) < 8:
        # a real cycle takes half a minute on one thread
        a[2] = "8"
        for v in concrete(r, rnd):
            _, fails = replay(":".join(a), v, max(20, deadline - time.time()))
            if fails and fails[0].startswith("REPLAY FAILS"): return True, {"case": ":".join(a), **v}, "; ".join(fails)
    for v in concrete(r, rnd):
        if time.time() > deadline: break
        d = r["case"].split(":")[0]
        ok, _, want = spec(r["case"]).values(v)
        if not ok: continue
        got, fails = replay(r["case"], v, max(20, deadline - time.time()))
        if got is None:
            text = fails[0]
            continue
        bad = {n: {"got": got.get(n), "want": w} for n, w in want.items() if n in got and got[n] != w}
        text = "; ".join(fails) + (" " + json.dumps(bad) if bad else "")
        if fails or bad: return True, v, text
    return False, None, text or "the inputs tried do not fail on real ciphertexts"

# ---- the check --------------------------------------------------------------------------------
def check(prop, cfg, tier):
    build()
    dir_ = BUILD / f"symout-{prop}-{os.getpid()}"
    dir_.mkdir(parents=True, exist_ok=True)
    cases = list(dict.fromkeys(cfg["cases"](tier)))
    probes = cfg["probes"] if isinstance(cfg.get("probes"), dict) else {}          # name of the known finding -> case
    todo = cases + list(probes.values())
    tmo = 300000 if tier == "thorough" else 60000
    big = [c for c in todo if cfg.get("weight", lambda c: 1)(c) > 1]
    sem = threading.Semaphore(cfg.get("heavy", 8))
    def one(c):
        if c in big:
            with sem: return discharge(c, dir_, tmo)
        return discharge(c, dir_, tmo)
    with ThreadPoolExecutor(8) as ex: res = list(ex.map(one, todo))
    shutil.rmtree(dir_, ignore_errors=True)
    by = {r["case"]: r for r in res}
    known, unknown = [], []
    for n, c in probes.items():
        if by[c]["verdict"] == "fail": known.append({"name": n})
        elif by[c]["verdict"] == "unknown": unknown.append(f"{c} ({by[c]['why'][:1]})")
    main = [by[c] for c in cases]
    viol = [r for r in main if r["verdict"] == "fail"]
    unknown += [f"{r['case']} ({str(r['why'][:1])[:300]})" for r in main if r["verdict"] == "unknown"]
    if viol: report(prop, viol)
    cov = {
        "functions_under_contract": cfg["functions"],
        "cases": {r["case"]: {k: r[k] for k in ("verdict", "obligations", "discharged", "solver_s", "exec_s", "why") if k in r} for r in main},
        "obligations": sum(r["obligations"] for r in main if not bounded(r)), "discharged": sum(r["discharged"] for r in main if not bounded(r)),
        # drivers run on enumerated concrete states: never counted as proved
        "bounded_evaluations": sum(r["obligations"] for r in main if bounded(r)), "bounded_cases": sum(map(bounded, main)),
        "explanation": cfg.get("explanation", ""),
        "back_end": "z3-new (QF_BV, incremental, one query per output bit) on terms obtained by executing the compiled code over symbolic plaintexts; memory cases by complete case analysis over the addresses",
        "solver_s": round(sum(r["solver_s"] for r in main), 2),
        "checker_cmd": f"python3 /verif/check.py {prop} --tier {tier}  (harness/sym/build.sh; .build/sym/release/sym OUT CASE; z3-new -in)",
        "trusted_base": ["rustc", "z3", "vlib/encspec.py (ISA specification as bit-vector terms)", "harness/sym/overlay/sym.rs (term algebra)"] + assumed(),
        "bounds": cfg.get("bounds", []),
    }
    return len(viol), unknown, known, cov

def bounded(r): return r["case"].split(":")[0] in BOUNDED

def assumed():
    """the dependency's functions replaced by their contracts"""
    t = (ROOT / "harness/sym/mkpoulpy.py").read_text()
    fs = re.findall(r'^ \("(hal|core|schemes)", "([\w/.]+)", "(\w+)"', t, re.M)
    return ["assumed contract on the dependency: poulpy-%s %s::%s" % x for x in fs]

def report(prop, viol):
    rnd = random.Random(int(os.environ.get("VERIF_SEED", "1") or 1))
    lines, done, tries, deadline = [], False, 0, time.time() + 360
    def cost(r):
        m = re.search(r"cycle (\d+) of random", r["why"][0])
        return int(m.group(1)) // 3 if m else 0
    for r in sorted(viol, key=lambda r: (cost(r), int(r["case"].split(":")[2]) if r["case"].split(":")[2].isdigit() else 0, len(r["case"]))):
        print(f"failed obligation of {r['case']}: {'; '.join(r['why'])}", flush=True)
        rep, v, text = False, None, "not attempted"
        if not done and tries < 4 and time.time() < deadline:
            tries += 1
            try: rep, v, text = confirm(r, rnd, deadline)
            except Exception as e: text = repr(e)   # the verdict stands without a replay
        f = replay_file(prop, fname(r["case"]), {"property": prop, "case": r["case"], "failed_obligations": r["why"], "input": v or r["input"],
            "replayed_on_real_code": rep, "native_output": text, "how": "cargo run --release in harness/replay: enc <case> <name=value,...>"})
        if rep and not done:
            done = True
            print(f"VIOLATION property={prop} replay={f}", flush=True)
        elif not done: lines.append(f"VIOLATION property={prop} replay={f} no-failing-input-found")
    if not done:
        for l in lines[:5]: print(l, flush=True)
