"""Contracts discharged by Kani (CBMC) on the crates of /repo, compiled from the working tree."""
import json, re, shutil, time
from .common import *

CRATES = {
    # name: (package args, working directory, prefix of harness paths, target dir)
    "fhevm": (["-p", "fhevm", "--lib"], REPO, "verif::", "kani"),
    "testvm": (["-p", "compiler", "--lib"], REPO, "interpreter::testvm::verif::", "kani"),
    "alloc": (["--lib"], ROOT / "harness/alloc", "rt::verif::", "kani-alloc"),
}

INCONCLUSIVE_CHECK = re.compile(r"unwinding assertion|is not currently supported by Kani|unsupported|recursion unwinding")

def gen_alloc():
    """Copy the guest runtime next to the alloc harness. Dropped: the `#![no_std]` and
    `#[global_allocator]` attribute lines; everything else is the source as it stands."""
    gen = ROOT / "harness/alloc/src/gen"
    if gen.exists(): shutil.rmtree(gen)
    gen.mkdir(parents=True)
    for f in sorted((REPO / "runtime/src").glob("*.rs")):
        if f.name == "main.rs": continue
        t = f.read_text()
        if f.name == "lib.rs":
            t = "\n".join(l for l in t.splitlines() if l.strip() not in ("#![no_std]", "#[global_allocator]"))
            t += '\npub mod verif { include!(concat!(env!("PHANTOM_VERIF_SRC"), "/alloc.rs")); }\n'
        (gen / f.name).write_text(t)

def parse(out, prefix):
    """-> {harness: dict(status, failed:[check...], checks, time, covers)}"""
    res, cur, blk = {}, {}, None
    for line in out.splitlines():
        m = re.match(r"(?:Thread (\d+): )?Checking harness (\S+?)\.\.\.", line)
        if m:
            cur[m.group(1)] = m.group(2)
            res[m.group(2)] = {"status": None, "failed": [], "checks": 0, "time": 0.0, "covers": None}
            blk = m.group(2) if m.group(1) is None else None
            continue
        m = re.match(r"Thread (\d+):\s*$", line)
        if m: blk = cur.get(m.group(1)); continue
        if blk is None: continue
        r = res[blk]
        m = re.match(r"\s*\*\* (\d+) of (\d+) failed", line)
        if m: r["checks"] = int(m.group(2)); continue
        m = re.match(r"\s*\*\* (\d+) of (\d+) cover properties", line)
        if m: r["covers"] = (int(m.group(1)), int(m.group(2))); continue
        m = re.match(r"Failed Checks: (.*)", line)
        if m: r["failed"].append(m.group(1).strip()); continue
        m = re.match(r"VERIFICATION:- (\w+)", line)
        if m: r["status"] = m.group(1); continue
        m = re.match(r"Verification Time: ([\d.]+)s", line)
        if m: r["time"] = float(m.group(1)); continue
        if "CBMC failed" in line or "timed out" in line or "out of memory" in line: r["tool"] = line.strip()
    return res

def command(crate, names, opts):
    args, cwd, prefix, tdir = CRATES[crate]
    cmd = ["cargo", "kani"] + args + ["--target-dir", str(BUILD / tdir), "--output-format", "terse", "--exact",
           "--no-assertion-reach-checks"]
    for n in names: cmd += ["--harness", prefix + n]
    return cmd + opts

def invoke(crate, names, timeout, jobs=8, opts=()):
    _, cwd, prefix, _ = CRATES[crate]
    cmd = command(crate, names, list(opts) + ["-Z", "unstable-options", "--harness-timeout", f"{int(timeout)}s"]
                  + (["-j", str(jobs)] if len(names) > 1 else []))
    rc, out = run(cmd, min(timeout * max(1, (len(names) + jobs - 1) // jobs) + 240, 20 * timeout if timeout > 400 else 700), cwd=cwd)
    res = parse(out, prefix)
    if not res:
        raise Inconclusive("the verifier did not start (the tree does not compile under it, or an anchor is gone):\n"
                           + "\n".join(l for l in out.splitlines() if not l.startswith("warning"))[-3500:])
    return {k[len(prefix):]: v for k, v in res.items()}, " ".join(cmd), out

def named(checks):
    return [c for c in checks if c.startswith("OB ")]

def counted(name, r):
    return named(r["failed"]) if "_partial" in name else r["failed"]

def judge(name, r):
    """'ok' | 'fail' | 'unknown'. In a *_partial harness a panic of the code is a refusal."""
    if r["status"] is None or (r.get("tool") and not r["failed"]): return "unknown"
    bad = counted(name, r)
    if any(INCONCLUSIVE_CHECK.search(c) for c in r["failed"]): return "unknown"
    if bad: return "fail"
    if r["status"] != "SUCCESSFUL" and "_partial" not in name: return "unknown"
    if not r["covers"] or r["covers"][0] != r["covers"][1] or r["covers"][1] == 0: return "vacuous"
    return "ok"

def playback(crate, name, timeout):
    """Concrete inputs for a failed harness: list of value lists."""
    _, cwd, prefix, _ = CRATES[crate]
    cmd = command(crate, [name], ["-Z", "concrete-playback", "--concrete-playback=print"])
    rc, out = run(cmd, timeout, cwd=cwd)
    vecs = []
    for m in re.finditer(r"let concrete_vals: Vec<Vec<u8>> = vec!\[(.*?)\n\s*\];", out, re.S):
        vals = [[int(x) for x in v.split(",") if x.strip()] for v in re.findall(r"vec!\[([\d,\s]*)\]", m.group(1))]
        vecs.append(vals)
    return vecs

def native(crate, name, vals, timeout=600):
    """Replay one concrete input against the real code, natively. -> (reproduced, text)"""
    arg = ";".join(",".join(map(str, v)) for v in vals)
    if crate == "alloc":
        cwd, tdir = ROOT / "harness/alloc", "native-alloc"
    else:
        cwd, tdir = ROOT / "harness/replay", "native"
    e = env(RUSTFLAGS="-C target-feature=+avx2,+fma --cfg phantom_verif -A warnings", RUSTUP_TOOLCHAIN="nightly-2025-12-08")
    rc, out = run(["cargo", "run", "--offline", "-q", "--target-dir", str(BUILD / tdir), "--", crate, name, arg], timeout, cwd=cwd, env_=e)
    m = re.search(r"^REPLAY (\w+)(.*)$", out, re.M)
    if not m:
        # the code under contract aborted the process: a failed obligation if one was reported before or no refusal is allowed
        bad = re.findall(r"^REPLAY-OB (.*)$", out, re.M)
        if bad or ("SIGABRT" in out and "_partial" not in name): return True, "REPLAY FAILS " + " ".join(bad or ["abort in the code under contract"]) + "\n" + out[-800:]
        return False, out[-1500:]
    return m.group(1) == "FAILS", m.group(0) + "\n" + out[-800:]

def check(prop, cfg, tier):
    """cfg: list of (crate, harness, {opts}); probes: known-finding harnesses"""
    t0 = time.time()
    todo = [h for h in cfg["harnesses"] if tier == "thorough" or not h.get("thorough")]
    probes = cfg.get("probes", [])
    # quick runs answer within their time: the second attempt gets what is left
    limit, total = (900, 36000) if tier == "thorough" else (360, 760)
    per, cmds, viol, unknown, known, soft = {}, [], [], [], [], []
    groups = {}
    for h in todo + [dict(p, probe=True) for p in probes]:
        groups.setdefault((h["crate"], tuple(h.get("opts", ()))), []).append(h)
    if any(c == "alloc" for c, _ in groups): gen_alloc()
    for (crate, opts), hs in groups.items():
        names = [h["name"] for h in hs]
        res, cmd, out = invoke(crate, names, limit, jobs=cfg.get("jobs", 8), opts=opts)
        cmds.append(cmd)
        for h in hs:
            n = h["name"]
            r = res.get(n)
            if r is None: raise Inconclusive(f"harness {n} is missing from the verifier's output\n{out[-2000:]}")
            v = judge(n, r)
            if v == "unknown" and not h.get("soft"):
                left = min(limit, total - (time.time() - t0))
                r2 = retry(crate, n, r, left) if left > 60 else None
                if r2: r, v = r2, judge(n, r2)
            per[n] = dict(r, verdict=v, crate=crate, probe=bool(h.get("probe")))
            if h.get("probe"):
                if v == "fail": known.append(h)
                elif v != "ok": unknown.append(n)
            elif v == "fail": viol.append((crate, n, r))
            # soft: the solver may give up on it; other harnesses bound the same contract
            elif v == "unknown" and h.get("soft"): soft.append(n)
            elif v in ("unknown", "vacuous"): unknown.append(n)
    cov = {
        "functions_under_contract": cfg["functions"],
        "harnesses": {n: {"verdict": r["verdict"], "checks": r["checks"], "failed": r["failed"], "solver_s": r["time"],
                          "reachability": r["covers"]} for n, r in per.items()},
        "not_discharged": soft,
        "obligations": sum(r["checks"] for r in per.values() if not r["probe"]),
        "discharged": sum(r["checks"] - len(counted(n, r)) for n, r in per.items() if not r["probe"] and r["verdict"] == "ok"),
        "refusals": sorted({c for n, r in per.items() if "_partial" in n for c in r["failed"] if not c.startswith("OB ")}),
        "back_end": "Kani 0.68 / CBMC 6.11 (CaDiCaL; z3 where stated in the harness)",
        "solver_s": round(sum(r["time"] for r in per.values()), 2),
        "checker_cmd": " ; ".join(cmds),
        "trusted_base": ["Kani's translation of Rust MIR to CBMC", "CBMC", "the SAT/SMT solver", "contracts/spec.rs (the ISA specification)"],
        "bounds": cfg.get("bounds", []),
    }
    return viol, unknown, known, cov, per, t0

def retry(crate, n, r, limit):
    """One more attempt with a deeper unwinding or another solver."""
    if any("unwinding" in c for c in r["failed"]):
        res, _, _ = invoke(crate, [n], limit, opts=("--unwind", "140"))
        return res.get(n)
    if r["status"] is None or r.get("tool"):
        res, _, _ = invoke(crate, [n], limit, opts=("--solver", "kissat"))
        return res.get(n)
    return None

def report(prop, viol, quiet=False):
    """Replay the failed obligations on the real code until one reproduces, and print the VIOLATION line."""
    lines, done = [], bool(quiet)   # quiet: a failing input is known already
    for crate, n, r in viol:
        bad = counted(n, r)
        print(f"failed obligation(s) of {n}: {', '.join(bad[:6])}", flush=True)
        rep, text, used = False, "not attempted: another failed obligation already has a replay", None
        if not done:
            try:
                for vals in playback(crate, n, 300)[:8]:
                    ok, text = native(crate, n, vals)
                    if ok: rep, used = True, vals; break
            except Exception as e:   # the verdict stands without a replay
                text = repr(e)
        f = replay_file(prop, n, {"property": prop, "harness": n, "crate": crate, "failed_obligations": bad,
            "input": used, "replayed_on_real_code": rep, "native_output": text,
            "how": "cargo run in harness/replay (or harness/alloc) with: <crate> <harness> <v,v;v,v...>"})
        if rep:
            done = True
            lines = []
            print(f"VIOLATION property={prop} replay={f}", flush=True)
        elif not done: lines.append(f"VIOLATION property={prop} replay={f} no-failing-input-found")
    return [] if done else lines   # the caller may still find a failing input elsewhere
