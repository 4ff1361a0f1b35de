"""Bounded complement of C21: pseudo-random heap histories on real memory, through the guest runtime's own allocator."""
import re
from concurrent.futures import ThreadPoolExecutor
from .common import *
from . import kani

def check(prop, tier):
    """-> (violations, inconclusive, evaluations, number of histories)"""
    kani.gen_alloc()
    e = env(RUSTFLAGS="--cfg phantom_verif --cfg heap_history -A warnings", RUSTUP_TOOLCHAIN="nightly-2025-12-08")
    t = BUILD / "native-heap"
    rc, out = run(["cargo", "build", "--offline", "-q", "--target-dir", str(t)], 300, cwd=ROOT / "harness/alloc", env_=e)
    if rc: raise Inconclusive("the allocator does not build on the host:\n" + out[-2000:])
    seeds = range(200 if tier == "quick" else 5000)
    def one(k): return k, run([str(t / "debug/alloc-contracts"), "history", str(k), str(40 + 37 * k % 4000)], 60, cwd=ROOT)
    bad, n = [], 0
    with ThreadPoolExecutor(8) as ex:
        for k, (rc, out) in ex.map(one, seeds):
            m = re.search(r"HISTORY OK (\d+)", out)
            if m: n += int(m.group(1))
            elif "HISTORY FAILS" in out: bad.append((k, re.search(r"HISTORY FAILS (.*)", out).group(1)))
            else: bad.append((k, "a request that fits was refused: " + out[-300:]))
    for k, why in bad[:1]:
        f = replay_file(prop, f"history_{k}", {"property": prop, "history": k, "failed_obligations": [why], "replayed_on_real_code": True,
            "how": f"cargo run in harness/alloc (--cfg heap_history): history {k} {40 + 37 * k % 4000}"})
        print(f"failed obligation of heap history {k}: {why[:400]}", flush=True)
        print(f"VIOLATION property={prop} replay={f}", flush=True)
    return len(bad), n, len(seeds)
