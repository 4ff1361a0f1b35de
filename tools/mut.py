#!/usr/bin/env python3
"""mut.py FILE.py [ID...]: run each mutant of FILE (M = [(id, prop, file, old, new[, old, new]...)]) against its property's
quick check in a private mount namespace (overlays of /repo and /verif). Results on stdout."""
import sys, os, subprocess, tempfile, pathlib, shutil, time, runpy
from concurrent.futures import ThreadPoolExecutor
M = runpy.run_path(sys.argv[1])["M"]
ids = sys.argv[2:]
SNAP = os.environ.get("VSNAP", "/verif")   # a snapshot lets /verif be edited meanwhile
J = int(os.environ.get("J", "2"))
def one(m):
    bid, props, f, *ed = m
    if ids and bid not in ids: return
    p = pathlib.Path("/repo", f); s = p.read_text()
    for a, b in zip(ed[::2], ed[1::2]):
        if isinstance(a, tuple):   # (n, text): the n-th occurrence
            q = s.split(a[1])
            s = a[1].join(q[:a[0]]) + b + a[1].join(q[a[0]:]) if len(q) > a[0] else s
            continue
        if s.count(a) != 1: print(f"{bid}: {s.count(a)} matches of {a!r}", flush=True); return
        s = s.replace(a, b)
    for prop in props.split(","):
        w = tempfile.mkdtemp(prefix="mut", dir="/tmp/mu")
        for x in ("ru", "rw", "vu", "vw"): os.mkdir(f"{w}/{x}")
        pathlib.Path(w, "new").write_text(s)
        sh = f"""mount -t tmpfs none {w}/ru 2>/dev/null; set -e
mkdir -p {w}/ru/u {w}/ru/w {w}/vu/u {w}/vu/w
mount -t overlay overlay -o lowerdir=/repo,upperdir={w}/ru/u,workdir={w}/ru/w /repo
mount -t overlay overlay -o lowerdir={SNAP},upperdir={w}/vu/u,workdir={w}/vu/w /verif
cat {w}/new > /repo/{f}; cd /verif; exec timeout 1200 python3 check.py {prop}"""
        t = time.time()
        r = subprocess.run(["unshare", "-m", "bash", "-c", sh], capture_output=True, text=True)
        o = (r.stdout + r.stderr).strip().splitlines()
        key = [l for l in o if "VIOLATION" in l][:1] + [l[:300] for l in o if l.startswith(("failed", "INCONC", "OK", "error"))][:2] or o[-4:]
        print(f"{bid} {prop} exit={r.returncode} {time.time()-t:.0f}s " + " | ".join(key), flush=True)
        shutil.rmtree(w, ignore_errors=True)
with ThreadPoolExecutor(J) as ex: list(ex.map(one, M))
