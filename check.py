#!/usr/bin/env python3
"""check.py <property> [--tier quick|thorough]: decide one property on /repo's working tree.
exit 0: held; exit 1: VIOLATION line printed; exit 2: no answer (tool failure, lost anchor)."""
import sys, time, pathlib, traceback
sys.path.insert(0, str(pathlib.Path(__file__).resolve().parent))
from vlib import common, config

def main():
    prop = sys.argv[1]
    tier = sys.argv[sys.argv.index("--tier") + 1] if "--tier" in sys.argv else "quick"
    cfg = config.CHECKS[prop]
    t0 = time.time()
    ev = common.EVID / f"{prop}.json"
    if ev.exists(): ev.unlink()
    try:
        n, unknown, known, cov, pending = 0, [], [], None, []
        if cfg["engine"] in ("kani", "both"):
            from vlib import kani
            viol, unknown, known, cov, per, _ = kani.check(prop, cfg, tier)
            n, seen = len(viol), 0
            if cfg.get("heap"):
                from vlib import heap
                seen, ev_, hs = heap.check(prop, tier)
                cov.update({"bounded_evaluations": ev_, "bounded_cases": hs})
            if n: pending = kani.report(prop, viol, quiet=seen)
            n += seen
        # with a failed obligation at hand, the second engine only looks for an input that fails
        if cfg["engine"] in ("enc", "both") and (not n or pending):
            from vlib import enc
            try: m, u, k, c = enc.check(prop, cfg, tier)
            except common.Inconclusive:
                if not n: raise
                m, u, k, c = 0, [], [], None
            if n and m: pending = []
            n += m
            unknown, known = unknown + u, known + k
            if c is None: c = {"obligations": 0, "discharged": 0, "solver_s": 0, "bounded_evaluations": 0, "cases": {}, "back_end": "", "checker_cmd": "", "trusted_base": []}
            if cov:   # both engines
                for x in ("obligations", "discharged", "solver_s"): cov[x] = cov.get(x, 0) + c[x]
                cov.update({"bounded_evaluations": c["bounded_evaluations"], "explanation": cfg.get("explanation", ""), "bounded_part": {x: c[x] for x in ("cases", "back_end", "checker_cmd")}, "trusted_base": cov.get("trusted_base", []) + c["trusted_base"]})
            else: cov = c
        for l in pending[:5]: print(l, flush=True)
    except common.Inconclusive as e:
        print(f"INCONCLUSIVE property={prop}: {e}")
        return 2
    for k in known:
        txt = next((f["what"] for f in common.findings(prop) if f.get("probe") == k["name"]), None)
        if txt is None:
            n += 1
            f = common.replay_file(prop, k["name"], {"harness": k["name"], "note": "finding not listed in known_findings.json"})
            print(f"VIOLATION property={prop} replay={f} no-failing-input-found")
        else: print(f"KNOWN-FINDING: property={prop} {txt}")
    common.write_evidence(prop, tier, cfg["level"], cov, cfg["assumptions"], time.time() - t0, n)
    if n: return 1
    if unknown:
        print(f"INCONCLUSIVE property={prop}: no answer for {', '.join(unknown)}")
        return 2
    print(f"OK property={prop} tier={tier} obligations={cov['obligations']} discharged={cov['discharged']} bounded_evaluations={cov.get('bounded_evaluations', 0)} wall={time.time()-t0:.0f}s")
    return 0

if __name__ == "__main__":
    sys.exit(main())
