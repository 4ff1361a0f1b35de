"""Shared plumbing: paths, evidence, verdicts."""
import json, os, subprocess, sys, time, pathlib

ROOT = pathlib.Path(__file__).resolve().parent.parent
REPO = pathlib.Path(os.environ.get("VERIF_REPO", "/repo"))
BUILD = ROOT / ".build"
CONTRACTS = ROOT / "contracts"
EVID = ROOT / "evidence"

class Inconclusive(Exception):
    """The verifier gave no answer (tool failure, lost anchor, time out): neither pass nor alarm."""

def env(**extra):
    e = dict(os.environ)
    e.update(CARGO_NET_OFFLINE="true", PHANTOM_VERIF_SRC=str(CONTRACTS),
             RUSTFLAGS="-C target-feature=+avx2,+fma", CARGO_TERM_COLOR="never")
    e.pop("CARGO_TARGET_DIR", None)
    e.update(extra)
    return e

def run(cmd, timeout, cwd=None, env_=None, stdin=None):
    """Run a command in its own process group; on time-out end the whole group."""
    import signal
    p = subprocess.Popen(cmd, cwd=cwd or REPO, env=env_ or env(), stdout=subprocess.PIPE, stderr=subprocess.STDOUT,
                         stdin=subprocess.DEVNULL, text=True, errors="replace", start_new_session=True)
    try:
        out, _ = p.communicate(timeout=timeout)
        return p.returncode, out
    except subprocess.TimeoutExpired:
        try: os.killpg(p.pid, signal.SIGKILL)
        except ProcessLookupError: pass
        out, _ = p.communicate()
        return None, out

def write_evidence(prop, tier, level, coverage, assumptions, wall, violations):
    EVID.mkdir(exist_ok=True)
    d = {"property": prop, "tier": tier, "seed": int(os.environ.get("VERIF_SEED", "1") or 1), "level": level,
         "coverage": coverage, "assumptions": assumptions, "wall_s": round(wall, 2), "violations": violations}
    (EVID / f"{prop}.json").write_text(json.dumps(d, indent=1) + "\n")

def replay_file(prop, name, payload):
    d = EVID / "replay"
    d.mkdir(parents=True, exist_ok=True)
    p = d / f"{prop}-{name}.json"
    p.write_text(json.dumps(payload) + "\n")
    return p

def findings(prop):
    f = ROOT / "known_findings.json"
    if not f.exists(): return []
    return [x for x in json.loads(f.read_text())["findings"] if x["property"] == prop]
