#!/usr/bin/env python3
"""Writes MANIFEST.json from vlib/config.py."""
import json, pathlib, subprocess, sys
R = pathlib.Path(__file__).resolve().parent
sys.path.insert(0, str(R))
from vlib.config import CHECKS, NOT_APPLICABLE
hooks = subprocess.run(["git", "-C", "/repo", "log", "--format=%H", "--grep=^verif hook"], capture_output=True, text=True).stdout.split()
TECH = {"kani": "contract-based deductive verification: named pre/postconditions on the real functions, discharged by Kani/CBMC for all inputs",
        "enc": "contract-based deductive verification: the real encrypted-side code runs over a term algebra (assumed contracts on the FHE primitives) and each postcondition is discharged by SMT",
        "both": "contract-based deductive verification: named pre/postconditions on the real functions discharged by Kani/CBMC (cleartext half); the encrypted half as a bounded stand-in, its postconditions evaluated on the real code over assumed FHE contracts"}
BOUNDED = "bounded stand-in for contract-based deductive verification: the postcondition is evaluated on the real code over an enumerated family of states, sizes and layouts"
m = {"version": 1, "setup_cmd": "bash /verif/setup.sh",
  "hooks": {"guard": "cfg(any(kani, phantom_verif))", "enable": "cargo kani, or RUSTFLAGS='--cfg phantom_verif', with PHANTOM_VERIF_SRC=/verif/contracts", "source_commits": hooks},
  "checks": [], "not_applicable": [{"property": k, "reason": v} for k, v in NOT_APPLICABLE.items()],
  "notes": "check.py decides one property; exit 2 means no answer (never an alarm). Known findings: known_findings.json."}
for k, c in CHECKS.items():
    m["checks"].append({"property": k, "quick_cmd": f"python3 /verif/check.py {k} --tier quick", "thorough_cmd": f"python3 /verif/check.py {k} --tier thorough",
        "technique": BOUNDED if k in ("C18", "C19") else TECH[c["engine"]], "level": c["level"], "level_note": "; ".join(c["assumptions"] + c.get("bounds", []))})
(R / "MANIFEST.json").write_text(json.dumps(m, indent=1) + "\n")
