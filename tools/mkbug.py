#!/usr/bin/env python3
"""mkbug.py ID PROPERTY NEEDS BREAKS FILE <<< python-dict-less edit script:
reads from stdin blocks separated by lines '=====' and '-----':  old text ----- new text (===== next edit; '@@file' first line switches file)"""
import sys, json, pathlib, subprocess, tempfile, shutil
bid, prop, needs, breaks = sys.argv[1:5]
edits = sys.stdin.read().split("\n=====\n")
w = tempfile.mkdtemp(prefix="mkbug")
subprocess.check_call(["git", "-C", "/repo", "worktree", "add", "-q", "--detach", w + "/r", "HEAD"])
try:
    f = None
    for e in edits:
        if e.startswith("@@"):
            l, e = e.split("\n", 1); f = pathlib.Path(w, "r", l[2:].strip())
        old, new = e.split("\n-----\n")
        new = new.rstrip("\n") if not old.endswith("\n") else new
        s = f.read_text()
        assert s.count(old) == 1, (s.count(old), old)
        f.write_text(s.replace(old, new))
    d = subprocess.run(["git", "-C", w + "/r", "diff"], capture_output=True, text=True).stdout
finally:
    subprocess.call(["git", "-C", "/repo", "worktree", "remove", "--force", w + "/r"])
    shutil.rmtree(w, ignore_errors=True)
o = pathlib.Path("/verif/seeded", bid); o.mkdir(parents=True, exist_ok=True)
(o / "patch.diff").write_text(d)
(o / "meta.json").write_text(json.dumps({"property": prop, "needs": needs, "what_it_breaks": breaks}, indent=1) + "\n")
print(d)
