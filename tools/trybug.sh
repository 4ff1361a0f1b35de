#!/bin/bash
# trybug.sh ID...: apply each planted bug to /repo, run its property's quick check, undo
for b in "$@"; do
  p=$(python3 -c "import json;print(json.load(open('/verif/seeded/$b/meta.json'))['property'])")
  git -C /repo apply /verif/seeded/$b/patch.diff || exit 1
  s=$(date +%s); o=$(python3 /verif/check.py $p 2>&1); r=$?
  git -C /repo checkout -- .
  echo "== $b $p exit=$r $(( $(date +%s)-s ))s"; echo "$o" | tail -${L:-4}
done
