#!/bin/sh
# Applies each planted bug to /repo in turn, runs the check of its property, and undoes it.
cd "$(dirname "$0")/.." || exit 1
for d in ${*:-$(ls seeded)}; do
  p=$(python3 -c "import json;print(json.load(open('seeded/$d/meta.json'))['property'])")
  git -C /repo apply "$PWD/seeded/$d/patch.diff" || { echo "$d does not apply"; continue; }
  out=$(timeout 900 python3 check.py "$p" 2>&1); rc=$?
  git -C /repo checkout -q -- .
  case "$rc$out" in 1*VIOLATION*) echo "caught $d $p" ;; *) echo "MISSED $d $p rc=$rc: $(echo "$out" | tail -3)";; esac
done
