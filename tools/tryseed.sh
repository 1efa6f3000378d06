#!/bin/bash
# tryseed.sh ID...: runs the check of each seeded change against it (in /repo, undone afterwards).
for s in "$@"; do
  p=$(python3 -c "import json;print(json.load(open('/verif/seeded/$s/meta.json'))['property'])")
  git -C /repo apply "/verif/seeded/$s/patch.diff" || { echo "$s: does not apply"; continue; }
  o=$(VERIF_SEED=1 VERIF_TIER=quick python3 /verif/tools/check.py "$p" 2>&1); rc=$?
  git -C /repo checkout -q -- .
  echo "== $s ($p) rc=$rc"; echo "$o" | grep -E "VIOLATION|failed obligation|FAILING|undecided|discharged" | cut -c1-260 | head -${N:-8}
done
