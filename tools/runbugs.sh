#!/bin/bash
# Apply each planted change to /repo in turn, run the check of its property (quick), undo it, print the result.
cd /verif
for b in ${@:-$(ls seeded)}; do
  p=$(python3 -c "import json;print(json.load(open('seeded/$b/meta.json'))['property'])")
  grep -q "\"$p\"" <(python3 -c "import json;print(json.dumps([c.get('property') or c.get('id') for c in json.load(open('MANIFEST.json'))['checks']]))") || { echo "$b: no check for $p"; continue; }
  git -C /repo apply /verif/seeded/$b/patch.diff || { echo "$b: patch fails"; continue; }
  s=$(date +%s); o=$(VERIF_SEED=1 timeout 900 python3-vt check.py $p quick 2>&1); rc=$?
  git -C /repo checkout -q -- .
  v=$(echo "$o" | grep -c "^VIOLATION property=$p")
  echo "$b: rc=$rc violation=$v $(( $(date +%s)-s ))s $(if [ $rc = 1 -a $v -gt 0 ]; then echo CAUGHT; else echo MISSED; echo "$o" | tail -3 | cut -c1-300; fi)"
done
