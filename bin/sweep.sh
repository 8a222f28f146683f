#!/bin/bash
# development aid: runs the check of each planted bug (arguments: ids, default all) with the bug applied to /repo
cd /verif
for d in ${@:-$(ls seeded)}; do
  p=$(python3 -c "import json;print(json.load(open('seeded/$d/meta.json'))['property'])")
  git -C /repo apply /verif/seeded/$d/patch.diff || { echo "$d does not apply"; continue; }
  S=$(date +%s); timeout 900 python3 bin/check.py $p > .build/out/sweep.$d.log 2>&1; rc=$?
  git -C /repo checkout -q -- .
  echo "$d $p rc=$rc $(grep -c "VIOLATION property=$p" .build/out/sweep.$d.log) $(( $(date +%s) - S ))s $(grep -m1 -i "violat\|ERROR" .build/out/sweep.$d.log | cut -c1-150)"
done
