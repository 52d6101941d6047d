#!/bin/bash
# dev tool: apply each seeded bug (or those named) to /repo, run its property's quick check, undo
cd /verif
for d in ${@:-$(ls seeded)}; do
  p=$(python3 -c "import json;print(json.load(open('seeded/$d/meta.json'))['property'])")
  git -C /repo apply seeded/$d/patch.diff 2>/dev/null || { git -C /repo apply /verif/seeded/$d/patch.diff || { echo "$d NOAPPLY"; continue; }; }
  VERIF_SEED=1 timeout 900 python3 harness/check.py $p quick > /tmp/try.out 2>&1; rc=$?
  git -C /repo checkout -- .
  echo "$d $p rc=$rc $(grep -c '^VIOLATION' /tmp/try.out) $(grep -m1 '^VIOLATION' /tmp/try.out | cut -c1-200)"
done
