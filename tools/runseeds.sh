#!/bin/bash
# Runs the checks of the planted bugs' properties (or all given with -a) against each planted bug.
cd /verif
for d in ${@:-seeded/*}; do
  d=seeded/$(basename $d); p=$(python3 -c "import json;print(json.load(open('$d/meta.json'))['property'])")
  git -C /repo apply $PWD/$d/patch.diff || { echo "$d: patch does not apply"; continue; }
  s=$SECONDS; out=$(VERIF_SEED=1 bash bin/check $p 2>&1); rc=$?
  git -C /repo checkout -- .
  echo "$(basename $d) $p rc=$rc $((SECONDS-s))s $(echo "$out" | grep -m1 VIOLATION)"
done
