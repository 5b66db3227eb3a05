#!/bin/bash
# trial.sh ID...: apply each planted bug to /repo, run its property's check, undo
cd /verif
for i in "$@"; do
  s=seeded/$(basename $i); p=$(python3 -c "import json;print(json.load(open('$s/meta.json'))['property'])")
  git -C /repo apply /verif/$s/patch.diff || { echo "$i does not apply"; continue; }
  ./check $p quick > /tmp/trial.log 2>&1; rc=$?
  git -C /repo checkout -- .
  echo "$(basename $i) $p rc=$rc $(grep -c undischarged /tmp/trial.log) undischarged; $(grep -c FAILING: /tmp/trial.log) failing inputs; $(grep -c 'NOT VERIFIED' /tmp/trial.log) not verified; $(grep VIOLATION /tmp/trial.log | head -1)"
done
