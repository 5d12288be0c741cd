#!/bin/bash
# tools/catch.sh id... : applies each planted bug, runs its property's quick check, undoes it
for i in "$@"; do
  d=/verif/seeded/$i
  p=$(python3 -c "import json;print(json.load(open('$d/meta.json'))['property'])")
  git -C /repo apply $d/patch.diff || { echo "$i: does not apply"; continue; }
  (cd /verif; bin/check $p quick) > /tmp/catch_$i.log 2>&1; rc=$?
  git -C /repo checkout -- .
  echo "$i $p rc=$rc $(grep -m1 VIOLATION /tmp/catch_$i.log)"
done
