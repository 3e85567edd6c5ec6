#!/bin/bash
# seedcheck.sh id... : run the property's check against each planted bug, in /repo, and undo it
for id in "$@"; do
  d=/verif/seeded/$id
  p=$(python3 -c "import json;print(json.load(open('$d/meta.json'))['property'])")
  git -C /repo apply $d/patch.diff || { echo "$id: does not apply"; continue; }
  out=$(cd /verif && timeout 900 python3 run.py check $p 2>&1); rc=$?
  git -C /repo checkout -- .
  echo "$id $p rc=$rc $(echo "$out" | grep -A1 VIOLATION | head -2 | tail -1 | cut -c1-200) | $(echo "$out" | tail -1)"
done
