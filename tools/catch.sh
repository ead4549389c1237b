#!/bin/bash
# catch.sh ID...: apply each planted bug to /repo, run its property's check, undo it.
cd /verif
for id in "$@"; do
  d=/verif/seeded/$id
  p=$(python3 -c "import json;print(json.load(open('$d/meta.json'))['property'])")
  git -C /repo apply $d/patch.diff || { echo "$id: does not apply"; continue; }
  s=$(date +%s)
  timeout 900 python3 run.py $p > /tmp/plant/catch-$id.log 2>&1; rc=$?
  git -C /repo checkout -q -- .
  n=$(grep -c "^VIOLATION property=$p" /tmp/plant/catch-$id.log)
  echo "$id $p rc=$rc violations=$n $(( $(date +%s)-s ))s $( [ $rc = 1 ] && echo CAUGHT || echo MISSED )"
done
