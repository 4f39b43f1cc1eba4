#!/bin/bash
# runs the property's check (or $CHECKS) against each seeded change (args: ids; default all); prints a table
cd "$(dirname "$0")/.."
for b in ${@:-$(ls seeded)}; do
  p=$(python3 -c "import json;print(json.load(open('seeded/$b/meta.json'))['property'])")
  git -C /repo apply /verif/seeded/$b/patch.diff || { echo "$b does not apply"; continue; }
  for c in ${CHECKS:-$p}; do
    s=$(date +%s); timeout 900 ./check $c > /tmp/try.out 2>&1; rc=$?
    echo "$b $c rc=$rc $(($(date +%s)-s))s $(grep -m1 VIOLATION /tmp/try.out | cut -c1-60)"
  done
  git -C /repo checkout -q -- .
done
