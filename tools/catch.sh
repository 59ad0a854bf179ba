#!/bin/bash
# Development tool: apply planted bugs to /repo one by one and run checks.
# usage: catch.sh "ID ID ..." [check ...]   default check: the bug's own property
cd /verif
for id in $1; do
  d=/verif/seeded/$id; [ -f $d/patch.diff ] || continue
  p=$(python3 -c "import json;print(json.load(open('$d/meta.json'))['property'])")
  git -C /repo diff --quiet || { echo "/repo is dirty"; exit 1; }
  git -C /repo apply $d/patch.diff || { echo "$id does not apply"; continue; }
  for c in ${2:-$p}; do
    t0=$(date +%s.%N)
    VERIF_SEED=${SEED:-1} bash run.sh $c ${TIER:-quick} > /tmp/plant/out.txt 2>&1; rc=$?
    t1=$(date +%s.%N)
    m=$(grep -v '^case:\|^VIOLATION\|^   ' /tmp/plant/out.txt | head -1 | cut -c1-130)
    echo "$id $c rc=$rc $(python3 -c "print('%.0fs'%($t1-$t0))") $m"
  done
  git -C /repo checkout -q -- .
done
