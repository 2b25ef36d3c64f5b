#!/bin/bash
# usage: run_seeded.sh [id...]: applies each planted bug to /repo in turn, runs
# the quick check of its property, undoes the bug.  Prints caught/missed.
cd "$(dirname "${BASH_SOURCE[0]}")/.." || exit 1
[ -n "$(git -C /repo status --porcelain)" ] && { echo "/repo is not clean"; exit 1; }
ids=("$@"); [ $# = 0 ] && ids=($(ls seeded))
for id in "${ids[@]}"; do
  p=$(python3 -c "import json;print(json.load(open('seeded/$id/meta.json'))['property'])")
  git -C /repo apply "$PWD/seeded/$id/patch.diff" || { echo "$id does not apply"; continue; }
  t=$SECONDS
  out=$(./check.sh ${CHECK:-$p} quick 2>&1); rc=$?
  git -C /repo checkout -q -- .
  echo "$id $p rc=$rc $((SECONDS-t))s $(echo "$out" | tail -2 | cut -c1-230 | tr '\n' ' ')"
done
