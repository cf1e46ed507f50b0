#!/bin/bash
# runseeds.sh [id...]: applies each planted bug to /repo, runs its property's check, reverts
cd "$(dirname "$0")/.."
ids="$*"; [ -z "$ids" ] && ids=$(ls seeded)
for i in $ids; do
  p=$(python3 -c "import json;print(json.load(open('seeded/$i/meta.json'))['property'])")
  git -C /repo apply "$PWD/seeded/$i/patch.diff" || { echo "$i: does not apply"; continue; }
  out=$(python3 check.py $p quick 2>&1); rc=$?
  git -C /repo checkout -- .
  echo "$i rc=$rc $(echo "$out" | grep -m1 VIOLATION) $(grep -c 'FAILED OBLIGATION' replay/$p.txt 2>/dev/null) obligations"
done
