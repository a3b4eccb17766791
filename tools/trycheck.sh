#!/bin/bash
# trycheck.sh SEED...: applies each planted bug to /repo, runs its property's check, undoes it (authoring aid)
cd "$(dirname "$0")/.."
for s in "$@"; do
  p=$(python3 -c "import json;print(json.load(open('seeded/$s/meta.json'))['property'])")
  [ -n "$P" ] && p=$P
  git -C /repo apply "$PWD/seeded/$s/patch.diff" || continue
  out=$(python3 run.py $p 2>&1); rc=$?
  git -C /repo checkout -- .
  echo "$s $p rc=$rc $(echo "$out" | grep -c '^VIOLATION') $(echo "$out" | grep -v VIOLATION | tail -3 | cut -c1-220)"
done
