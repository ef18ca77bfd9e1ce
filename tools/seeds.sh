#!/bin/bash
# apply each planted change in turn to /repo, run the check of its property, undo it
cd "$(dirname "$0")/.."
for d in ${@:-seeded/*/}; do
  id=$(basename "$d")
  prop=$(python3 -c "import json;print(json.load(open('seeded/$id/meta.json'))['property'])")
  git -C /repo apply "$PWD/seeded/$id/patch.diff" || { echo "$id does not apply"; continue; }
  out=$(python3 check.py "$prop" $CHECK_ARGS 2>&1); rc=$?
  git -C /repo checkout -- .
  echo "$id $prop rc=$rc $(echo "$out" | grep -m1 VIOLATION) | $(echo "$out" | grep -m1 'failed obligation')"
done
