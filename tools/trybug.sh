#!/bin/bash
# trybug.sh ID...: apply a seeded change to /repo, run its property's check, restore.
for i in "$@"; do
  d=/verif/seeded/$i
  p=$(python3 -c "import json;print(json.load(open('$d/meta.json'))['property'])")
  git -C /repo apply "$d/patch.diff" || { echo "$i: does not apply"; continue; }
  out=$(python3 /verif/run.py $p 2>&1); rc=$?
  git -C /repo checkout -- .
  echo "$i $p rc=$rc $(echo "$out" | grep -c '^VIOLATION')"
  echo "$out" | grep -v KNOWN-FINDING | cut -c1-260 | sed -n 2,4p
done
