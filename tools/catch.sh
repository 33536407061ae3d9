#!/bin/bash
# tools/catch.sh ID... : applies each planted change to /repo, runs its check, undoes it.
cd /verif
for id in "$@"; do
  p=$(python3 -c "import json;print(json.load(open('seeded/$id/meta.json'))['property'])")
  git -C /repo diff --quiet || { echo "repo dirty"; exit 1; }
  git -C /repo apply "/verif/seeded/$id/patch.diff" || { echo "$id does not apply"; continue; }
  out=$(VERIF_TIER=quick timeout 900 bash run.sh "$p" 2>&1); rc=$?
  git -C /repo checkout -q -- .
  echo "$id [$p] rc=$rc $(echo "$out" | grep -c '^VIOLATION property='"$p") violations; $(echo "$out" | grep -m1 -E '^(counterexample|ERROR)' | cut -c1-200)"
done
