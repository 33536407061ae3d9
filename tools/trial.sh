#!/bin/bash
# tools/trial.sh DIR : confirms a planted change in a scratch copy (demo both ways, stable tests), then runs its check against /repo.
# Usage: trial.sh seeded/ID [--nocheck] [--notest]
D=$(realpath "$1"); shift
ID=$(basename "$D")
S=/tmp/trial-$ID
rm -rf "/tmp/trial-$ID"; mkdir -p "$S"; cp -a /repo/. "$S/repo"; cp -a "$D" "$S/demo"; rm -f "$S/demo/"*.diff "$S/demo/meta.json"
cd "$S/repo"
bash "$S/demo/demo.sh" >"$S/clean.log" 2>&1; echo "$ID demo clean rc=$? (want 0)"
git apply "$D/patch.diff" || { echo "$ID PATCH DOES NOT APPLY"; exit 1; }
bash "$S/demo/demo.sh" >"$S/bug.log" 2>&1; echo "$ID demo bug rc=$? (want !=0)"; tail -2 "$S/bug.log"
if [[ " $* " != *" --notest "* ]]; then
  sed -e "s#/repo#$S/repo#g" -e "s#/opt/vp/support/env.sh#$S/env.sh#" -e "s#/opt/vp/reports#$S/reports#" /opt/vp/test.sh > "$S/test.sh"
  sed -e "s#/repo#$S/repo#g" /opt/vp/support/env.sh > "$S/env.sh"
  bash "$S/test.sh" "$S/out.json" >"$S/test.log" 2>&1
  python3 - "$S/out.json" "$ID" <<'P'
import json,sys
b=json.load(open('/opt/vp/BASELINE.json')); o=json.load(open(sys.argv[1]))
def passed(x):
  for k in ('passed','stable','tests'):
    if k in x: return set(x[k])
bp,op=passed(b),passed(o)
print(sys.argv[2],'stable tests broken:',sorted(bp-op)[:6], len(bp-op),'of',len(bp))
P
fi
cd /; rm -rf "/tmp/trial-$ID"
