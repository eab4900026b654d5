#!/bin/bash
# catch.sh BUG...: applies each planted bug to a scratch copy of /repo and runs its property's check against the copy
for b in "$@"; do
  W=/tmp/seed/c.$b; rm -rf "$W"; cp -a /repo "$W"
  git -C "$W" apply /verif/seeded/$b/patch.diff || { echo "$b: patch does not apply"; continue; }
  V=/tmp/seed/v.$b; rm -rf "$V"; mkdir "$V"
  cp -r /verif/{engine,harness,shim,fake,run.py,checks.py,known_findings.txt,properties.jsonl,MANIFEST.json} "$V"; mkdir -p "$V/evidence"
  P=$(python3 -c "import json;print(json.load(open('/verif/seeded/$b/meta.json'))['property'])")
  for p in ${CHECKS:-$P}; do
    ( cd "$V"; t=$(date +%s); INK_REPO=$W python3 run.py $p quick > out.$p 2>&1; rc=$?; echo "$b $p rc=$rc $(( $(date +%s)-t ))s $(grep -h VIOLATION out.$p | head -2 | cut -c1-200 | tr '\n' ' ')" )
  done
  rm -rf "$W" "$V"
done
