#!/bin/bash
# runseeds.sh [ID...]: runs each planted bug's own check against it, in /repo, and prints whether it is caught
cd /verif
ids="$*"; [ -n "$ids" ] || ids=$(ls seeded)
for i in $ids; do
  p=$(python3 -c "import json;print(json.load(open('seeded/$i/meta.json'))['property'])")
  git -C /repo apply /verif/seeded/$i/patch.diff || { echo "$i: does not apply"; continue; }
  s=$(date +%s)
  timeout 900 python3 check.py $p >/tmp/runseed.log 2>&1; rc=$?
  git -C /repo checkout -- .
  if [ $rc = 1 ] && grep -q "^VIOLATION property=$p " /tmp/runseed.log; then echo "$i $p CAUGHT ($(( $(date +%s)-s )) s)"; else echo "$i $p MISSED rc=$rc"; cp /tmp/runseed.log /tmp/missed-$i.log; fi
done
