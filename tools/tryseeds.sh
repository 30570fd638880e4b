#!/bin/bash
# tryseeds.sh [ID..]: applies each planted bug to /repo, runs the quick check of its property, undoes it
cd /verif
for d in ${@:-$(ls seeded)}; do
  p=$(/opt/venv/bin/python -c "import json;print(json.load(open('seeded/$d/meta.json'))['property'])")
  [ -f checks/$p.py ] || continue
  git -C /repo apply /verif/seeded/$d/patch.diff || { echo "$d: does not apply"; continue; }
  s=$(date +%s)
  VERIF_MAXV=1 timeout 900 /opt/venv/bin/python run.py $p quick > /tmp/try_$d.log 2>&1; rc=$?
  git -C /repo checkout -q -- .
  echo "$d $p rc=$rc $(( $(date +%s) - s ))s $(grep -m1 VIOLATION /tmp/try_$d.log | cut -c1-160)"
done
