#!/bin/bash
# runseeds.sh [id...]: run the owning check against each planted bug in /repo
cd /verif/seeded
for id in ${@:-$(ls)}; do
  p=$(python3 -c "import json;print(json.load(open('/verif/seeded/$id/meta.json'))['property'])")
  git -C /repo apply /verif/seeded/$id/patch.diff || { echo "$id PATCH FAILS"; continue; }
  python3 /verif/run.py $p > /tmp/seedlog-$id 2>&1; rc=$?
  git -C /repo checkout -- .
  if [ $rc = 1 ] && grep -q "VIOLATION property=$p" /tmp/seedlog-$id; then echo "$id $p CAUGHT: $(head -1 /tmp/seedlog-$id | cut -c1-220)"; else echo "$id $p MISSED rc=$rc"; fi
done
