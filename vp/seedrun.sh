#!/bin/bash
# seedrun.sh [ids]: apply each planted bug to /repo, run its property's quick check, undo. Not used by any check.
cd /verif
for id in ${@:-$(ls seeded)}; do
  p=$(python3 -c "import json;print(json.load(open('seeded/$id/meta.json'))['property'])")
  git -C /repo apply /verif/seeded/$id/patch.diff || { echo "$id does not apply"; continue; }
  s=$(date +%s); timeout 900 python3 vp/check.py $p quick >/tmp/seedrun.log 2>&1; rc=$?; git -C /repo checkout -q -- .
  echo "$id $p rc=$rc $(( $(date +%s)-s ))s $(grep -c '^VIOLATION' /tmp/seedrun.log) violations: $(grep -m1 VIOLATION /tmp/seedrun.log | cut -c1-160) $(grep -i -m1 'mismatch\|unconfirmed\|incomplete' /tmp/seedrun.log | cut -c1-150)"
done
