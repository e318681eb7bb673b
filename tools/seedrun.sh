#!/bin/bash
# seedrun.sh [ID...]: runs each planted bug's property check against a scratch copy with the bug
cd /verif
for i in ${@:-$(ls seeded)}; do
  p=$(python3 -c "import json;print(json.load(open('/verif/seeded/$i/meta.json'))['property'])")
  d=$(mktemp -d /tmp/sr.XXXX); git clone -q /repo $d/r; git -C $d/r apply /verif/seeded/$i/patch.diff || echo PATCH
  s=$(date +%s)
  python3-vt run.py --property $p --repo $d/r > $d/out 2>&1; rc=$?
  echo "$i $p rc=$rc $(( $(date +%s) - s ))s $(grep VIOLATION $d/out | head -2 | cut -c1-220)"
  rm -rf "$d"
done
