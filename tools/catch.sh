#!/bin/bash
# run each planted bug's own check against a scratch copy with the bug (development only)
export ZB=1
for id in ${@:-$(ls /verif/seeded)}; do
  p=$(python3 -c "import json;print(json.load(open('/verif/seeded/$id/meta.json'))['property'])")
  d=$(mktemp -d /tmp/catch-XXXX); cp -r /repo/zoidberg $d/; (cd $d && patch -s -p1 < /verif/seeded/$id/patch.diff)
  s=$(date +%s); out=$(ZOIDSIM_REPO=$d python3 /verif/check.py $p --no-evidence 2>&1); rc=$?
  echo "$id $p rc=$rc $(( $(date +%s) - s ))s $(echo "$out" | grep -m1 '^run ' | cut -c1-140)"
  rm -rf -- "$d"
done
