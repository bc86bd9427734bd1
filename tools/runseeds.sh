#!/bin/bash
# run each planted bug's check in a scratch copy: tools/runseeds.sh [id...]
cd /verif
ids="$@"; [ -z "$ids" ] && ids=$(ls seeded)
for i in $ids; do
  p=$(python3 -c "import json;print(json.load(open('seeded/$i/meta.json'))['property'])")
  t=/tmp/seedrun_$i
  git clone -q /repo $t && git -C $t apply /verif/seeded/$i/patch.diff
  s=$(date +%s)
  VC_REPO=$t VC_EVIDENCE=/tmp/ev_$i timeout 900 python3-vt -m vc.run $p > /tmp/seedout_$i.txt 2>&1; rc=$?
  echo "$i $p rc=$rc $(( $(date +%s) - s ))s $(grep -c ^VIOLATION /tmp/seedout_$i.txt) $(grep ^FAILED /tmp/seedout_$i.txt | head -1 | cut -c1-160) $(grep ^VIOLATION /tmp/seedout_$i.txt | head -1 | grep -o no-failing.*)"
  rm -rf $t /tmp/ev_$i
done
