#!/bin/bash
# seedchecks.sh [ids]: the check of each planted bug's property on a scratch copy with the bug -> /tmp/seedchecks.log
cd /verif/seeded
for id in ${@:-*}; do
  W=/tmp/seedc$SUF; rm -rf /tmp/seedc$SUF; git clone -q /repo $W; git -C $W apply /verif/seeded/$id/patch.diff || { echo "$id NOAPPLY"; continue; }
  P=$(python3 -c "import json;print(json.load(open('/verif/seeded/$id/meta.json'))['property'])")
  VP_REPO=$W python3-vt /verif/check.py $P > /tmp/seedc$SUF.out 2>&1; rc=$?
  echo "$id $P rc=$rc $(grep -c 'obligation .* refuted' /tmp/seedc$SUF.out) refuted; $(grep VIOLATION /tmp/seedc$SUF.out | grep -o 'no-failing.*'; grep -v '^VIOL\|^KNOWN\|obligation' /tmp/seedc$SUF.out | head -1 | cut -c1-160)" >> /tmp/seedchecks.log
done
rm -rf /tmp/seedc$SUF
