#!/bin/bash
# seedtests.sh [ids]: the stable tests with each planted bug, in a scratch copy -> /tmp/seedtests.log
cd /verif/seeded
for id in ${@:-*}; do
  W=/tmp/seedt$SUF; rm -rf /tmp/seedt$SUF; git clone -q /repo $W; git -C $W apply /verif/seeded/$id/patch.diff || { echo "$id NOAPPLY"; continue; }
  sed "s#/repo#$W#g; s#/opt/vp/reports#/tmp/seedt$SUF.reports#g" /opt/vp/test.sh > /tmp/seedt$SUF.sh
  bash /tmp/seedt$SUF.sh /tmp/seedt$SUF.json > /dev/null 2>&1
  python3 - $id <<'P' >> /tmp/seedtests.log
import json,sys
b=json.load(open('/opt/vp/BASELINE.json'))['stable']; r=json.load(open('/tmp/seedt'+__import__('os').environ.get('SUF','')+'.json'))
p=set(r.get('passed', [])) if isinstance(r.get('passed'), list) else {k for k,v in r.items() if v in ('passed','pass',True)}
miss=[x for x in b if x not in p]
print(sys.argv[1], 'stable', len(b), 'not passing', len(miss), miss[:6])
P
done
rm -rf /tmp/seedt$SUF
