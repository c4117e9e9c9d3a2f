#!/bin/bash
# test.sh ID: stable tests with the patch, in a private mount namespace
id=$1; C=/tmp/sd/c_$id
rm -rf $C; cp -a /repo $C; rm -rf $C/_build $C/testsuite/build-*
git -C $C apply /verif/seeded/$id/patch.diff || { echo "$id NOAPPLY"; exit; }
unshare -m bash -c "mount --bind $C /repo && nice bash /opt/vp/test.sh /tmp/sd/out_$id.json > /tmp/sd/log_$id 2>&1"
python3 - <<P
import json
b=set(json.load(open('/opt/vp/BASELINE.json'))['stable']); p=set(json.load(open('/tmp/sd/out_$id.json'))['passed'])
f=sorted(b-p); print('$id', 'PASS' if not f else 'FAIL %d %s'%(len(f),f[:4]))
P
rm -rf $C
