#!/bin/bash
# multi.sh TAG ids...: all patches together
tag=$1; shift; C=/tmp/sd/c_$tag
rm -rf $C; cp -a /repo $C; rm -rf $C/_build $C/testsuite/build-*
for i in $*; do git -C $C apply /verif/seeded/$i/patch.diff || git -C $C apply -C1 /verif/seeded/$i/patch.diff || echo "$i NOAPPLY"; done
unshare -m bash -c "mount --bind $C /repo && bash /opt/vp/test.sh /tmp/sd/out_$tag.json > /tmp/sd/log_$tag 2>&1"
python3 - <<P
import json
b=set(json.load(open('/opt/vp/BASELINE.json'))['stable']); p=set(json.load(open('/tmp/sd/out_$tag.json'))['passed'])
f=sorted(b-p); print('$tag', 'PASS' if not f else 'FAIL %d %s'%(len(f),f[:60]))
P
rm -rf $C
