#!/bin/bash
# detect.sh ID [PROP]: run the property's check on a patched copy
id=$1; p=${2:-$(python3 -c "import json;print(json.load(open('/verif/seeded/$id/meta.json'))['property'])")}
D=/tmp/sd/d_$id; rm -rf $D; mkdir $D; cp -a /repo/vir $D/; cp -a /repo/.git $D/ 2>/dev/null
(cd $D && git apply --include='vir/*' /verif/seeded/$id/patch.diff) || echo NOAPPLY
V=/tmp/sd/v_$id; rm -rf $V; mkdir $V; cp -a /verif/engine /verif/checks /verif/run.py /verif/known-findings.txt $V/; mkdir $V/evidence
(cd $V && VP_REPO=$D timeout 900 python3 run.py $p quick > /tmp/sd/det_$id.txt 2>&1; echo "$id $p rc=$? $(grep -c VIOLATION /tmp/sd/det_$id.txt)")
rm -rf $D $V
