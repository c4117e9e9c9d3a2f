#!/bin/bash
# mut.sh PROP file 'python-expr on s'  : apply python edit to copy and run check
D=/tmp/sd/m_$$; rm -rf $D; mkdir $D; cp -a /repo/vir $D/
python3 - "$D/$2" "$3" <<'P'
import sys
f,e=sys.argv[1:3]; s=open(f).read(); t=eval(e); assert t!=s,"no change"; open(f,'w').write(t)
P
[ $? = 0 ] || { rm -rf $D; exit; }
V=/tmp/sd/mv_$$; rm -rf $V; mkdir $V; cp -a /verif/engine /verif/checks /verif/run.py /verif/known-findings.txt $V/; mkdir $V/evidence
(cd $V && VP_REPO=$D timeout 900 python3 run.py $1 quick > /tmp/sd/mut.txt 2>&1; echo "$1 rc=$? $(grep -c VIOLATION /tmp/sd/mut.txt) $(grep -m1 -B1 VIOL /tmp/sd/mut.txt | head -1 | cut -c1-200)")
rm -rf $D $V
