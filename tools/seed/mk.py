import os, json, subprocess, shutil, sys
R="/repo"; OUT="/verif/seeded"; W="/tmp/sd/wt"
SEEDS=[]
def S(id, prop, needs, breaks, edits, demo, flags="-std=gnu++20 -O2 -march=x86-64-v3", configs=None):
    SEEDS.append(dict(id=id,prop=prop,needs=needs,breaks=breaks,edits=edits,demo=demo,flags=flags,configs=configs))
SH='''#!/bin/bash
# compiles and runs demo.cpp against the headers in the current directory (/repo)
here=$(cd "$(dirname "$0")" && pwd)
tmp=$(mktemp -d) || exit 2
trap 'rm -rf "$tmp"' EXIT
%s
exit 0
'''
LINK2='''g++-13 %s -DSECOND -c -I. "$here/demo.cpp" -o "$tmp/second.o" || { echo "does not compile"; exit 1; }
g++-13 %s -I. "$here/demo.cpp" "$tmp/second.o" -o "$tmp/demo" || { echo "does not link"; exit 1; }
"$tmp/demo" || { echo "wrong result"; exit 1; }'''
LINE='''g++-13 %s -I. "$here/demo.cpp" -o "$tmp/demo" || { echo "does not compile"; exit 1; }
"$tmp/demo" || { echo "wrong result (%s)"; exit 1; }'''
exec(open(os.environ.get("SEEDS","/tmp/sd/seeds.py")).read())
only=set(sys.argv[1:])
for s in SEEDS:
    if only and s["id"] not in only: continue
    d=os.path.join(OUT,s["id"]); os.makedirs(d,exist_ok=True)
    shutil.rmtree(W,ignore_errors=True)
    os.makedirs(W)
    subprocess.check_call("git -C %s archive HEAD | tar x -C %s"%(R,W),shell=True)
    subprocess.check_call("cd %s && git init -q && git add -A && git -c user.name=a -c user.email=a@b commit -qm b"%W,shell=True)
    for f,o,n in s["edits"]:
        p=os.path.join(W,f); t=open(p).read()
        assert t.count(o)==1,(s["id"],f,t.count(o),o)
        open(p,"w").write(t.replace(o,n))
    diff=subprocess.check_output(["git","-C",W,"diff"],text=True)
    open(d+"/patch.diff","w").write(diff)
    open(d+"/demo.cpp","w").write(s["demo"].lstrip("\n"))
    cf=s["configs"] or [s["flags"]]
    open(d+"/demo.sh","w").write(SH%"\n".join((LINK2 if "SECOND" in s["demo"] else LINE)%(c,c) for c in cf)); os.chmod(d+"/demo.sh",0o755)
    json.dump({"property":s["prop"],"needs":s["needs"],"what_it_breaks":s["breaks"]},open(d+"/meta.json","w"),indent=1)
    a=subprocess.run(["bash",d+"/demo.sh"],cwd=R,capture_output=True,text=True)
    b=subprocess.run(["bash",d+"/demo.sh"],cwd=W,capture_output=True,text=True)
    print(s["id"],s["prop"],"clean",a.returncode,"patched",b.returncode,(a.stdout+a.stderr)[:300] if a.returncode else "",b.stdout[-80:].strip())
shutil.rmtree(W,ignore_errors=True)
