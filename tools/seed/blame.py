import subprocess,re,os,sys
for d in sorted(os.listdir('/verif/seeded')):
    t=open('/verif/seeded/%s/patch.diff'%d).read()
    f=None; bad=[]
    for l in t.split('\n'):
        m=re.match(r'--- a/(.*)',l)
        if m: f=m.group(1); continue
        m=re.match(r'@@ -(\d+)',l)
        if m: n=int(m.group(1)); continue
        if f is None or l.startswith('+') : continue
        if l.startswith('-'):
            o=subprocess.check_output(['git','-C','/repo','blame','-L%d,%d'%(n,n),'--','%s'%f],text=True)
            if not o.startswith('^') : bad.append(o[:120])
        n+=1
    if bad: print(d,bad)
