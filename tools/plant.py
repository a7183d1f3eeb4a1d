#!/usr/bin/env python3
"""Plants the bugs described in a Python file (list PLANTS of dicts: id, property, file, old, new, count(optional), needs, breaks, demo (C source)) in scratch copies,
checks that they build, pass the stable tests and fail their demonstration, and writes /verif/seeded/<id>.   plant.py FILE [id...] [--check]"""
import sys,os,subprocess,json,shutil,runpy
V='/verif'
DEMO='''#!/bin/bash
# exit 0: the property holds for the demonstrated history; nonzero: it does not
d=$(cd "$(dirname "$0")" && pwd); t=$(mktemp -d); trap 'rm -rf "$t"' EXIT
export ASAN_OPTIONS=detect_leaks=%d
gcc -std=gnu11 -g -O1 -w -DNDEBUG -DWITH_PTHREAD -fsanitize=address%s -I. -o "$t/demo" "$d/demo.c" ./*.c -pthread%s || exit 3
timeout 120 "$t/demo" > "$t/out" 2>&1; rc=$?; tail -5 "$t/out"; exit $rc
'''
def sh(c,**k): return subprocess.run(c,shell=True,capture_output=True,text=True,**k)
def main():
    P=runpy.run_path(sys.argv[1])['PLANTS']; ids=[a for a in sys.argv[2:] if a[0]!='-']; chk='--check' in sys.argv
    for b in P:
        if ids and b['id'] not in ids: continue
        w='/tmp/plant-'+b['id']; shutil.rmtree(w,ignore_errors=True); sh('cp -a /repo '+w); sh('git -C %s checkout -- .'%w)
        t='/tmp/plant-t-'+b['id']; shutil.rmtree(t,ignore_errors=True); shutil.copytree('/opt/vp',t)
        for f in os.listdir(t):
            p=os.path.join(t,f)
            if f.endswith('.sh') or f.endswith('.py'): s=open(p).read().replace('/repo',w).replace('/opt/vp',t); open(p,'w').write(s)
        try:
            d=V+'/seeded/'+b['id']; tmpd='/tmp/plant-d-'+b['id']; shutil.rmtree(tmpd,ignore_errors=True); os.makedirs(tmpd)
            open(tmpd+'/demo.c','w').write(b['demo']); open(tmpd+'/demo.sh','w').write(DEMO%(1 if b.get('leaks') else 0,',undefined' if b.get('ubsan') else '',b.get('ld','')))
            r0=sh('bash %s/demo.sh'%tmpd,cwd=w)
            for e in b.get('edits',[b]):
                p=os.path.join(w,e['file']); s=open(p).read(); n=s.count(e['old'])
                if n==0 or (n>1 and 'nth' not in e): print(b['id'],'EDIT does not apply once:',n); break
                k=e.get('nth',0); i=-1
                for _ in range(k+1): i=s.index(e['old'],i+1)
                s=s[:i]+e['new']+s[i+len(e['old']):]; open(p,'w').write(s)
            else:
                df=sh('git -C %s diff'%w).stdout
                o=sh('bash %s/test.sh %s/out.json'%(t,w),cwd=w); 
                base=json.load(open('/opt/vp/BASELINE.json')); res=json.load(open(w+'/out.json'))
                bp=set(base.get('passed') or base.get('stable') or base.get('tests') or []); 
                rp=set(res.get('passed') or [])
                lost=bp-rp
                sh('git -C %s checkout -- test'%w)
                r1=sh('bash %s/demo.sh'%tmpd,cwd=w)
                ok=r0.returncode==0 and r1.returncode!=0 and r1.returncode!=3 and not lost and bp
                print(b['id'],'OK' if ok else 'BAD','demo clean=%d bug=%d lost tests=%d of %d'%(r0.returncode,r1.returncode,len(lost),len(bp)),'' if ok else (r0.stdout[-300:]+r1.stdout[-300:]),flush=True)
                if ok:
                    shutil.rmtree(d,ignore_errors=True); shutil.copytree(tmpd,d); open(d+'/patch.diff','w').write(df)
                    json.dump(dict(property=b['property'],needs=b['needs'],what_it_breaks=b['breaks']),open(d+'/meta.json','w'),indent=1)
                    if chk:
                        r=sh('REPO=%s python3-vt %s/dv/check.py %s | grep -a "failed obl\\|VIOL\\|func" | tail -4 | cut -c1-220'%(w,V,b['property'])); print(r.stdout,flush=True)
        finally:
            for x in (w,t,'/tmp/plant-d-'+b['id']): shutil.rmtree(x,ignore_errors=True)
main()
