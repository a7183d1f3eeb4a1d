"""Behaviour-preserving edits: every contract has to hold on each of them.  usage: refac.py CASES.py [NAME...]
CASES.py defines CASES = {name: (unit, [patterns of contracts], [(old,new),...])}; old must occur exactly once."""
import sys,os,re,subprocess,shutil,tempfile,concurrent.futures as cf,time
V=os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
def norm(x): return re.sub(r'\s+',' ',x).strip()
def sub(src,old,new):
    if old[0]=='@':   # the whole body of a function
        m=list(re.finditer(r'^%s\([^;{]*\)\n\{\n'%re.escape(old[1:]),src,re.M))
        if len(m)!=1: raise Exception('%d definitions of %s'%(len(m),old))
        e=src.index('\n}\n',m[0].end()-1); return src[:m[0].end()]+new+src[e:]
    if old[0]=='^':   # text before a function (with its type line)
        m=list(re.finditer(r'^[^\n]*\n%s\([^;{]*\)\n\{\n'%re.escape(old[1:]),src,re.M))
        return src[:m[0].start()]+new+src[m[0].start():]
    pat=r'\s*'.join(re.escape(t) for t in re.findall(r'\w+|\S',old)); m=list(re.finditer(pat,src))
    if len(m)!=1: raise Exception('%d matches of %s'%(len(m),old[:60]))
    return src[:m[0].start()]+new+src[m[0].end():]
def run(name,case):
    unit,pats,subs=case; d=tempfile.mkdtemp(prefix='refac'); t=time.time()
    try:
        r=d+'/r'; shutil.copytree('/repo',r,ignore=shutil.ignore_patterns('.git','*.o'))
        src=open(r+'/'+unit).read()
        for o,n in subs: src=sub(src,o,n)
        open(r+'/'+unit,'w').write(src)
        c=subprocess.run(['gcc','-std=gnu11','-Wall','-fsyntax-only','-I'+r,r+'/'+unit],capture_output=True,text=True)
        if c.returncode or 'warning' in c.stderr: return name,'COMPILE '+c.stderr[:400],0
        env=dict(os.environ,REPO=r,BUDGET=os.environ.get('BUDGET','400')); o=subprocess.run(['python3-vt',V+'/dv/try.py']+pats,capture_output=True,text=True,env=env)
        bad=[l[:230] for l in o.stdout.splitlines() if ' FAIL ' in l or 'MISSING' in l or l.startswith('    ') and '|' in l]
        ps=[l for l in o.stdout.splitlines() if l.startswith('persist')]; return name,' '.join(ps)+(' ok' if not bad and 'total' in o.stdout else 'FAIL\n   '+'\n   '.join(bad[:6])+o.stderr[-300:]),time.time()-t
    except Exception as e: return name,'ERROR %s'%e,0
    finally: shutil.rmtree(d,ignore_errors=True)
def main():
    g={}; exec(open(sys.argv[1]).read(),g); C=g['CASES']; names=sys.argv[2:] or list(C)
    with cf.ThreadPoolExecutor(int(os.environ.get('JOBS','6'))) as ex:
        for n,r,t in ex.map(lambda n: run(n,C[n]),names): print('%-14s %5.1fs %s'%(n,t,r),flush=True)
main()
