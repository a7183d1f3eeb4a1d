"""Decides one property: verifies every function it depends on against its contract, from the current source."""
import sys,os,time,json,fnmatch,multiprocessing,traceback,subprocess,importlib
sys.setrecursionlimit(10000)
HERE=os.path.dirname(os.path.abspath(__file__)); VERIF=os.path.dirname(HERE)
sys.path.insert(0,HERE)
import spec
for m in ('specs_list','specs_stack','specs_misc','specs_buffer','specs_assoc','specs_pool','specs_hash','specs_rbtree','specs_async'):
    if os.path.exists(os.path.join(HERE,m+'.py')): importlib.import_module(m)
from spec import *
from props import *
import ll
REPO=os.environ.get('REPO','/repo'); PID=None
TRUSTED=['clang 18 (C to LLVM IR, -O0 -DNDEBUG)','z3 (linear integer arithmetic with uninterpreted functions)','the verification condition generator /verif/dv','the contracts in /verif/dv/specs_*.py (they state the property)']
ASSUME=['machine arithmetic is modelled exactly (fixed width, wrapping); pointers are integers below 2^47',
 'callbacks (compare, equality, hash, free functions) are functions of their arguments, keep to their contract, return, and do not touch the container',
 'free_key and free_value are treated as distinct functions',
 'libc functions behave as modelled in dv/world.py (malloc, calloc, realloc, free, memcpy, memmove, memset, memchr, strlen, strcmp, read, abort, ...)',
 'the functions are compiled with the flags of dv/world.py; the compiler that builds the library preserves the C semantics',
 'a caller supplies objects that satisfy the precondition of the contract (initialised containers, non-NULL arguments where the header requires them)']
def funcs_of(pid):
    out=[]
    pats=PROPS[pid][0]
    for n in SPECS:
        if SPECS[n].static: continue
        if any(fnmatch.fnmatch(n,x) for x in pats if x[0]!='!') and not any(fnmatch.fnmatch(n,x[1:]) for x in pats if x[0]=='!'): out.append(n)
    return out
def verify_one(name,budget,conn,verbose=False):
    t=time.time(); r=dict(name=name,fails=[],nobl=0,ntriv=0,paths=0,returns=0,retvac=0,queries=0,unknown=0,solver=0.0,calls=[],inlined=[],labels={},loops=0,missing=False,unit=SPECS[name.split('=')[0]].unit)
    full=name; fname=name.split('=')[-1]; name=name.split('=')[0]
    v=None
    try:
        w=World(REPO,SPECS); w.load([SPECS[name].unit]); f=w.units[SPECS[name].unit].funcs.get(fname)
        if f is None:
            r['missing']=True
            if not SPECS[name].static or '=' in full: r['fails'].append(dict(label='unsupported',desc='%s is not defined in %s'%(fname,SPECS[name].unit),line=0,func=name,goal='',hard=True))
        else:
            v=Verifier(f,SPECS[name],w,budget=budget); v.relevant=PID and (lambda x: relevant(PID,x)); v.run()
            r['fails']=[{k:x.get(k) for k in('label','desc','line','func','goal','hard','trace','chunks','cells')} for x in v.fails[:20]]
            if not v.fails and v.returns-v.retvac<=0 and not getattr(SPECS[name],'noreturn',False):
                r['fails'].append(dict(label='vacuous',desc='no execution of %s satisfies its precondition and returns'%name,line=0,func=name,goal='',hard=True))
    except Exception as e:
        r['fails'].append(dict(label='unsupported',desc='the verifier could not process %s: %s'%(name,str(e)[:300]),line=0,func=name,goal='',hard=True,trace=traceback.format_exc().splitlines()[-8:]))
    if v is not None:
        r.update(nobl=v.nobl,ntriv=v.ntriv,paths=v.paths,returns=v.returns,retvac=v.retvac,queries=v.solver.queries,unknown=v.solver.unknown,solver=v.solver.time,calls=sorted(v.calls),inlined=sorted(v.inlined),loops=len(v.loops),assumed=sorted(v.assumed))
        d={}
        for (lab,desc,line),ok in v.obl.items(): d[lab]=d.get(lab,0)+1
        r['labels']=d; r['distinct']=len(v.obl)
    r['time']=time.time()-t
    conn.send(r); conn.close()
def run_all(names,budget,jobs,deadline,log=None):
    """verify the functions and every contract they rely on"""
    todo=sorted(names,key=lambda n:-COST.get(n,1)); done={}; act=[]; seen=set(todo)
    ctx=multiprocessing.get_context('fork')
    while todo or act:
        while todo and len(act)<jobs:
            n=todo.pop(0); a,b=ctx.Pipe(False); p=ctx.Process(target=verify_one,args=(n,budget,b)); p.start(); b.close(); act.append((n,p,a,time.time()))
        time.sleep(0.02); now=time.time()
        for it in list(act):
            n,p,a,t0=it; r=None
            try:
                if a.poll(): r=a.recv()
                elif not p.is_alive():
                    if a.poll(): r=a.recv()
                    else: r='died'
            except EOFError: r='died'
            if r is None and (now-t0>budget+45 or now>deadline): p.terminate(); r='timeout'
            if r is None: continue
            p.join(5); 
            if p.is_alive(): p.kill()
            act.remove(it); a.close()
            if isinstance(r,str):
                r=dict(name=n,fails=[dict(label='timeout',desc='verification of %s: %s'%(n,r),line=0,func=n,goal='',hard=True)],nobl=0,ntriv=0,paths=0,returns=0,retvac=0,queries=0,unknown=0,solver=0.0,calls=[],inlined=[],labels={},loops=0,missing=False,unit=SPECS[n].unit,time=now-t0,distinct=0)
            done[n]=r
            if log: log(r)
            for c in r['calls']:
                if c.split('=')[0] in SPECS and c not in seen: seen.add(c); todo.insert(0,c)
        if time.time()>deadline:
            for n in todo: done[n]=dict(name=n,fails=[dict(label='timeout',desc='no time left to verify %s'%n,line=0,func=n,goal='',hard=True)],nobl=0,ntriv=0,paths=0,returns=0,retvac=0,queries=0,unknown=0,solver=0.0,calls=[],inlined=[],labels={},loops=0,missing=False,unit=SPECS[n].unit,time=0,distinct=0)
            todo=[]
    return done
def relevant(pid,f):
    if f.get('hard'): return True
    return f['label'] not in PROPS[pid][1]
def main():
    global PID
    pid=PID=sys.argv[1]; tier=os.environ.get('VERIF_TIER','quick'); seed=int(os.environ.get('VERIF_SEED','1'))
    if len(sys.argv)>2: tier=sys.argv[2]
    t0=time.time(); budget=float(os.environ.get('BUDGET','480')); deadline=t0+560
    names=funcs_of(pid)
    def log(r):
        print('%-34s %s obligations=%d trivial=%d paths=%d queries=%d %.1fs'%(r['name'],'verified' if not r['fails'] else 'FAILED',r['nobl'],r['ntriv'],r['paths'],r['queries'],r['time']),flush=True)
    done=run_all(names,budget,int(os.environ.get('JOBS','8')),deadline,log)
    fails=[(n,f) for n,r in done.items() for f in r['fails'] if relevant(pid,f)]
    ignored=[(n,f) for n,r in done.items() for f in r['fails'] if not relevant(pid,f)]
    known=[]
    try: known=json.load(open(os.path.join(VERIF,'known-findings.json')))['findings']
    except FileNotFoundError: pass
    viol=0; replay=None; note=''
    if fails:
        rd=os.path.join(VERIF,'build','replay'); os.makedirs(rd,exist_ok=True); replay=os.path.join(rd,pid+'.txt')
        found=None
        try:
            import search
            found=search.search(pid,sorted({f.get('func') or n for n,f in fails}|{n for n,f in fails}),seed,max(60,min(250 if tier=='quick' else 600,840-(time.time()-t0))),rd)
        except Exception as e: note='search for a failing input failed: %s'%e
        with open(replay,'w') as h:
            h.write('property %s: failed proof obligations\n\n'%pid)
            for n,f in fails[:30]:
                h.write('OBLIGATION [%s] of %s: %s (line %s, in %s)\n   goal: %s\n'%(f['label'],n,f['desc'],f['line'],f['func'],f['goal']))
                for k in('trace','chunks','cells'):
                    if f.get(k): h.write('   %s:\n'%k+''.join('      %s\n'%x for x in f[k]))
                h.write('\n')
            h.write(('FAILING INPUT (against the real code):\n%s\n'%found) if found else 'no failing input found %s\n'%note)
        for n,f in fails[:6]: print('failed obligation [%s] of %s: %s (line %s)'%(f['label'],n,f['desc'],f['line']))
        viol=1
    ob=sum(r['nobl'] for r in done.values())
    bad=sum(len([f for f in r['fails'] if relevant(pid,f)]) for r in done.values())
    ev=dict(property=pid,tier=tier,seed=seed,level='proof',wall_s=round(time.time()-t0,1),violations=viol,assumptions=ASSUME+sorted({a for r in done.values() for a in r.get('assumed',[])}),
      coverage=dict(obligations=ob,discharged=max(0,ob-bad),checker_cmd='python3-vt dv/check.py %s'%pid,trusted_base=TRUSTED,
        discharged_by=dict(z3=ob-sum(r['ntriv'] for r in done.values()),simplification=sum(r['ntriv'] for r in done.values())),
        solver_queries=sum(r['queries'] for r in done.values()),solver_unknown=sum(r['unknown'] for r in done.values()),solver_seconds=round(sum(r['solver'] for r in done.values()),1),
        functions_under_contract=[dict(function=n,unit=r['unit'],obligations=r['nobl'],paths=r['paths'],loops=r['loops'],seconds=round(r['time'],1),by_label=r['labels'],inlined=r['inlined'],verified=not r['fails'],returns_reachable=r['returns']-r['retvac']) for n,r in sorted(done.items()) if not r['missing']],
        functions_inlined=sorted({c for r in done.values() for c in r['inlined']}),
        contracts_used_at_calls=sorted({c for r in done.values() for c in r['calls']}),
        ignored_failures_of_other_properties=['%s: %s'%(n,f['desc']) for n,f in ignored]))
    os.makedirs(os.path.join(VERIF,'evidence'),exist_ok=True)
    json.dump(ev,open(os.path.join(VERIF,'evidence',pid+'.json'),'w'),indent=1)
    for k in known:
        if k.get('property')==pid and k.get('status')=='known': print('KNOWN-FINDING: property=%s %s'%(pid,k['what']))
    print('%s: %d functions, %d obligations, %d discharged, %.1fs'%(pid,len(done),ob,max(0,ob-bad),time.time()-t0))
    if viol:
        print('VIOLATION property=%s replay=%s%s'%(pid,replay,'' if found else ' no-failing-input-found')); sys.exit(1)
    sys.exit(0)
if __name__=='__main__':
    try: main()
    except SystemExit: raise
    except BaseException as e:
        traceback.print_exc()
        pid=sys.argv[1] if len(sys.argv)>1 else '?'
        rd=os.path.join(VERIF,'build','replay'); os.makedirs(rd,exist_ok=True); rp=os.path.join(rd,pid+'.txt'); open(rp,'w').write('the check could not be completed: '+traceback.format_exc())
        print('VIOLATION property=%s replay=%s no-failing-input-found'%(pid,rp)); sys.exit(1)
