import sys,time,os
sys.setrecursionlimit(10000)
sys.path.insert(0,os.path.dirname(os.path.abspath(__file__)))
import spec
import importlib
for m in ('specs_list','specs_stack','specs_misc','specs_buffer','specs_assoc','specs_pool','specs_hash','specs_rbtree','specs_async'):
    try: importlib.import_module(m)
    except ModuleNotFoundError as e:
        if e.name!=m: raise
from spec import *
def main():
    repo=os.environ.get('REPO','/repo'); names=sys.argv[1:]; verbose='-v' in names; names=[n for n in names if n!='-v']
    todo=[n for n in SPECS if any(n==x or (x.endswith('*') and n.startswith(x[:-1])) for x in names)]
    w=World(repo,SPECS)
    todo+=[x for x in names if '=' in x]
    tot=time.time()
    w.load(sorted({SPECS[n.split('=')[0]].unit for n in todo}))
    for n in todo:
        N=n.split('=')[0]; mod=w.units[SPECS[N].unit]; f=mod.funcs.get(n.split('=')[-1])
        if f is None and SPECS[N].static and '=' not in n: continue
        if f is None: print(n,'MISSING'); continue
        v=Verifier(f,SPECS[N],w,budget=float(os.environ.get('BUDGET','120'))); v.verbose=verbose; Retry.log=verbose
        t=time.time(); v.run()
        ok=not v.fails
        if v.maxpersist: print('persist',n,v.maxpersist,ok)
        print('%-28s %s obl=%d triv=%d paths=%d returns=%d(vac %d) restarts=%d q=%d unk=%d solver=%.1fs total=%.1fs'%(n,'OK  ' if ok else 'FAIL',v.nobl,v.ntriv,v.paths,v.returns,v.retvac,v.restarts,v.solver.queries,v.solver.unknown,v.solver.time,time.time()-t),flush=True)
        for fl in v.fails[:4 if not verbose else 30]:
            print('   ',fl['label'],'|',fl['desc'],'| line',fl['line'],fl['func']); print('       goal',fl['goal'])
            if verbose:
                print('       trace',fl['trace'][-40:]); 
                for c in fl['chunks']: print('         ',c)
                for c in fl['cells']: print('         ',c)
    print('total %.1f'%(time.time()-tot))
main()
