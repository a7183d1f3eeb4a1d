"""verify every contract once, in parallel: all.py [pattern...]"""
import sys,os,fnmatch,time
V=os.path.dirname(os.path.dirname(os.path.abspath(__file__))); sys.path.insert(0,V+'/dv')
import check
pats=sys.argv[1:] or ['*']
names=[n for n in check.SPECS if not check.SPECS[n].static and any(fnmatch.fnmatch(n,p) for p in pats)]
def log(r):
    if r['fails']: print('FAILED',r['name'],r['fails'][0]['label'],r['fails'][0]['desc'][:150],'line',r['fails'][0]['line'],flush=True)
    elif r['time']>15: print('slow',r['name'],'%.0fs'%r['time'],flush=True)
t=time.time(); d=check.run_all(names,float(os.environ.get('BUDGET','480')),int(os.environ.get('JOBS','8')),t+3000,log)
print('%d verified, %d failed, %.0fs'%(sum(not r['fails'] for r in d.values()),sum(bool(r['fails']) for r in d.values()),time.time()-t))
