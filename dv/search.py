"""Search for a concrete failing input against the real code, used only after a proof obligation has failed (a replay for the alarm)."""
import os,subprocess,tempfile,time,shutil,signal,glob
HERE=os.path.dirname(os.path.abspath(__file__)); SD=os.path.join(os.path.dirname(HERE),'search')
PT=' '.join('-Dpthread_%s=vf_%s'%(f,f) for f in 'mutex_init cond_init mutex_destroy cond_destroy mutex_lock mutex_trylock mutex_unlock cond_wait cond_timedwait cond_signal cond_broadcast'.split())
H={'slist':('list',[], ''),'list':('list',['-DDOUBLY'],''),'stackq':('stackq',[],''),'assoc':('map',['-DASSOC'],''),'hash':('map',['-DHASH'],''),'rb':('map',['-DRB'],''),
 'buffer':('buffer',[],''),'misc':('misc',[],''),'pool':('pool',[],''),'async':('async',[],PT+' -Dgettimeofday=vf_gettimeofday -Dclock_gettime=vf_clock_gettime -fsanitize-coverage=trace-loads,trace-stores')}
PREF=[('slist_','slist'),('list_','list'),('stack_','stackq'),('vf_stack','stackq'),('vf_queue','stackq'),('assoc_','assoc'),('vf_assoc','assoc'),('hashtable_','hash'),('vf_hashtable','hash'),('rbtree_','rb'),('_rbtree','rb'),('vf_rbtree','rb'),('buffer_','buffer'),('str_','misc'),('direct_','misc'),('memory_','pool'),('_memory','pool'),('async_','async')]
OF={'C01':['slist'],'C02':['list'],'C03':['slist','list'],'C04':['slist','list'],'C05':['slist','list'],'C06':['stackq'],'C07':['async'],'C08':['async'],'C09':['hash'],'C10':['hash'],'C11':['hash'],'C12':['rb'],'C13':['rb'],'C14':['rb'],'C15':['assoc'],'C16':['assoc','hash','rb'],'C17':['pool'],'C18':['buffer'],'C19':['buffer'],'C20':['misc']}
def harnesses(pid,funcs):
    own=OF.get(pid,[]); out=[]
    for f in funcs:
        for a,h in PREF:
            if f.startswith(a):
                if h not in out: out.append(h)
                break
    r=[h for h in own if h in out]+[h for h in own if h not in out and (not any(x in own for x in out))]+[h for h in out if h not in own]
    return r or own
def c_bulk(d):
    open(d+'/corpus/bulk','wb').write(b'\xb0\x1c')
def search(pid,funcs,seed,budget,outdir,repo=None):
    t0=time.time(); env=dict(os.environ); env['REPO']=repo or os.environ.get('REPO','/repo'); hs=harnesses(pid,funcs)
    tmp=tempfile.mkdtemp(prefix='dvsearch'); procs=[]
    try:
        for h in hs:
            c,fl,ex=H[h]; e=dict(env); e['CEXTRA']=ex
            r=subprocess.run([os.path.join(SD,'build.sh'),c,os.path.join(tmp,h)]+fl,env=e,capture_output=True,text=True,timeout=120)
            if r.returncode: return None if len(hs)==1 else None
        njobs=8; k=0
        while k<njobs:
            h=hs[k%len(hs)]; d=os.path.join(tmp,'w%d'%k); os.makedirs(d+'/corpus'); k<len(hs) and c_bulk(d); ml=[600,150,60,2000][(k//len(hs))%4]
            procs.append((h,d,subprocess.Popen([os.path.join(tmp,h),d+'/corpus','-seed=%d'%(seed*100+k+1),'-max_total_time=%d'%max(5,budget-(time.time()-t0)),'-max_len=%d'%ml,'-len_control=%d'%(0 if k%2 else 100),'-timeout=15','-rss_limit_mb=2500','-use_value_profile=%d'%(k%3==2),'-artifact_prefix='+d+'/','-close_fd_mask=0'],cwd=d,stdin=subprocess.DEVNULL,stdout=subprocess.DEVNULL,stderr=subprocess.DEVNULL,env=env,start_new_session=True))); k+=1
        found=None
        while found is None and time.time()-t0<budget+10:
            alive=False
            for h,d,p in procs:
                if p.poll() is None: alive=True
                fs=[f for f in glob.glob(d+'/crash-*')+glob.glob(d+'/timeout-*')+glob.glob(d+'/oom-*')]
                if fs and p.poll() is not None:
                    f=fs[0]; txt=replay(os.path.join(tmp,h),f,env)
                    if txt is None: continue
                    found=(h,f,txt); break
            if not alive and found is None: break
            time.sleep(0.3)
        if found is None: return None
        h,f,txt=found
        best=open(f,'rb').read()
        # shorten: drop operations from the end and from the middle while the failure stays
        t1=time.time()
        def fails(b):
            q=os.path.join(tmp,'m'); open(q,'wb').write(b); return replay(os.path.join(tmp,h),q,env)
        n=max(1,len(best)//2)
        while n>=1 and time.time()-t1<20:
            i=0; prog=False
            while i<len(best) and time.time()-t1<20:
                b=best[:i]+best[i+n:]; x=fails(b)
                if x: best=b; txt=x; prog=True
                else: i+=n
            if not prog or n==1: n//=2
        open(os.path.join(outdir,pid+'.input'),'wb').write(best)
        return 'harness search/%s (%s); input bytes %s\nto replay: CEXTRA=%r search/build.sh %s /tmp/x %s && TRACE=1 /tmp/x %s\noperations:\n%s'%(H[h][0]+'.cpp',h,best.hex(),H[h][2],H[h][0],' '.join(H[h][1]),os.path.join(outdir,pid+'.input'),txt)
    finally:
        for h,d,p in procs:
            try: os.killpg(p.pid,signal.SIGKILL)
            except Exception: pass
        shutil.rmtree(tmp,ignore_errors=True)
def replay(exe,f,env):
    e=dict(env); e['TRACE']='1'
    try: r=subprocess.run([exe,'-timeout=15','-rss_limit_mb=2500',f],capture_output=True,env=e,timeout=40,cwd=os.path.dirname(exe))
    except subprocess.TimeoutExpired: return 'the run does not end'
    if r.returncode==0: return None
    o=r.stdout.decode('latin1').splitlines(); er=[l for l in r.stderr.decode('latin1').splitlines() if 'FAILED' in l or 'ERROR' in l or 'runtime error' in l or l.startswith('    #') and '/repo' in l or 'timeout' in l][:12]
    return '\n'.join(o[-60:]+er)[:8000]
