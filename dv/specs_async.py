"""Contracts of asyncqueue.c (C07, C08).

The state that the mutex protects (the queue and the number of waiting consumers) is not owned by an operation until it
locks the mutex: locking yields an arbitrary state that satisfies the invariant, unlocking and waiting give the state
back, which must satisfy the invariant then.  The contracts speak about these critical sections: each is a pair
(sequence when the lock was obtained, sequence when it was given up)."""
from spec import *
from specs_list import tok_take,hint
from specs_stack import out_cell_take,out_any
from world import ext,EXT,giveup
SIZE_MAX=(1<<64)-1
class AQ: pass
class Sect: pass
class SyncObj(Chunk):
    """an initialised mutex or condition variable"""
    def __init__(s,what,addr,size): s.what=what; s.addr=L(addr); s.size=size
    def __repr__(s): return '%s(%r)'%(s.what,s.addr)
    def nf(s,p): s.addr=p.nf(s.addr)
    def same(s,p,o): return s.what==o.what and s.addr==o.addr
    def take(s,p): p.addchunk_remove(s)
def sync_at(p,what,a):
    a=p.nf(a)
    for c in p.chunks:
        if isinstance(c,SyncObj) and c.what==what and (c.addr==a or p.valid(eq(c.addr,a))): return c
def chk(p): 
    c=CallSpec(p,'verify',p.ver.fn,None); c.phase=1; return c
def gen(p):
    c=CallSpec(p,'verify',p.ver.fn,None); c.phase=0; return c
def qobj(aq):
    o=LObj(); o.__dict__.update(aq.__dict__); o.addr=aq.queue; return o
WExec.aq=None; WExec.held=None; WExec.sects=(); WExec.sigs=(); WExec.waits=(); WExec.now=None; WExec.others=None; WExec.cur=None
def noloop(p,what):
    if p.loopctx: p.hardfail('unsupported','%s inside a loop'%what)
def acquire(p,after_wait=False):
    aq=p.aq; s=Sect(); s.S0=(V(p.freshsv('Q',aq.k.ek)),); s.S1=None
    p.others=p.freshv('waiters',8,0,SIZE_MAX+(0 if after_wait else 1)); s.W0=p.others
    list_produce(gen(p),qobj(aq),s.S0)
    p.add_cell(aq.waiting,8,p.nf(p.others+(1 if after_wait else 0)))
    p.cur=s; p.held='shared'; s.afterwait=after_wait
def give_up(p,waiting):
    """the state is handed back: it must satisfy the invariant"""
    aq=p.aq; o=qobj(aq); c=chk(p)
    list_consume(c,o)
    c.assume_or_check(And(eq(o.compare,aq.compare),eq(o.free,aq.free),eq(o.pool,aq.pool)),'config','the functions and the pool of the queue are unchanged')
    w=p.take_cell(aq.waiting,8,'shape','number of waiting consumers')
    p.oblige(eq(w,p.others+waiting),'wait','the queue counts exactly the consumers that wait',noassume=True)
    p.cur.S1=o.S; p.sects=p.sects+(p.cur,); p.cur=None; p.held=None
def the_mutex(p,a,what):
    m=sync_at(p,'mutex',a)
    if m is None: p.hardfail('memory','%s of %r, which is not an initialised mutex of the queue'%(what,a))
def the_cond(p,a,what):
    m=sync_at(p,'cond',a)
    if m is None: p.hardfail('memory','%s of %r, which is not an initialised condition of the queue'%(what,a))
def rc(p,what):
    """the error code of a call that may fail"""
    if p.fork(None,what+' succeeds'): return C(0)
    p.extfail=True
    return p.freshv('rc',4,1,1<<31)
@ext('pthread_mutex_lock','pthread_mutex_trylock')
def _(p,args,i):
    noloop(p,'locking'); the_mutex(p,args[0],'lock')
    if p.held: p.hardfail('lock','the mutex is locked while it is already held (deadlock)')
    r=rc(p,'lock')
    if r.const()!=0: p.lockfail=True; return r
    if p.excl: p.held='excl'
    else: acquire(p)
    return r
@ext('pthread_mutex_unlock')
def _(p,args,i):
    noloop(p,'unlocking'); the_mutex(p,args[0],'unlock')
    if not p.held: p.hardfail('lock','the mutex is unlocked while it is not held')
    r=rc(p,'unlock')
    if r.const()!=0: return r
    if p.held=='excl': p.held=None
    else: give_up(p,0)
    return r
WExec.excl=False; WExec.lockfail=False; WExec.waitrc=()
def wait(p,args,deadline):
    noloop(p,'waiting'); the_cond(p,args[0],'wait'); the_mutex(p,args[1],'wait')
    if p.held!='shared': p.hardfail('lock','waiting without holding the mutex')
    p.waits=p.waits+((p.cur,deadline,p.now),)
    give_up(p,1); acquire(p,True); r=rc(p,'wait'); p.extfail=False; p.waitrc=p.waitrc+(r,); return r
@ext('pthread_cond_wait')
def _(p,args,i): return wait(p,args,None)
@ext('pthread_cond_timedwait')
def _(p,args,i):
    a=args[2]; sec=p.signed(p.load(a,8),64); ns=p.signed(p.load(p.nf(a+8),8),64)
    return wait(p,args,(sec,ns))
@ext('pthread_cond_signal','pthread_cond_broadcast')
def _(p,args,i):
    noloop(p,'signalling'); the_cond(p,args[0],'signal')
    p.sigs=p.sigs+((p.cur,len(p.sects)),)
    return rc(p,'signal')
@ext('pthread_mutex_init','pthread_cond_init')
def _(p,args,i):
    w='mutex' if 'mutex' in i.x[1] else 'cond'; n=SYNCSIZE[w]
    r=rc(p,'init')
    if r.const()!=0: return r
    gather_range(p,args[0],C(n),'memory','memory for a '+w); p.add_chunk(SyncObj(w,args[0],n)); return r
@ext('pthread_mutex_destroy','pthread_cond_destroy')
def _(p,args,i):
    w='mutex' if 'mutex' in i.x[1] else 'cond'; c=sync_at(p,w,args[0])
    if c is None: p.hardfail('memory','destruction of a %s that is not initialised'%w)
    if not p.excl: p.hardfail('lock','destruction of a %s that is in use'%w)
    if p.held: p.hardfail('lock','destruction of a %s while the mutex is held'%w)
    r=rc(p,'destroy')
    p.addchunk_remove(c); p.chunks.append(Raw(c.addr,C(c.size),'j')); return r
SYNCSIZE={'mutex':40,'cond':48}
@ext('err','errx','warn','exit','_exit')
def _(p,args,i):
    if i.x[1]=='warn': return None
    giveup(p)
# ---- time
def reading(p):
    """the clock: nanoseconds since the epoch, never before an earlier reading"""
    s=p.freshv('sec',8,0,1<<40); n=p.freshv('usec',8,0,1000000)
    t=p.nf(s*1000000000+n*1000)
    if p.now is not None: p.assume(ge(t,p.now[1]))
    else: p.now=(t,t)
    p.now=(p.now[0],t); return s,n
@ext('gettimeofday')
def _(p,args,i):
    s,n=reading(p); p.store(args[0],8,s); p.store(p.nf(args[0]+8),8,n); return C(0)
@ext('clock_gettime')
def _(p,args,i):
    if args[0].const()==0:
        s,n=reading(p); p.store(args[1],8,s); p.store(p.nf(args[1]+8),8,p.nf(n*1000))
    else:
        p.store(args[1],8,p.freshv('sec',8,0,1<<40)); p.store(p.nf(args[1]+8),8,p.freshv('nsec',8,0,1000000000))
    return C(0)
@ext('time')
def _(p,args,i):
    s,n=reading(p)
    if args[0].const()!=0: p.store(args[0],8,s)
    return s

def layout(cs,q):
    p=cs.p; m=members(cs,'AsyncQueue'); ml=members(cs,'SList'); aq=AQ(); aq.q=q
    aq.m=ml; aq.k=list_kind(cs,False); aq.doubly=False; aq.queue=p.nf(q+m['queue'][0]); aq.waiting=p.nf(q+m['waiting'][0]); aq.mutex=p.nf(q+m['mutex'][0]); aq.cond=p.nf(q+m['cond'][0]); aq.size=m[''][1]
    return aq
def config(p,aq):
    aq.compare=p.freshv('compare',8,4096,PMAX); p.roles[aq.compare]=('compare','rank')
    aq.free=p.freshv('freefn',8,0,PMAX); aq.pool=p.freshv('pool',8,0,PMAX)
    p.ghostq=dict(p.ghostq); p.ghostq['free']=p.freshv('q',8,1); p.ghost['free']=ZERO
    p.choose(eq(aq.free,0),'no free function'); p.choose(eq(aq.pool,0),'no pool'); aq.free=p.nf(aq.free); aq.pool=p.nf(aq.pool)
    if aq.free.const()!=0: p.roles[aq.free]=('free','free',True)
    if aq.pool.const()!=0: p.add_pool(aq.pool)
    p.poolsize=aq.k.size; aq.owner=aq.pool
def shared(cs,q):
    """the queue is shared with other threads and this thread does not hold its lock"""
    p=cs.p
    if cs.producing:
        p.assume(ge(q,4096)); aq=layout(cs,q); p.add_region(q,aq.size); config(p,aq)
        p.add_chunk(SyncObj('mutex',aq.mutex,SYNCSIZE['mutex'])); p.add_chunk(SyncObj('cond',aq.cond,SYNCSIZE['cond'])); p.aq=aq
    else:
        aq=p.aq
        if aq is None or p.excl: raise NoCall()
        cs.assume_or_check(eq(q,aq.q),'pre','the queue')
        if p.held: p.hardfail('lock','%s is called while the lock is held (deadlock)'%cs.name)
    return aq
def end_shared(cs,aq):
    p=cs.p
    if cs.mode=='verify':
        if p.held: p.hardfail('lock','the lock is still held at return')
        for w,a in (('mutex',aq.mutex),('cond',aq.cond)):
            c=sync_at(p,w,a)
            if c is None: p.hardfail('lock','the %s of the queue is gone'%w)
            p.addchunk_remove(c)
def same_seq(p,a,b):
    return p.seq_eq(p.norm(a),p.norm(b))
def only(cs,aq,what):
    """the single critical section in which the state changes (the first one when none does); all others leave the
    sequence as it is"""
    p=cs.p; ss=p.sects[cs.n0:]
    if not ss: p.hardfail('lock','%s without taking the lock'%what)
    ch=[s for s in ss if not same_seq(p,s.S0,s.S1)]
    if len(ch)>1: p.hardfail('seq','%s changes the queue in more than one critical section'%what)
    return ch[0] if ch else None
def A(n): return spec(n,'asyncqueue.c','C07')
def begin(cs):
    cs.n0=len(cs.p.sects); cs.s0=len(cs.p.sigs); cs.w0=len(cs.p.waits)
def virtual(cs,aq,S1,afterwait=False):
    """call: one critical section of the callee"""
    p=cs.p; s=Sect(); s.S0=(V(p.freshsv('Q',aq.k.ek)),); s.W0=p.freshv('waiters',8,0,SIZE_MAX+1); s.afterwait=afterwait
    s.S1=s.S0 if S1 is None else S1(s.S0); p.sects=p.sects+(s,); return s
@A('async_queue_push')
def _(cs):
    q,data=cs.args; p=cs.p; aq=shared(cs,q); begin(cs)
    yield
    if cs.mode=='call':
        s=virtual(cs,aq,lambda S0: S0+(('u',(p.freshv('node',8,4096,PMAX),data)),))
        if p.choose(gt(s.W0,0),'waiters'): p.sigs=p.sigs+((None,len(p.sects)),)
        return
    s=only(cs,aq,'push')
    if s is None:
        s=p.sects[cs.n0]; seqpost(cs,s.S1,s.S0+(('u',(data,data)),),'seq','a push adds one item'); return
    S=p.norm(s.S1)
    if not S or S[-1][0]!='u': seqpost(cs,S,s.S0+(('u',(data,data)),),'seq','a push adds one item at the end')
    else:
        seqpost(cs,S[:-1],s.S0,'seq','a push adds one item at the end and keeps the others')
        cs.assume_or_check(eq(S[-1][1][1],data),'seq','the item holds the pushed data')
    k=[j for j,t in enumerate(p.sects) if t is s][0]
    sig=any(c is s or (n>k) for c,n in p.sigs[cs.s0:])
    if not sig: p.oblige(eq(s.W0,0),'wait','a push that finds a consumer waiting signals the condition when the datum is in the queue',noassume=True)
    end_shared(cs,aq)
def pop(cs,ms):
    q,out=cs.args[:2]; p=cs.p; aq=shared(cs,q); old=out_cell_take(cs,out); begin(cs); t0=p.now
    yield
    if cs.mode=='call':
        r=cs.result_bool(); p.choose(r,'pop succeeds')
        if p.choose(r,''):
            e=p.newelem('popped',aq.k.ek)
            if p.fork(None,'pop waits'): virtual(cs,aq,lambda S0:S0); p.waits=p.waits+((p.sects[-1],'callee',ms),); s=virtual(cs,aq,None,True)
            else: s=virtual(cs,aq,None)
            s.S1=s.S0; s.S0=(('u',e),)+s.S1
            if s.afterwait: p.setsv(p.sects[-2].S0[0][1],())
            cs.give(out,8,e[1],'ret','')
        else:
            s=virtual(cs,aq,lambda S0:S0); p.setsv(s.S0[0][1],()); p.waits=p.waits+((s,'callee',ms),)
            if p.fork(None,'still empty'): s=virtual(cs,aq,lambda S0:S0,True)
            out_any(cs,out)
        return
    r=cs.result_bool()
    if p.lockfail and len(p.sects)==cs.n0 and not p.choose(r,'pop succeeds'): out_any(cs,out); end_shared(cs,aq); return
    s=only(cs,aq,'pop'); first=p.sects[cs.n0]
    ok=p.choose(r,'pop succeeds')
    if s is None:
        if ok:
            s=p.sects[-1]; p.oblige(False if not p.isempty(s.S0) else False,'ret','a successful pop removes an item'); return
        cs.assume_or_check(eq(p.length(first.S0),0),'ret','a pop fails only if there was nothing in the queue')
        ws=[j for j,x in enumerate(p.sects) if j>=cs.n0 and x.afterwait]
        if ws and all(x.const()==0 for x in p.waitrc[cs.w0:]): cs.assume_or_check(eq(p.length(p.sects[ws[-1]].S0),0),'ret','a pop that was woken up fails only if there is nothing in the queue')
        out_any(cs,out)
    else:
        if not ok: seqpost(cs,s.S1,s.S0,'seq','a failed pop removes nothing'); return
        cs.assume_or_check(gt(p.length(s.S0),0),'ret','a pop succeeds only if there is an item')
        e,rest=firstof_(p,s.S0)
        seqpost(cs,s.S1,rest,'seq','a pop removes exactly the first item')
        cs.give(out,8,e[1],'ret','pop stores the data of the item it removed')
    # C08
    ws=p.waits[cs.w0:]
    mine=[w for w in ws if w[0] is first]
    if not mine:
        p.oblige(Or(gt(p.length(first.S0),0),ge(first.W0,SIZE_MAX)),'wait','a pop that finds nothing waits on the condition',noassume=True)
    for sect,dl,t in ws:
        p.oblige(eq(p.length(sect.S0),0),'wait','a pop waits only if there is nothing to take',noassume=True)
        if dl=='callee':
            p.oblige(eq(t,ms),'wait','the timeout that is passed on',noassume=True); continue
        if ms.const()==0:
            if cs.name=='async_queue_pop': p.oblige(dl is None,'wait','a pop without timeout waits with no deadline',noassume=True)
            continue
        if dl is None: p.oblige(eq(ms,0),'wait','a pop with a timeout waits with a deadline',noassume=True); continue
        if cs.name=='async_queue_pop': p.oblige(False,'wait','a pop without timeout waits with no deadline',noassume=True); continue
        if p.choose(eq(ms,0),'no timeout'): continue
        if t is None: p.oblige(False,'wait','the deadline is computed from the current time',noassume=True); continue
        sec,ns=dl; d=p.nf(sec*1000000000+ns)
        p.oblige(And(ge(ns,0),lt(ns,1000000000),ge(sec,0)),'wait','the deadline is a valid time',noassume=True)
        p.oblige(ge(d,t[0]+ms*1000000),'wait','the deadline is not earlier than the timeout asks for',noassume=True)
        p.oblige(lt(d,t[1]+ms*1000000+1000000000),'wait','the deadline is less than a second later than the timeout asks for',noassume=True)
    end_shared(cs,aq)
def firstof_(p,S):
    from specs_list import firstof
    return firstof(p,S)
@A('async_queue_pop')
def _(cs): yield from pop(cs,C(0))
@A('async_queue_pop_timeout')
def _(cs): yield from pop(cs,cs.args[2])
@A('async_queue_clear')
def _(cs):
    q,=cs.args; p=cs.p; aq=shared(cs,q); begin(cs)
    if cs.mode=='verify' and 'free' in p.ghostq: hint(cs,count=[('eq',DATA,p.ghostq['free'])])
    yield
    if cs.mode=='call': s=virtual(cs,aq,lambda S0: ())
    else:
        s=only(cs,aq,'clear') or p.sects[cs.n0]
        seqpost(cs,s.S1,(),'seq','a cleared queue is empty'); end_shared(cs,aq)
    cs.ghost('free',freed_delta(cs,aq,s.S0))
@A('async_queue_count')
def _(cs):
    q,=cs.args; p=cs.p; aq=shared(cs,q); begin(cs)
    yield
    r=cs.result(8,'n')
    if cs.mode=='call': s=virtual(cs,aq,None)
    else:
        s=only(cs,aq,'count')
        if s is not None: seqpost(cs,s.S1,s.S0,'seq','a query does not change the queue'); return
        s=p.sects[cs.n0]; end_shared(cs,aq)
    cs.assume_or_check(eq(r,p.length(s.S0)),'ret','the count is the number of items')
# ---- objects that are not shared (yet or any more)
def whole(cs,aq,compare,free,pool):
    """an empty queue in working order at aq"""
    p=cs.p; o=qobj(aq); o.compare,o.free,o.pool=compare,free,pool; o.owner=pool
    if cs.producing:
        list_produce(cs,o,()); p.add_cell(aq.waiting,8,ZERO)
        p.add_chunk(SyncObj('mutex',aq.mutex,SYNCSIZE['mutex'])); p.add_chunk(SyncObj('cond',aq.cond,SYNCSIZE['cond']))
    else:
        n=qobj(aq); list_consume(cs,n); seqpost(cs,n.S,(),'seq','a new queue is empty')
        cs.assume_or_check(And(eq(n.compare,compare),eq(n.free,free),eq(n.pool,pool)),'config','a new queue has the given functions and pool')
        w=p.take_cell(aq.waiting,8,'shape','waiting'); cs.assume_or_check(eq(w,0),'wait','nobody waits on a new queue')
        for w,a in (('mutex',aq.mutex),('cond',aq.cond)):
            c=sync_at(p,w,a)
            if c is None: p.hardfail('shape','the %s of the queue is initialised'%w)
            p.addchunk_remove(c)
@A('async_queue_init')
def _(cs):
    q,cmp,fr,pool=cs.args; p=cs.p
    if cs.mode=='verify': p.excl=True
    if cs.producing: p.assume(ge(q,4096)); aq=layout(cs,q); p.add_region(q,aq.size); p.add_chunk(Raw(q,C(aq.size),'j'))
    else: aq=layout(cs,q); gather_range(p,q,C(aq.size),'pre','queue object')
    yield
    whole(cs,aq,cmp,fr,pool)
@A('async_queue_new')
def _(cs):
    cmp,fr,pool=cs.args; p=cs.p
    if cs.mode=='verify': p.excl=True
    yield
    q=cs.result(8,'queue',True)
    if cs.producing: p.assume(ge(q,4096))
    aq=layout(cs,q); whole(cs,aq,cmp,fr,pool); tok_take(cs,q,aq.size,0,'the new queue')
def unshared(cs,q):
    """the queue belongs to the caller alone: nobody else uses it"""
    p=cs.p
    aq=layout(cs,q)
    if cs.producing:
        p.excl=True; p.assume(ge(q,4096)); p.add_region(q,aq.size); config(p,aq); aq.S=(V(p.freshsv('Q',aq.k.ek)),)
        list_produce(cs,qobj(aq),aq.S); p.add_cell(aq.waiting,8,p.freshv('w',8))
        p.add_chunk(SyncObj('mutex',aq.mutex,SYNCSIZE['mutex'])); p.add_chunk(SyncObj('cond',aq.cond,SYNCSIZE['cond']))
    else:
        if not p.excl: p.hardfail('lock','%s of a queue that is in use'%cs.name)
        o=qobj(aq); list_consume(cs,o); aq.S=o.S; aq.free=o.free; p.take_cell(aq.waiting,8,'shape','waiting')
        for w,a in (('mutex',aq.mutex),('cond',aq.cond)):
            c=sync_at(p,w,a)
            if c is None: p.hardfail('pre','the %s of the queue is initialised'%w)
            p.addchunk_remove(c)
    return aq
@A('async_queue_free')
def _(cs):
    q,=cs.args; p=cs.p; aq=unshared(cs,q)
    if cs.mode=='verify' and 'free' in p.ghostq: hint(cs,count=[('eq',DATA,p.ghostq['free'])])
    yield
    cs.ghost('free',freed_delta(cs,aq,aq.S))
    if cs.producing: p.chunks.append(Raw(q,C(aq.size),'j'))
    else: 
        for w,a in (('mutex',aq.mutex),('cond',aq.cond)):
            if sync_at(p,w,a) is not None: p.hardfail('leak','the %s of the queue is destroyed'%w)
        gather_range(p,q,C(aq.size),'shape','queue object')
@A('async_queue_destroy')
def _(cs):
    q,=cs.args; p=cs.p; aq=unshared(cs,q); tok_take(cs,q,aq.size,0,'the queue')
    if cs.mode=='verify' and 'free' in p.ghostq: hint(cs,count=[('eq',DATA,p.ghostq['free'])])
    yield
    cs.ghost('free',freed_delta(cs,aq,aq.S))
