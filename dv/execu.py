"""Symbolic execution of the IR, loop handling, function contracts at calls."""
import copy, time, re
from heap import *
import ll

class Frame:
    __slots__=('f','regs','block','idx','prev','allocas','cont','site','args','cs','loops')
class Timeout(Exception): pass

class LoopInst:
    """inferred invariant of one loop on one entry path"""
    def __init__(s): s.mod={}; s.alt=0; s.dropped=set(); s.ghmod=set(); s.nalts=None; s.names=None; s.err=None; s.decr=False; s.maxalt=0; s.reached=False; s.deltas={}; s.committed=False; s.seen=False; s.passno=-1; s.variants={}; s.enterok=set(); s.tried={}; s.order=LoopInst.N; LoopInst.N+=1
    def print(s,passno=None):
        """all that a path can observe of the invariant: as it is now, or as it is frozen for the pass"""
        m,d,e,g,a,ph=s.fz if passno is not None and s.passno==passno else (s.mod,s.dropped,s.deltas,s.ghmod,s.alt,s.phase)
        return (tuple(m.items()),frozenset(d),tuple((k,tuple(x)) for k,x in e.items()),frozenset(g),a,ph,s.committed,s.nalts,s.peek)

LoopInst.N=0
class LoopCtx:
    fresh=False; nondet=False; waits=False; reads=()

class Env:
    """values seen by candidate facts"""
    def __init__(s,p): s.p=p; s.v={}; s.g={}; s.w={}

class Verifier:
    def __init__(s,fn,spec,world,budget=200,only=None):
        s.fn=fn; s.spec=spec; s.world=world; s.memo={}; s.trie={}; s.oseen=set(); s.done={}; s.visited={}; s.work=[]; s.solver=Solver(); s.nobl=0; s.ntriv=0; s.obl={}; s.fails=[]; s.inloopcheck=False
        s.loops={}; s.t0=time.time(); s.budget=budget; s.paths=0; s.returns=0; s.restarts=0; s.dirty=False; s.assumed=set(); s.calls=set(); s.inlined=set(); s.cfgs={}; s.instrs=0
        s.unproved_term=set(); s.proved_term=set(); s.covered=set(); s.preok=False; s.retvac=0; s.verbose=False; s.passno=0; s.persist={}; s.maxpersist=0; s.relevant=None; s.stopped=False
    def deadline(s):
        if time.time()-s.t0>s.budget: raise Timeout()
    def note_obl(s,label,desc,line,ok):
        k=(label,desc,line); s.obl[k]=s.obl.get(k,True) and ok
    def fail(s,p,label,desc,f):
        # with invariants given as a hint the state without cursor is tried first: what fails later may need another
        for lc in list(reversed(p.loopctx))+(list(reversed(p.past)) if p.hints.get('inv') else []):
            if lc.state=='cut' and lc.inst.fz[5]==1 and not lc.inst.committed and (lc.inst.nalts or 0)>1 and p.next_alt(lc):
                if s.verbose: print('   fail in loop',lc.lineno,lc.inst.names,label,desc,f,p.line); print(p.trace[-6:],p.chunks)
                raise Restart()
        s.fails.append(dict(label=label,desc=desc,hard=f is None,line=p.line,func=p.frames[-1].f.name if p.frames else s.fn.name,goal=repr(f)[:400],trace=[t for t in p.trace[-60:]],chunks=[repr(c)[:200] for c in p.chunks][:20],cells=['%r -> %r'%(k,c) for k,c in list(p.cells.items())[:40]]))
    def cfg(s,f):
        if f.name not in s.cfgs: s.cfgs[f.name]=ll.cfg(f)
        return s.cfgs[f.name]
    def coverage(s):
        """every loop was entered with a state that its invariant allows"""
        for i in sorted(s.loops.values(),key=lambda i: i.order):
            for k,q in list(i.tried.items()):
                if k in i.enterok or k[1]!=i.print(): continue
                if s.solver.check(q,True)[0]==z3.unsat: del i.tried[k]; continue
                if not i.committed and (i.nalts or 0)>1:
                    i.alt+=1; i.dropped=set(); s.dirty=True
                    if i.alt>=i.nalts: i.alt=0; i.committed=True
                    for n in [n for n,j in s.loops.items() if j.order>i.order]: del s.loops[n]
                    return
                s.note_obl('loop','the invariant of the loop holds when the loop is entered',i.line,False)
                s.fails.append(dict(label='loop',desc='the invariant of the loop (%s) holds when the loop is entered'%', '.join(i.names or ()),hard=True,line=i.line,func=s.fn.name,goal='',trace=[],chunks=[],cells=[])); return
    def run(s,maxrestart=400):
        while True:
            s.passno+=1
            s.oseen=set(); s.work=[()]; s.obl={}; s.fails=[]; s.nobl=0; s.ntriv=0; s.dirty=False; s.paths=0; s.returns=0; s.retvac=0
            s.solver.sync([],[])
            try:
                while s.work:
                    pre=s.work.pop()
                    s.paths+=1
                    # a path that used the same loop invariants before need not be run again
                    d=s.done.get(pre)
                    if d is not None and all(k in s.loops and s.loops[k].print(s.passno)==v for k,v in d[0]):
                        for k,ok in d[1].items(): s.obl[k]=s.obl.get(k,True) and ok
                        s.fails+=d[2]; s.work+=d[3]; s.nobl+=d[4]; s.ntriv+=d[5]; s.returns+=d[6]; s.retvac+=d[7]; continue
                    keep=(s.obl,s.fails,s.work,s.nobl,s.ntriv,s.returns,s.retvac); s.obl={}; s.fails=[]; s.work=[]
                    s.nobl=s.ntriv=s.returns=s.retvac=0; s.visited={}; ended=False
                    p=s.world.execcls(s,pre)
                    try:
                        try: p.go()
                        except PathEnd: pass
                        ended=True
                    finally:
                        mine=(s.obl,s.fails,s.work,s.nobl,s.ntriv,s.returns,s.retvac); s.obl,s.fails,s.work=keep[:3]
                        s.nobl+=keep[3]; s.ntriv+=keep[4]; s.returns+=keep[5]; s.retvac+=keep[6]
                        for k,ok in mine[0].items(): s.obl[k]=s.obl.get(k,True) and ok
                        s.fails+=mine[1]; s.work+=mine[2]
                    s.done.pop(pre,None)
                    if ended and all(k in s.loops and s.loops[k].print()==v and s.loops[k].print(s.passno)==v for k,v in s.visited.items()): s.done[pre]=(tuple(s.visited.items()),)+mine
                    s.instrs+=p.ninstr
                    if s.dirty and s.fails and False: break
            except Restart:
                s.dirty=True
            except Timeout:
                s.note_obl('timeout','verification finished within its budget',0,False)
                s.fails.append(dict(label='timeout',desc='verification of %s did not finish in %ds'%(s.fn.name,s.budget),line=0,func=s.fn.name,goal='',trace=[],chunks=[],cells=[]))
                return
            if not s.dirty: s.coverage()
            if not s.dirty: break
            s.restarts+=1
            s.persist={k:s.persist.get(k,0)+1 for k in {(x['label'],x['desc'],x['line'],tuple(x['trace']),x['hard']) for x in s.fails}}
            if s.persist: s.maxpersist=max(s.maxpersist,max(s.persist.values()))
            # a failure that stays whatever the other loops try is final
            if s.relevant and any(n>=8 and s.relevant(dict(label=k[0],hard=k[4])) for k,n in s.persist.items()) and time.time()-s.t0>min(90,s.budget/3): s.stopped=True; return
            for i in s.loops.values():
                if i.phase==0 and i.seen: i.phase=1
            if s.verbose: print('restart',s.restarts,[(k[1],i.phase,i.alt,i.nalts,len(i.dropped)) for k,i in s.loops.items()])
            if s.restarts>maxrestart:
                s.note_obl('loop','loop invariant inference converges',0,False)
                s.fails.append(dict(label='loop',desc='invariant inference does not converge',line=0,func=s.fn.name,goal='',trace=[],chunks=[],cells=[])); return

MASK=lambda n:(1<<n)

class Exec(Path):
    def __init__(s,ver,prefix):
        Path.__init__(s,ver,prefix); s.world=ver.world; s.mod=ver.fn.mod
    # ---------------- values
    def val(s,fr,v,ty=None):
        k=v[0]
        if k=='reg':
            x=fr.regs[v[1]]
            return x
        if k=='int':
            n=v[1]
            if ty is not None and ty!='ptr' and ty[0]=='i': n%=MASK(ty[1])
            return C(n)
        if k=='bool': return v[1]
        if k=='glob': return s.globaddr(v[1])
        if k=='undef' and ty is not None and ty!='ptr' and ty[0]!='i': return Agg(s.freshv('undef',8) for _ in s.mod.leaves(ty))
        if k=='undef': return s.freshv('undef',8) if ty=='ptr' or ty is None else s.freshv('undef',max(1,(ty[1]+7)//8))
        if k=='gep': return s.gep(s.val(fr,v[2],'ptr'),v[1],[(t,s.val(fr,i,t)) for t,i in v[3]])
        if k=='zero': return ZERO
        if k=='cast':
            return s.val(fr,v[3],v[2])
        s.hardfail('unsupported','value %r'%(v,))
    # values of structure type: one scalar per field
    def aggleaves(s,i):
        fs=(i.ty,) if i.ty[0]=='arr' else s.mod.ftypes(i.ty)
        if any(f!='ptr' and f[0]!='i' or f!='ptr' and f[1]==1 for f in fs): s.hardfail('unsupported',i.text)
        return s.mod.leaves(i.ty)
    def aggval(s,v,i):
        if isinstance(v,Agg): return v
        if isinstance(v,Lin) and v.const()==0: return Agg(ZERO for _ in s.aggleaves(i))
        s.hardfail('unsupported',i.text)
    def aggindex(s,i,idx):
        if len(idx)!=1: s.hardfail('unsupported',i.text)
        s.aggleaves(i); return idx[0]
    def globfrags(s,g):
        """the bytes of a constant object"""
        ty,init,const=s.mod.globs.get(g,(None,None,False))
        if not const or init is None: return None
        def go(ty,v):
            n=s.mod.sizeof(ty)
            if v[0]=='zero': return [('raw',C(n),'z')]
            if v[0]=='undef': return [('raw',C(n),'j')]
            if ty=='ptr' or ty[0]=='i':
                if v[0]=='int': return [('cell',n,C(v[1]%MASK(8*n)))]
                if v[0]=='glob': return [('cell',n,s.globaddr(v[1]))]
                return None
            if v[0]!='agg': return None
            out=[]
            if ty[0]=='arr': parts=[(k*s.mod.sizeof(ty[2]),t,x) for k,(t,x) in enumerate(v[1])]
            else: parts=[(o,t,x) for o,(t,x) in zip(s.mod.fields(ty)[0],v[1])]
            e=0
            for o,t,x in parts:
                if o>e: out.append(('raw',C(o-e),'j'))
                r=go(t,x)
                if r is None: return None
                out+=r; e=o+s.mod.sizeof(t)
            if n>e: out.append(('raw',C(n-e),'j'))
            return out
        return go(ty,init)
    def globaddr(s,n):
        if n in s.world.funcs or n in s.mod.decls or n in s.mod.funcs:
            a=var('fn:'+n)
        else: a=var('glob:'+n)
        s.assume(ge(a,1<<47)); s.assume(lt(a,1<<48)); return a
    def lin(s,x):
        """boolean -> 0/1"""
        if isinstance(x,Lin): return s.nf(x)
        if isinstance(x,bool): return C(int(x))
        return s.nf(b2i(s.nff(x)))
    def boolv(s,x):
        if isinstance(x,Lin): 
            x=s.nf(x); a=x.atom()
            if a is not None and a.key is not None and a.key[0]=='ite' and a.key[2]==ONE and a.key[3]==ZERO: return s.nff(a.key[1])
            return ne(x,0)
        return s.nff(x)
    def signed(s,x,bits):
        """mathematical value of a two's complement number held as unsigned"""
        x=s.nf(x)
        c=x.const()
        if c is not None: return C(c if c<MASK(bits-1) else c-MASK(bits))
        sg=s.sgn(x,bits)
        if sg is not None: return s.nf(sg)
        if s.valid(lt(x,MASK(bits-1))): return x
        if s.valid(ge(x,MASK(bits-1))): return x-MASK(bits)
        if s.choose(lt(x,MASK(bits-1)),'sign'): return x
        return x-MASK(bits)
    def sgn(s,x,bits):
        a=x.atom()
        if a is not None and a.key is not None and a.key[0]=='ite' and a.key[1] is not True and len(x.t)==1:
            # wrap of a signed value: ite(v<0, v+2^n, v)
            c,u,w=a.key[1:]
            if isinstance(c,F) and c==s.nff(lt(w,0)) and u==w+MASK(bits): return w
        return None
    def fromsigned(s,v,bits):
        v=s.nf(v)
        c=v.const()
        if c is not None: return C(c%MASK(bits))
        if s.valid(ge(v,0)): return v
        if s.valid(lt(v,0)): return v+MASK(bits)
        return ite(s.nff(lt(v,0)),v+MASK(bits),v)
    def wrap(s,v,bits):
        v=s.nf(v); c=v.const()
        m=MASK(bits)
        if c is not None: return C(c%m)
        # sums of remainders are remainders: no case distinction
        if any(ATOMS[x].key is not None and ATOMS[x].key[0]=='mod' and ATOMS[x].key[2]==m for x,_ in v.t): return s.nf(mod(v,m))
        if s.valid(And(ge(v,0),lt(v,m))): return v
        if s.valid(And(ge(v,m),lt(v,2*m))): return v-m
        if s.valid(And(lt(v,0),ge(v,-m))): return v+m
        # fork on overflow when the range is small
        if s.valid(And(ge(v,0),lt(v,2*m))):
            if s.choose(lt(v,m),'no overflow'): return v
            return s.nf(v-m)
        if s.valid(And(lt(v,m),ge(v,-m))):
            if s.choose(ge(v,0),'no underflow'): return v
            return s.nf(v+m)
        return s.nf(mod(v,m))
    def gep(s,base,bt,idx):
        a=base; t=bt; first=True
        for it,i in idx:
            bits=64 if it=='ptr' else it[1]
            i=s.signed(s.lin(i),bits)
            if first: a=a+i*s.mod.sizeof(t); first=False
            elif t[0]=='arr': t=t[2]; a=a+i*s.mod.sizeof(t)
            else:
                k=i.const(); offs,_=s.mod.fields(t); a=a+offs[k]; t=s.mod.ftypes(t)[k]
        return s.nf(a)
    def width(s,ty): return 64 if ty=='ptr' else ty[1]
    # ---------------- main loop
    def go(s):
        sp=s.ver.spec; f=s.ver.fn
        cs=CallSpec(s,'verify',f,None)
        s.cs0=cs
        args=[]
        for (t,n) in f.params:
            b=max(1,(s.width(t)+7)//8)
            args.append(s.freshv('arg'+n,b,0,(1<<s.width(t)) if t!='ptr' or sp.fullptr else PMAX))
        args=[ (a if s.width(t)!=1 else ne(a,0)) for a,(t,n) in zip(args,f.params)]
        cs.args=args
        gen=sp.run(cs)
        next(gen)          # precondition produced
        cs.phase=1
        s.ver.preok=True
        cs.ghost0=dict(s.ghost)
        s.push(f,args,None)
        r=s.execute()
        s.line=f.line
        cs.ret=r
        s.post(cs,gen)
    def post(s,cs,gen):
        s.ver.returns+=1
        def q():
            r,m=s.ver.solver.check(s,True)
            return r==z3.unsat
        if s._m(q,'h'): s.ver.retvac+=1; raise PathEnd()
        for c in list(s.chunks):
            if c in s.chunks: c.settle(s)
        try: next(gen)
        except StopIteration: pass
        cs.finish()
        # leak check
        for (o,a,n) in s.toks: s.hardfail('leak','memory allocated or taken from the caller (%r) is neither released nor reachable at return'%a)
        left=[c for c in s.chunks if not (getattr(c,'seq',None) is not None and s.isempty(c.seq)) and not (isinstance(c,Raw)) and not getattr(c,'affine',False)]
        if left: s.hardfail('leak','structure left over at return: %r'%left[0])
    def push(s,f,args,site):
        fr=Frame(); fr.f=f; fr.regs={}; fr.block=next(iter(f.blocks)); fr.idx=0; fr.prev=None; fr.allocas=[]; fr.site=site; fr.args=args
        for (t,n),a in zip(f.params,args): fr.regs[n]=a
        if len(s.frames)>40: s.hardfail('unsupported','recursion without contract in %s'%f.name)
        for g in s.frames:
            if g.f is f: s.hardfail('unsupported','recursive function %s has no contract'%f.name)
        s.frames.append(fr)
        if len(s.frames)>1: s.ver.inlined.add(f.name)
        s.enterblock(fr,fr.block,None)
        return fr
    def execute(s):
        depth=len(s.frames)
        while True:
            fr=s.frames[-1]
            ins=fr.f.blocks[fr.block][fr.idx]
            s.ninstr+=1
            if s.ninstr>60000: s.hardfail('unsupported','path too long')
            if ins.line: s.line=ins.line
            if s.ninstr%64==0: s.ver.deadline()
            r=s.step(fr,ins)
            if r is not None:
                # returned from outermost
                return r[0]
    def enterblock(s,fr,b,prev):
        succ,dom,loops,irr=s.ver.cfg(fr.f)
        if irr: s.hardfail('unsupported','irreducible control flow in %s'%fr.f.name)
        s.trace.append('%s:%s'%(fr.f.name,b))
        # leaving loops
        while s.loopctx and s.loopctx[-1].fr is fr and b not in s.loopctx[-1].body:
            s.past.append(s.loopctx.pop())
            if s.past[-1].fresh: raise PathEnd()
        fr.prev=prev; fr.block=b; fr.idx=0
        if b in loops:
            po=s.pending()
            if po is not None and not (po.fr is fr and po.header==b): s.resolve(po); return
            # A path that leaves the loop from its generalised head state without any effect is the path the
            # look-ahead (pending) already followed from the state before the generalisation.
            for c in s.loopctx: c.fresh=False
            lc=None
            for c in s.loopctx:
                if c.fr is fr and c.header==b: lc=c
            if lc is None:
                lc=LoopCtx(); lc.fr=fr; lc.header=b; lc.body=loops[b]; lc.pend='entry'; lc.state='entry'
                lc.key=(tuple((g.f.name,g.site) for g in s.frames),b,tuple(s.dec)); lc.lineno=s.line
                lc.inst=s.ver.loops.setdefault(lc.key,LoopInst())
                lc.snap=s.snapshot(); lc.alt=None; lc.env0=None
                s.loopctx.append(lc)
            else:
                if lc.pend=='entry': s.resolve(lc); return
                if lc.pend=='back': s.resolve(lc); return
                if lc.state=='entry':
                    # came back without having resolved (no side effects on the first trip)
                    s.resolve(lc); return
                lc.pend='back'; lc.snap=s.snapshot()
    hints={}
    def pending(s):
        for c in s.loopctx:
            if c.pend: return c
        return None
    def snapshot(s):
        return (dict(s.cells),[copy.copy(c) for c in s.chunks],dict(s.subst),list(s.toks),dict(s.ghost))
    def restore(s,sn):
        s.cells=dict(sn[0]); s.chunks=[copy.copy(c) for c in sn[1]]; s.subst=dict(sn[2]); s.toks=list(sn[3]); s.ghost=dict(sn[4])
        s.rekey()
    def resolve(s,lc):
        if lc.pend=='entry': s.loop_enter(lc)
        else: s.loop_back(lc)
    # ---------------- instructions
    def step(s,fr,i):
        op=i.op
        if op in('store','call','alloca') and s.loopctx and not (op=='call' and s.benign(fr,i)):
            lc=s.pending()
            if lc is not None:
                s.resolve(lc)
                return None
            for c in s.loopctx: c.fresh=False
        if op=='load':
            a=s.lin(s.val(fr,i.args[0],'ptr')); n=s.mod.sizeof(i.ty)
            a=s.nf(a)
            if i.ty!='ptr' and i.ty[0]!='i':
                v=Agg(s.loadv(s.nf(a+o),z) for o,z in s.aggleaves(i))
                for c in s.loopctx: c.reads=c.reads+tuple(v)
                fr.regs[i.res]=v; fr.idx+=1; return None
            v=s.loadv(a,n)
            for c in s.loopctx: c.reads=c.reads+(v,)
            if i.ty!='ptr' and i.ty[1]==1: v=ne(v,0)
            fr.regs[i.res]=v
        elif op=='store':
            v=s.val(fr,i.args[0],i.ty); a=s.lin(s.val(fr,i.args[1],'ptr')); n=s.mod.sizeof(i.ty)
            if i.ty!='ptr' and i.ty[0]!='i':
                for x,(o,z) in zip(s.aggval(v,i),s.aggleaves(i)): s.store(s.nf(a+o),z,s.lin(x))
            else: s.store(s.nf(a),n,s.lin(v))
        elif op=='extractvalue':
            fr.regs[i.res]=s.aggval(s.val(fr,i.args[0],i.ty),i)[s.aggindex(i,i.x)]
        elif op=='insertvalue':
            v=list(s.aggval(s.val(fr,i.args[0],i.ty),i)); v[s.aggindex(i,i.x[1])]=s.val(fr,i.args[1],i.x[0]); fr.regs[i.res]=Agg(v)
        elif op=='alloca': s.alloca(fr,i)
        elif op=='getelementptr':
            fr.regs[i.res]=s.gep(s.lin(s.val(fr,i.args[0],'ptr')),i.ty,[(t,s.val(fr,x,t)) for t,x in i.x])
        elif op in('add','sub','mul','udiv','sdiv','urem','srem','xor','and','or','shl','lshr','ashr'): fr.regs[i.res]=s.arith(fr,i)
        elif op=='icmp': fr.regs[i.res]=s.icmp(fr,i)
        elif op=='br':
            if i.args:
                c=s.boolv(s.val(fr,i.args[0],('i',1)))
                if s.guarded(fr,i,c): return None
                t=s.choose(c,'branch line %d'%s.line)
                s.goto(fr,i.x[0] if t else i.x[1])
            else: s.goto(fr,i.x[0])
            return None
        elif op=='switch':
            v=s.lin(s.val(fr,i.args[0],i.ty)); d=i.x[0]
            for c,b in i.x[1]:
                if s.choose(eq(v,c%MASK(i.ty[1])),'case'): d=b;break
            s.goto(fr,d); return None
        elif op=='ret':
            v=None
            if i.args: v=s.val(fr,i.args[0],i.ty)
            if isinstance(v,Lin): v=s.nf(v)
            s.endframe(fr)
            if not s.frames: return (v,)
            c=s.frames[-1]; ci=c.f.blocks[c.block][c.idx]
            if ci.res: c.regs[ci.res]=v
            c.idx+=1
            return None
        elif op=='phi':
            for v,b in i.x:
                if b==fr.prev: fr.regs[i.res]=s.val(fr,v,i.ty); break
            else:
                if fr.prev=='*': fr.regs[i.res]=s.freshv('phi',max(1,s.width(i.ty)//8)) if i.ty!=('i',1) else ne(s.freshv('phi',1,0,2),0)
                else: s.hardfail('unsupported','phi')
        elif op=='select':
            c=s.boolv(s.val(fr,i.args[0],('i',1)))
            a=s.val(fr,i.args[1],i.ty); b=s.val(fr,i.args[2],i.ty)
            if isinstance(c,bool): fr.regs[i.res]=a if c else b
            else: fr.regs[i.res]=a if s.choose(c,'select') else b
        elif op in('ptrtoint','inttoptr','bitcast','freeze'):
            v=s.val(fr,i.args[0],i.x)
            if op=='ptrtoint' and i.ty[1]<64: v=s.nf(mod(s.lin(v),MASK(i.ty[1])))
            fr.regs[i.res]=v
        elif op=='trunc':
            v=s.val(fr,i.args[0],i.x); n=i.ty[1]
            if n==1:
                v=s.lin(v)
                if s.valid(le(v,1)): fr.regs[i.res]=s.boolv(v)
                else: fr.regs[i.res]=eq(s.nf(mod(v,2)),1)
            else:
                v=s.lin(v)
                sg=s.sgn(v,i.x[1])
                if s.valid(lt(v,MASK(n))): r=v
                elif sg is not None and s.valid(And(ge(sg,-MASK(n-1)),lt(sg,MASK(n-1)))): r=s.fromsigned(sg,n)
                elif s.valid(ge(v,MASK(i.x[1])-MASK(n-1))): r=v-MASK(i.x[1])+MASK(n)
                else: r=s.nf(mod(v,MASK(n)))
                fr.regs[i.res]=r
        elif op=='zext':
            fr.regs[i.res]=s.lin(s.val(fr,i.args[0],i.x))
        elif op=='sext':
            v=s.val(fr,i.args[0],i.x)
            if i.x==('i',1): fr.regs[i.res]=ite(s.boolv(v),MASK(i.ty[1])-1,0)
            else:
                v=s.lin(v); sg=s.sgn(v,i.x[1])
                if sg is not None: fr.regs[i.res]=s.fromsigned(sg,i.ty[1])
                elif s.valid(lt(v,MASK(i.x[1]-1))): fr.regs[i.res]=v
                else: fr.regs[i.res]=s.fromsigned(ite(s.nff(lt(v,MASK(i.x[1]-1))),v,v-MASK(i.x[1])),i.ty[1])
        elif op=='call':
            return s.call(fr,i)
        elif op=='unreachable':
            s.hardfail('memory','control reaches code marked unreachable')
        else: s.hardfail('unsupported',i.text)
        fr.idx+=1
        return None
    def goto(s,fr,b): s.enterblock(fr,b,fr.block)
    def guarded(s,fr,i,c):
        """if(f) f(x); with a free function f: both ways at once, the count of the calls is what differs"""
        if isinstance(c,bool): return False
        succ,dom,loops,irr=s.ver.cfg(fr.f)
        for side,join,g in ((i.x[0],i.x[1],c),(i.x[1],i.x[0],Not(c))):
            if side in loops or join in loops or join==side: continue
            r=s.sidecall(fr,side,join,g)
            if r is None or s.valid(c) or s.valid(Not(c)): continue
            lc=s.pending()
            if lc is not None: s.resolve(lc); return True
            for l in s.loopctx: l.fresh=False
            f,arg,g=r; role=s.role_of(f); q=s.ghostq[role[1]]
            s.oblige(Imp(g,ne(f,0)),'memory','function pointer is not NULL',hard=True)
            if role[2]: s.oblige(Imp(g,ne(arg,0)),'freed','the free function is not called with NULL')
            s.ghost[role[1]]=s.nf(s.ghost.get(role[1],ZERO)+b2i(s.nff(And(g,eq(arg,q)))))
            s.goto(fr,join); return True
        return False
    def sidecall(s,fr,b,join,g):
        """the free function, its argument and the condition if all that the way from b to join does is to call it"""
        regs=fr.regs; fr.regs=dict(regs); out=None
        try:
            for _ in range(4):
                for j in fr.f.blocks[b]:
                    if j.op=='load':
                        a=s.nf(s.lin(s.val(fr,j.args[0],'ptr'))); k=s.cells.get(a)
                        if k is None or k.size!=s.mod.sizeof(j.ty): return None
                        fr.regs[j.res]=s.nf(k.val)
                    elif j.op in('getelementptr','icmp'): s.step1(fr,j)
                    elif j.op=='call':
                        if out is not None or j.x[0]=='glob' or len(j.args)!=1 or j.res: return None
                        f=s.nf(s.lin(s.val(fr,j.x,'ptr'))); r=s.role_of(f)
                        if r is None or r[0]!='free' or r[1] not in s.ghostq: return None
                        out=(f,s.nf(s.lin(s.val(fr,j.args[0][1],'ptr'))))
                    elif j.op=='br':
                        if not j.args:
                            return None if j.x[0]!=join or out is None else out+(g,)
                        if out is not None: return None
                        c=s.boolv(s.val(fr,j.args[0],('i',1)))
                        if j.x[1]==join: b=j.x[0]; g=And(g,c)
                        elif j.x[0]==join: b=j.x[1]; g=And(g,Not(c))
                        else: return None
                        if isinstance(g,bool): return None
                        break
                    else: return None
                else: return None
            return None
        finally: fr.regs=regs
    def step1(s,fr,i):
        if i.op=='icmp': fr.regs[i.res]=s.icmp(fr,i)
        else: fr.regs[i.res]=s.gep(s.lin(s.val(fr,i.args[0],'ptr')),i.ty,[(t,s.val(fr,x,t)) for t,x in i.x])
    def endframe(s,fr):
        while s.loopctx and s.loopctx[-1].fr is fr:
            s.past.append(s.loopctx.pop())
            if s.past[-1].fresh: raise PathEnd()
        for a,n in fr.allocas:
            if isinstance(n,int):
                for k in list(s.cells):
                    if not k.t and a<=k.c<a+n: del s.cells[k]
                for c in list(s.chunks):
                    ad=getattr(c,'addr',None)
                    if isinstance(ad,Lin) and not ad.t and a<=ad.c<a+n: s.addchunk_remove(c)
            else:
                gather_range(s,a,n,'memory','variable length array')
        s.frames.pop()
        s.loopctx=[c for c in s.loopctx if c.fr is not fr]
    def alloca(s,fr,i):
        if i.x is not None:
            n=s.lin(s.val(fr,i.x[1],i.x[0])); c=n.const()
            if c is None:
                s.oblige(gt(n,0),'memory','variable length array has positive size')
                a=s.freshv('vla',8,1<<52,1<<53); s.add_chunk(Arr(a,s.mod.sizeof(i.ty),(('j',n),)))
                fr.allocas.append((a,s.nf(n*s.mod.sizeof(i.ty)))); fr.regs[i.res]=a; return
            n=c
        else: n=1
        sz=s.mod.sizeof(i.ty)*n
        a=s.alloca_next; s.alloca_next+=(sz+63)//64*64+64
        fr.regs[i.res]=C(a); fr.allocas.append((a,sz))
        if i.ty!='ptr' and i.ty[0]!='i' and (i.ty[0]=='arr') : s.chunks.append(Raw(C(a),C(sz),'j'))
        else:
            for k in range(n):
                for off,fs in s.mod.leaves(i.ty):
                    s.cells[C(a+k*s.mod.sizeof(i.ty)+off)]=Cell(fs,var('uninit:%x'%(a+off)))
                    u=var('uninit:%x'%(a+off)); s.assume(ge(u,0)); s.assume(lt(u,1<<(8*fs)))
                # padding
                e=0; z=s.mod.sizeof(i.ty)
                for off,fs in sorted(s.mod.leaves(i.ty))+[(z,0)]:
                    if off>e: s.chunks.append(Raw(C(a+k*z+e),C(off-e),'j'))
                    e=off+fs
    def loadv(s,a,n):
        # read-only globals
        for at,k in a.t:
            nm=ATOMS[at].name
            if nm.startswith('glob:'): return s.loadglob(nm[5:],a-Lin(((at,1),),0),n)
        h=s.world.loadhook(s,a,n)
        if h is not None: return h
        return s.load(a,n)
    def loadglob(s,g,off,n):
        ty,init,const=s.mod.globs.get(g,(None,None,False))
        if g in('stderr','stdout'): return s.freshv('file',8,1,PMAX)
        if not const or init is None: s.hardfail('memory','read of mutable global '+g)
        if init[0]=='agg' and ty[0]=='arr':
            e=s.mod.sizeof(ty[2])
            if e==n:
                i=div(off,e)
                if i*e!=off: s.hardfail('memory','unaligned read of '+g)
                s.oblige(And(ge(i,0),lt(i,ty[1])),'memory','index into constant table '+g,hard=True)
                vals=[x[1][1] for x in init[1]]
                c=i.const()
                if c is not None: return C(vals[c]%MASK(8*n))
                r=uf('const:'+g,i)
                vals=[v%MASK(8*n) for v in vals]
                if len(vals)<=8:
                    for k,v in enumerate(vals): s.assume(Or(ne(i,k),eq(r,v)))
                else:
                    # a long table: its range, and where it is zero (a consequence of the values that keeps the solver fast)
                    nz=[v for v in vals if v]; zs=[k for k,v in enumerate(vals) if not v]
                    s.assume(ge(r,min(vals))); s.assume(le(r,max(vals)))
                    for k in zs: s.assume(Or(ne(i,k),eq(r,0)))
                    if zs and nz: s.assume(Or(*([eq(i,k) for k in zs]+[ge(r,min(nz))])))
                return r
        if init[0]=='int': return C(init[1]%MASK(8*n))
        s.hardfail('unsupported','constant '+g)
    def arith(s,fr,i):
        op=i.op; ty=i.ty; bits=ty[1]
        a=s.val(fr,i.args[0],ty); b=s.val(fr,i.args[1],ty)
        if bits==1:
            a=s.boolv(a);b=s.boolv(b)
            if op=='xor': return s.nff(Or(And(a,Not(b)),And(Not(a),b)))
            if op=='and': return And(a,b)
            if op=='or': return Or(a,b)
            s.hardfail('unsupported',i.text)
        a=s.lin(a);b=s.lin(b); ca,cb=a.const(),b.const(); M=MASK(bits)
        # signed views make negative intermediate results linear
        if op in('add','sub'):
            if op=='add':
                if cb is not None and cb>=M//2: r=a+(cb-M)
                elif ca is not None and ca>=M//2: r=b+(ca-M)
                else: r=a+b
            else: r=a-b
            if 'nsw' in (i.x or []):
                sa=s.sgn(a,bits) if ca is None else None; sb=s.sgn(b,bits) if cb is None else None
                if sa is not None or sb is not None:
                    x=s.signed(a,bits); y=s.signed(b,bits); return s.fromsigned(x+y if op=='add' else x-y,bits)
            r=s.nf(r)
            if op=='sub' and not s.valid(ge(r,0)) :
                # keep differences as signed values
                if s.valid(And(ge(r,-(M//2)),lt(r,M//2))): return s.fromsigned(r,bits)
            return s.wrap(r,bits)
        if op=='mul':
            if ca is None and cb is None: 
                return s.wrap(prod(a,b),bits)
            sa=s.sgn(a,bits) if ca is None else s.sgn(b,bits)
            if sa is not None:
                k=s.signed(b if cb is not None else a,bits).c; return s.fromsigned(sa*k,bits)
            k=cb if cb is not None else ca; x=a if cb is not None else b
            return s.wrap(x*k,bits)
        if op in('udiv','urem'):
            if s.oblige(ne(b,0),'memory','division by zero',hard=True): pass
            if cb is not None: return s.nf(div(a,cb)) if op=='udiv' else s.urem(a,cb)
            r=uf('u'+op[1:],a,b)
            if op=='urem':
                s.assume(ge(r,0)); s.assume(lt(r,b)); s.assume(le(r,a))
                s.assume(Imp(lt(a,b),eq(r,a)))
            else: s.assume(ge(r,0)); s.assume(le(r,a))
            return r
        if op in('sdiv','srem'):
            s.oblige(ne(b,0),'memory','division by zero',hard=True)
            x=s.signed(a,bits); y=s.signed(b,bits); c=y.const()
            if c is None or c<=0: s.hardfail('unsupported','division by a variable')
            if 'exact' in (i.x or []) or s.valid(ge(x,0)):
                q=s.nf(div(x,c))
                if op=='sdiv': return s.fromsigned(q,bits)
                return s.fromsigned(s.nf(x-q*c),bits)
            if s.choose(ge(x,0),'sign'): q=s.nf(div(x,c))
            else: q=s.nf(-div(-x,c))
            return s.fromsigned(q if op=='sdiv' else s.nf(x-q*c),bits)
        if op=='shl' and cb is not None: return s.wrap(a*(1<<cb),bits)
        if op=='lshr' and cb is not None: return s.nf(div(a,1<<cb))
        if op=='ashr' and cb is not None:
            x=s.signed(a,bits); return s.fromsigned(s.nf(div(x,1<<cb)),bits) if s.valid(ge(x,0)) else s.hardfail('unsupported',i.text)
        if op=='and' and (cb is not None or ca is not None):
            k=cb if cb is not None else ca; x=a if cb is not None else b
            if (k&(k+1))==0: return s.nf(mod(x,k+1))
        if op=='xor' and cb==M-1: return s.nf(C(M-1)-a)
        # opaque but deterministic
        if ca is not None and cb is not None:
            return C({'and':ca&cb,'or':ca|cb,'xor':ca^cb}[op]) if op in('and','or','xor') else s.hardfail('unsupported',i.text)
        if op in('and','or','xor','shl','lshr','ashr'):
            r=uf('bv_%s%d'%(op,bits),a,b); s.assume(ge(r,0)); s.assume(lt(r,M)); return r
        s.hardfail('unsupported',i.text)
    def urem(s,a,c):
        if s.valid(lt(a,c)): return a
        return s.nf(mod(a,c))
    def icmp(s,fr,i):
        c=i.x; ty=i.ty
        a=s.val(fr,i.args[0],ty); b=s.val(fr,i.args[1],ty)
        if ty==('i',1):
            a=s.boolv(a);b=s.boolv(b); f=Iff(a,b)
            return s.nff(f) if c=='eq' else s.nff(Not(f))
        a=s.lin(a);b=s.lin(b); bits=s.width(ty)
        if c=='eq' or c=='ne':
            sa=s.sgn(a,bits); sb=s.sgn(b,bits)
            if (sa is not None or sb is not None):
                a=s.signed(a,bits) ; b=s.signed(b,bits)
            f=eq(a,b) if c=='eq' else ne(a,b)
            return s.nff(f)
        if c[0]=='s': a=s.signed(a,bits); b=s.signed(b,bits)
        r={'lt':lt,'le':le,'gt':gt,'ge':ge}[c[1:]](a,b)
        return s.nff(r)
    # ---------------- calls
    PURE={'perror','fprintf'}
    def benign(s,fr,i):
        return i.x[0]=='glob' and i.x[1] in('llvm.stacksave','llvm.stackrestore')
    def call(s,fr,i):
        cal=i.x; args=[]
        for t,v in i.args:
            if t=='metadata': args.append(None)
            else:
                x=s.val(fr,v,t)
                args.append(s.nf(x) if isinstance(x,Lin) else x)
        name=cal[1] if cal[0]=='glob' else None
        if name is None:
            f=s.nf(s.lin(s.val(fr,cal,'ptr'))); at=f.atom()
            if at is not None and at.name.startswith('fn:'): name=at.name[3:]
            else:
                r=s.rolecall(f,args,i)
                if i.res: fr.regs[i.res]=r
                fr.idx+=1; return None
        if name.startswith('llvm.') or name in s.world.ext:
            base=name if name in s.world.ext else '.'.join(name.split('.')[:2])
            h=s.world.ext.get(base)
            if h is None: s.hardfail('unsupported','call of '+name)
            if not s.benign(fr,i):
                for c in s.loopctx:
                    c.nondet=True
                    if re.search('wait|sleep|lock|yield',base): c.waits=True
            r=h(s,args,i)
            if i.res: fr.regs[i.res]=r
            fr.idx+=1; return None
        f=s.mod.funcs.get(name)
        sp=s.world.spec_for(name,f)
        if sp is not None and (f is None or not f.internal or sp.static):
            try:
                if NOCALL.fullmatch(name) and f is not None: raise NoCall()
                r=s.contract_call(sp,name,f,args,i)
                if i.res: fr.regs[i.res]=r
                fr.idx+=1; return None
            except NoCall:
                if f is None or s.ver.fn.name in s.mod.reach(f): s.hardfail('unsupported','call of '+name)
        if f is not None:
            if ' byval(' in i.text: s.hardfail('unsupported','structure passed by value: '+i.text)
            site=(fr.f.name,fr.block,fr.idx)
            s.push(f,args,site); return None
        s.hardfail('unsupported','call of %s, which has no contract'%name)
    def contract_call(s,sp,name,f,args,i):
        s.ver.calls.add(name)
        for c in s.loopctx: c.nondet=True
        cs=CallSpec(s,'call',f,i); cs.args=args; cs.name=name
        gen=sp.run(cs)
        if f is not None and s.ver.fn.name in s.mod.reach(f):
            # a recursive call: induction over the measure of the contract
            next(gen)
            m,m0=cs.measure,s.cs0.measure
            if f is not s.ver.fn or m is None or m0 is None: s.hardfail('loop','recursion through %s without a decreasing measure'%name)
            s.oblige(lt(m,m0),'loop','the recursion ends: every call of %s works on less than its caller'%name,hard=True)
        else: next(gen)
        cs.pre_done()
        try: next(gen)
        except StopIteration: pass
        cs.finish()
        return cs.ret
    def role_of(s,f):
        f=s.nf(f)
        r=s.roles.get(f)
        if r is not None: return r
        for k,v in list(s.roles.items()):
            if s.nf(k)==f: return v
        return None
    def rolecall(s,f,args,i):
        r=s.role_of(f)
        if r is None:
            for k,v in list(s.roles.items()):
                if s.valid(eq(k,f)): r=v; break
        if r is None: s.hardfail('memory','call through %r, which is not known to be a valid function'%f)
        s.oblige(ne(f,0),'memory','function pointer is not NULL',hard=True)
        return s.world.roles[r[0]](s,r,args,i)

# contracts that only describe an outermost call; where the code calls such a function its body is followed
NOCALL=re.compile(r'(assoc_array|hashtable|rbtree)_(set|remove|pair_\w+|iter_\w+)|buffer_(fill_from_fd|read\w*|to_string)|s?list_remove_by_data')
class Agg(tuple): pass
class CallSpec:
    """what a contract sees: mode 'verify' (pre: assume/produce, post: check/consume) or 'call' (the reverse)"""
    measure=None
    def __init__(s,p,mode,f,ins): s.p=p; s.mode=mode; s.f=f; s.ins=ins; s.ret=None; s.phase=0; s.gdelta={}; s.name=f.name if f else None; s.args=None
    @property
    def producing(s): return (s.mode=='verify')==(s.phase==0)
    def body(s): s.phase=1
    def pre_done(s): s.phase=1
    def assume_or_check(s,f,label,desc,hard=False):
        p=s.p
        if s.producing: p.assume(f)
        else:
            lab=label if s.mode=='verify' else 'pre'
            d=desc if s.mode=='verify' else 'precondition of %s: %s'%(s.name,desc)
            p.oblige(f,lab,d,hard=hard,noassume=(label=='balance'))
    def cell(s,addr,size,name='cell'):
        """take"""
        p=s.p; addr=p.nf(L(addr))
        if s.producing:
            v=p.freshv(name,size,0,PMAX if size==8 and name.endswith('*') else None); p.add_cell(addr,size,v); 
            return v
        return p.take_cell(addr,size,'shape' if s.mode=='verify' else 'pre',name)
    def give(s,addr,size,v,label,desc):
        p=s.p; addr=p.nf(L(addr))
        if s.producing: p.add_cell(addr,size,v)
        else:
            w=p.take_cell(addr,size,'shape',desc)
            p.oblige(eq(w,v),label,desc)
    def result(s,size=8,name='ret',ptr=False):
        """the return value: in call mode a fresh value"""
        if s.mode=='call' and s.ret is None: s.ret=s.p.freshv(name,size,0,PMAX if ptr else None)
        return s.ret
    def result_bool(s):
        if s.mode=='call' and s.ret is None: s.ret=ne(s.p.freshv('retb',1,0,2),0)
        r=s.ret
        return s.p.boolv(r)
    def ghost(s,name,delta,label='freed',desc=None):
        """the counter grew by delta during the call"""
        s.gdelta[name]=s.gdelta.get(name,ZERO)+delta
        s.glabel=getattr(s,'glabel',{}); s.glabel[name]=(label,desc)
    def finish(s):
        p=s.p
        if s.mode=='verify':
            for n,v in sorted(p.ghost.items()):
                d=s.gdelta.get(n,ZERO); v0=s.ghost0.get(n,ZERO)
                lab,desc=getattr(s,'glabel',{}).get(n,('freed',None))
                p.oblige(eq(v,v0+d),lab,desc or GHOSTDESC.get(n,'counter %s changes exactly as specified'%n))
        else:
            for n,d in s.gdelta.items(): p.ghost[n]=p.nf(p.ghost.get(n,ZERO)+d)
GHOSTDESC={'free':'each dropped datum is passed to the free function exactly once and nothing else is','freek':'each dropped key is passed to the key free function exactly once and nothing else is','freev':'each dropped value is passed to the value free function exactly once and nothing else is'}
