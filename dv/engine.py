"""Path state, solver, sequences and heap chunks."""
import z3, time, sys
from term import *
import term as T

class Fail(Exception):
    def __init__(s,label,msg): Exception.__init__(s,label+': '+msg); s.label=label; s.msg=msg
class PathEnd(Exception): pass
class Restart(Exception): pass
class NoCall(Exception): pass     # the contract cannot stand for a call: the body is followed
class Retry(Exception):
    """strategy failed, try the next one"""
    def __init__(s,*a):
        Exception.__init__(s,*a)
        if Retry.log: 
            import sys,traceback
            f=sys._getframe(1); print('   retry:',f.f_code.co_name,f.f_lineno,a)
    log=False

PMAX=1<<47
# ---------------------------------------------------------------- sequences
class SV:
    __slots__=('name','kind')
    def __repr__(s): return s.name
SVS={}
class EKind:
    """element kind: names and byte sizes of the fields; node address is field 0 when node=True"""
    def __init__(s,name,fields,node=False): s.name=name; s.fields=fields; s.node=node
    def __repr__(s): return s.name
def sv(name,kind):
    v=SVS.get(name)
    if v is None or v.kind is not kind:
        v=SV(); v.name=name; v.kind=kind; SVS[name]=v
    return v
def V(s,tag=None): return ('v',s,tag)
def U(*e): return ('u',tuple(L(x) for x in e))

PRED={}   # name -> function(path, elem, *params) -> formula
def pred(name):
    def d(f): PRED[name]=f; return f
    return d
@pred('eq')
def _p_eq(p,e,fn,t): return eq(p.fn(fn,e),t)
@pred('ne')
def _p_ne(p,e,fn,t): return ne(p.fn(fn,e),t)

class Memo: pass

class Solver:
    """incremental z3 solver kept in step with the facts of the current path"""
    def __init__(s,timeout=8000):
        s.s=z3.Solver(); s.s.set('timeout',timeout); s.levels=[]; s.n=0; s.time=0.0; s.queries=0; s.unknown=0; s.stack=[]; s.slow=0; s.models=[]; s.nmodels=4
    def sync(s,facts,nodes):
        # common prefix: a node identifies all facts up to it
        st=s.stack
        k=0; hi=min(len(st),len(facts))
        while k<hi:
            j=(k+hi+1)//2
            if st[j-1]==nodes[j-1]: k=j
            else: hi=j-1
        while s.levels and len(st)>k:
            lo=s.levels.pop(); s.s.pop(); del st[lo:]
        if len(st)<len(facts):
            s.s.push(); s.levels.append(len(st))
            for i in range(len(st),len(facts)):
                s.s.add(fz(facts[i])); st.append(nodes[i])
    def check(s,path,f,p=None):
        """'unsat','sat','unknown' for the facts of the path and f ; returns (result, model or None)"""
        t=time.time()
        s.sync(path.facts,path.nodes); s.s.push(); s.s.add(fz(f)); r=s.s.check()
        m=s.s.model() if r==z3.sat else None
        s.s.pop(); s.queries+=1
        dt=time.time()-t
        s.time+=dt
        s.slow=max(s.slow,dt)
        if r==z3.unknown: s.unknown+=1
        if m is not None and p is not None:
            s.models.append(Model(m,p.node))
            if len(s.models)>s.nmodels: s.models.pop(0)
        return r,m

class Model:
    """a model of the facts at some node; reused to refute without asking the solver again"""
    def __init__(s,m,node): s.m=m; s.v={}; s.ok={node}; s.bad=set()
    def atom(s,a):
        r=s.v.get(a)
        if r is None: r=s.v[a]=s.m.eval(ATOMS[a].z,model_completion=True).as_long()
        return r
    def lin(s,l):
        r=l.c
        for a,k in l.t: r+=k*s.atom(a)
        return r
    def true(s,f):
        if isinstance(f,bool): return f
        k=f.k
        if k=='le': return s.lin(f.d)<=0
        if k=='eq': return s.lin(f.d)==0
        if k=='ne': return s.lin(f.d)!=0
        if k=='and': return all(s.true(x) for x in f.d)
        return any(s.true(x) for x in f.d)
    def fits(s,p):
        """does it satisfy the facts of the path?"""
        N=p.nodes; i=len(N)-1; ok=s.ok; bad=s.bad
        while i>=0 and N[i] not in ok:
            if N[i] in bad: return False
            i-=1
        for j in range(i+1,len(N)):
            if not s.true(p.facts[j]): bad.update(N[j:]); return False
            ok.add(N[j])
        return True

class Cell:
    __slots__=('size','val')
    def __init__(s,size,val): s.size=size; s.val=val
    def __repr__(s): return '%r/%d'%(s.val,s.size)

class Chunk:
    """a heap predicate instance"""
    def same(s,p,o): return False
    def nf(s,p): pass
    def facts(s,p): return []
    def match(s,p,addr,size): return None
    def owners(s): return []
    def addrs(s,p): return []
    def settle(s,p):
        """at return: note that the chunk is empty where that is known"""

class Path:
    def __init__(s,ver,prefix):
        s.ver=ver; s.prefix=prefix; s.dec=[]; s.facts=[]; s.fset=set(); s.ub={}; s.rw={}; s.cells={}; s.chunks=[]; s.ghost={}; s.subst={}; s.attrs={}
        s.svattrs={}; s.fresh_n={}; s.frames=[]; s.node=0; s.nodes=[]; s.roles={}; s.pools={}
        s.alloca_next=1<<50; s.loopctx=[]; s.past=[]; s.trace=[]; s.line=0; s.aborting=False; s.toks=[]; s.nfcache={}
        s.stack_regions=[]; s.interest=[]; s.ninstr=0; s.lock=None; s.regions=[]
        s.sat_models=[]
    # ---- names
    def fresh(s,base):
        n=s.fresh_n.get(base,0); s.fresh_n[base]=n+1
        return var('%s!%d'%(base,n))
    def freshv(s,base,size=8,lo=0,hi=None):
        v=s.fresh(base); s.assume(ge(v,lo)); s.assume(lt(v,(1<<(8*size)) if hi is None else hi)); 
        return v
    def freshsv(s,base,kind):
        n=s.fresh_n.get('seq:'+base,0); s.fresh_n['seq:'+base]=n+1
        return sv('%s!%d'%(base,n),kind)
    # ---- facts
    def nf(s,l):
        if not s.rw or not l.t: return l
        r=s.nfcache.get(l)
        if r is None:
            r=rewrite(l,s.rw); s.nfcache[l]=r
        return r
    def nff(s,f): return rwf(f,s.rw) if s.rw else f
    def assume(s,f):
        f=s.nff(f)
        if f is True: return
        if f is False:
            s.addfact(F('eq',ONE)) ; raise PathEnd()
        if f.k=='and':
            for g in f.d: s.assume(g)
            return
        if f in s.fset: return
        s.fset.add(f); s.addfact(f); s.note(f)
        if f.k=='eq': s.orient(f.d)
    def note(s,f):
        # constant bounds per linear form, for answers without the solver
        if f.k=='le':
            o=s.ub.get(f.d.t)
            if o is None or f.d.c>o: s.ub[f.d.t]=f.d.c
    def quick(s,f):
        if f.k=='le':
            o=s.ub.get(f.d.t)
            return o is not None and f.d.c<=o
        if f.k=='ne':
            return s.quick(F('le',f.d+1)) or s.quick(F('le',ONE-f.d))
        if f.k=='and': return all(g in s.fset or s.quick(g) for g in f.d)
        if f.k=='or': return any(g in s.fset or s.quick(g) for g in f.d)
        return False
    def orient(s,d):
        """use an equation as a rewrite rule for its newest variable"""
        best=None
        for a,k in d.t:
            at=ATOMS[a]
            if at.key is None and abs(k)==1 and (best is None or a>best[0]): best=(a,k)
        if best is None: return
        a,k=best
        # refuse if a occurs inside another atom of the equation
        for b,_ in d.t:
            if b!=a and a in ATOMS[b].deps: return
        at=Lin(((a,1),),0)
        rhs=(at*k-d)*k   # k*a + rest = 0 -> a = -rest/k, k=+-1 : rest=d-k*a
        one={a:rhs}
        for x in list(s.rw): 
            s.rw[x]=rewrite(s.rw[x],one)
        s.rw[a]=rhs; s.nfcache={}
        s.rekey()
    def rekey(s):
        new={}
        for k,c in s.cells.items():
            k2=s.nf(k)
            if k2 in new and not (new[k2] is c):
                # two separate cells at one address: unreachable
                s.addfact(F('eq',ONE)); raise PathEnd()
            c2=c
            v2=s.nf(c.val)
            if v2 is not c.val: c2=Cell(c.size,v2)
            new[k2]=c2
        s.cells=new
        s.toks=[(s.nf(o),s.nf(a),s.nf(n)) for o,a,n in s.toks]
        for c in s.chunks: c.nf(s)
    # ---- queries (memoised per decision prefix)
    def _m(s,compute,tag=None):
        # s.node identifies the list of facts exactly, so an answer is only reused for the same question
        k=(s.node,tag); r=s.ver.memo.get(k)
        if r is None: r=s.ver.memo[k]=(compute(),)
        return r[0]
    def addfact(s,f):
        s.facts.append(f); k=(s.node,f); n=s.ver.trie.get(k)
        if n is None: n=s.ver.trie[k]=len(s.ver.trie)+1
        s.node=n; s.nodes.append(n)
    def valid(s,f):
        f=s.nff(f)
        if isinstance(f,bool): return f
        if f in s.fset or s.quick(f): return True
        def q():
            s.ver.deadline()
            n=Not(f)
            if s.refuted(n): return False
            r,m=s.ver.solver.check(s,n,s)
            return r==z3.unsat
        return s._m(q,f)
    def refuted(s,n):
        """a known model of the facts satisfies n"""
        M=s.ver.solver.models
        for i in range(len(M)-1,-1,-1):
            if M[i].fits(s) and M[i].true(n):
                if i<len(M)-1: M.append(M.pop(i))
                return True
        return False
    def satisfiable(s,f): return not s.valid(Not(f))
    def model(s,f=None):
        """values of terms in some model of the facts (and f): returns evaluation function or None"""
        s.ver.deadline()
        r,m=s.ver.solver.check(s,f if f is not None else True)
        if m is None: return None
        def ev(l):
            v=m.eval(z(l),model_completion=True)
            return v.as_long()
        return ev
    def evalmodel(s,terms,f=None):
        """memoised: values of the given terms in one model, or None"""
        def q():
            ev=s.model(f)
            return None if ev is None else [ev(t) for t in terms]
        return s._m(q,('m',f,tuple(terms)))
    def choose(s,f,why=''):
        f=s.nff(f)
        if isinstance(f,bool): return f
        if s.valid(f): s.assume(f); return True
        if s.valid(Not(f)): s.assume(Not(f)); return False
        return s.fork(f,why)
    def fork(s,f=None,why=''):
        i=len(s.dec)
        if i<len(s.prefix): b=s.prefix[i]
        else:
            b=True
            s.ver.work.append(tuple(s.dec)+(False,))
        s.dec.append(b)
        if f is not None: s.assume(f if b else Not(f))
        return b
    def branch(s,n,why=''):
        """demonic choice among n alternatives"""
        for i in range(n-1):
            if s.fork(None,why): return i
        return n-1
    # ---- obligations
    def oblige(s,f,label,desc,hard=False,noassume=False):
        f=s.nff(f)
        def q():
            if isinstance(f,bool): 
                ok=f
                if not ok:
                    # unreachable?
                    r,m=s.ver.solver.check(s,True)
                    ok=(r==z3.unsat)
            else:
                if f in s.fset or s.quick(f): ok=True
                else:
                    s.ver.deadline()
                    r,m=s.ver.solver.check(s,Not(f)); ok=(r==z3.unsat)
            return ok
        k=(s.node,f,label,desc); new=k not in s.ver.oseen
        ok=s._m(q,('o',f))
        if new: s.ver.oseen.add(k); s.ver.nobl+=1; s.ver.ntriv+=f is True
        s.ver.note_obl(label,desc,s.line,ok)
        if not ok:
            if s.ver.inloopcheck: raise Retry(label,desc,f)
            s.ver.fail(s,label,desc,f)
            if hard: raise PathEnd()
        if not noassume: s.assume(f)
        return ok
    def hardfail(s,label,msg):
        """an obligation that failed structurally; unreachable paths are fine"""
        def q():
            r,m=s.ver.solver.check(s,True)
            return r==z3.unsat
        if s._m(q,'h'): raise PathEnd()
        s.ver.note_obl(label,msg,s.line,False)
        if s.ver.inloopcheck: raise Retry(label,msg)
        s.ver.fail(s,label,msg,None)
        raise PathEnd()
    # ---- sequences
    def fn(s,fn,e):
        if fn[0]=='fld': return e[fn[1]]
        if fn[0]=='uf': return uf(fn[1],*([e[fn[2]]]+list(fn[3:])))
        if fn[0]=='hidx': return s.hidx(fn,uf('rank',e[1]))
        raise Exception(fn)
    hsz={}
    perms=(); seqeqs=()
    def hidx(s,fn,cls): return s.nf(uf('urem',uf('hashcls',s.nf(cls)),s.nf(s.hsz[fn[1]])))
    def evalpreds(s,preds,e):
        return And(*[PRED[q[0]](s,e,*q[1:]) for q in sorted(preds,key=repr)])
    def norm(s,seq):
        out=[]
        for pc in seq:
            if pc[0]=='v':
                d=s.subst.get(pc[1])
                if d is None: out.append(pc)
                else:
                    out+=s.norm(s.mapseq(d,pc[2]))
            elif pc[0]=='u': out.append(('u',tuple(s.nf(x) for x in pc[1])))
            elif pc[0] in 'jz':
                n=s.nf(pc[1])
                if n.const()!=0: out.append((pc[0],n))
            else: out.append(pc)
        return tuple(out)
    def mapseq(s,seq,tag):
        if tag is None: return seq
        out=[]
        for pc in seq:
            if pc[0]=='v':
                if pc[2] is not None: raise Exception('nested tag')
                out.append(('v',pc[1],tag))
            elif pc[0]=='u':
                if tag[0]=='proj': out.append(('u',(pc[1][tag[1]],)))
                elif tag[0]=='filt':   # keep elements not satisfying the predicate
                    if not s.choose(s.evalpreds(tag[1],pc[1]),'filter'): out.append(pc)
                else: raise Exception(tag)
            else: out.append(pc)
        return tuple(out)
    def setsv(s,v,seq):
        """v := seq (definitional)"""
        assert v not in s.subst
        seq=s.norm(seq)
        s.subst[v]=seq
        todo=list(s.svattrs.get(v,()))
        for (tag,key) in todo:
            old=s.attrs[(v,tag,key)]
            if key[0] in('min','max'): s.bounds_of(seq,key,old); continue
            new=s.attr(s.mapseq(seq,tag),key)
            s.eqattr(old,new)
        for c in s.chunks: c.nf(s)
    def eqattr(s,a,b):
        s.assume(eq(a,b))
    def attr(s,seq,key):
        """value (Lin; 0/1 for 'sorted') of an attribute of a sequence"""
        seq=s.norm(seq)
        k=key[0]
        if k in('len','cnt','sum'):
            r=ZERO
            for pc in seq:
                if pc[0]=='v': r=r+s.svattr(pc[1],pc[2],key)
                elif pc[0]=='u':
                    if k=='len': r=r+1
                    elif k=='cnt': r=r+b2i(s.nff(s.evalpreds(key[1],pc[1])))
                    else: r=r+ite(s.nff(s.evalpreds(key[2],pc[1])),s.fn(key[1],pc[1]),0)
                elif k=='len': r=r+pc[1]
            return s.nf(r)
        if k in('first','last'):
            it=seq if k=='first' else seq[::-1]
            def go(i):
                if i>=len(it): return ZERO
                pc=it[i]
                if pc[0]=='u': return s.fn(key[1],pc[1])
                a=s.svattr(pc[1],pc[2],key)
                if i==len(it)-1: return a
                return ite(s.nff(gt(s.svattr(pc[1],pc[2],('len',)),0)),a,go(i+1))
            return s.nf(go(0))
        if k=='sorted':
            fn=key[1]; strict=key[2]
            if not seq: return ONE
            conj=[]
            for i,pc in enumerate(seq):
                if pc[0]=='v': conj.append(eq(s.svattr(pc[1],pc[2],key),1))
                if i:
                    # last of everything before against first of the rest, when both exist
                    pre=seq[:i]; post=seq[i:]
                    a=s.attr(pre,('last',fn)); b=s.attr(post,('first',fn))
                    c=lt(a,b) if strict else le(a,b)
                    conj.append(Or(eq(s.attr(pre,('len',)),0),eq(s.attr(post,('len',)),0),c))
            return b2i(s.nff(And(*conj)))
        raise Exception(key)
    def length(s,seq): return s.attr(seq,('len',))
    def svattr(s,v,tag,key):
        r=s.attrs.get((v,tag,key))
        if r is not None: return s.nf(r)
        k=key[0]
        # attributes of filtered sequences that reduce to attributes of the base
        if tag is not None:
            if tag[0]=='proj':
                if k=='len': return s.svattr(v,None,key)
            elif tag[0]=='filt':
                if k=='len': return s.svattr(v,None,key)-s.svattr(v,None,('cnt',tag[1]))
                if k=='cnt': return s.svattr(v,None,key)-s.svattr(v,None,('cnt',key[1]|tag[1]))
                if k=='sum': return s.svattr(v,None,key)-s.svattr(v,None,('sum',key[1],key[2]|tag[1]))
        name='%s.%s%s'%(v.name,repr(key),'' if tag is None else '@'+repr(tag))
        a=var(name)
        s.attrs[(v,tag,key)]=a; s.svattrs.setdefault(v,[]).append((tag,key))
        if v in s.subst:
            if k in('min','max'): s.bounds_of(s.subst[v],key,a); return s.nf(a)
            x=s.attr(s.mapseq(s.subst[v],tag),key); s.eqattr(a,x); return s.nf(a)
        s.attrfacts(v,tag,key,a)
        return s.nf(a)
    def bounds_of(s,seq,key,b):
        """b bounds the function for all elements of seq"""
        for pc in s.norm(seq):
            x=s.fn(key[1],pc[1]) if pc[0]=='u' else s.svattr(pc[1],None,key)
            f=ge(x,b) if key[0]=='min' else le(x,b)
            s.assume(f if pc[0]=='u' else Imp(gt(s.length((pc,)),0),f))
    def in_bounds(s,seq,fn,lo,hi):
        """formula: lo <= fn(e) <= hi for all elements"""
        r=[]
        for pc in s.norm(seq):
            if pc[0]=='u': r.append(And(ge(s.fn(fn,pc[1]),lo),le(s.fn(fn,pc[1]),hi)))
            else: r.append(Imp(gt(s.length((pc,)),0),And(ge(s.svattr(pc[1],None,('min',fn)),lo),le(s.svattr(pc[1],None,('max',fn)),hi))))
        return And(*r)
    def hash_lemma(s,v):
        """elements whose index lies outside the bounds do not occur"""
        for (t2,k2) in list(s.svattrs[v]):
            if t2 is not None or k2[0]!='min': continue
            lo=s.attrs[(v,None,k2)]; hi=s.svattr(v,None,('max',k2[1])); fn=k2[1]
            for (t3,k3) in list(s.svattrs[v]):
                if t3 is not None or k3[0]!='cnt': continue
                mark=('hl',v,k2,k3)
                if mark in s.attrs: continue
                s.attrs[mark]=True
                for q in k3[1]:
                    if q[0]!='eq': continue
                    if q[1]==fn: h=q[2]
                    elif q[1]==('uf','rank',1) and fn[0]=='hidx': h=s.hidx(fn,q[2])
                    else: continue
                    s.assume(Imp(Or(lt(h,lo),gt(h,hi)),eq(s.attrs[(v,None,k3)],0)))
    def attrfacts(s,v,tag,key,a):
        k=key[0]
        if k=='len': s.assume(ge(a,0)); s.assume(lt(a,PMAX))
        else: n=s.svattr(v,None,('len',)) if (tag is None or tag[0]=='proj') else s.svattr(v,tag,('len',))
        if k=='len' and tag is None:
            # if any cnt exists it refers to len; nothing else
            pass
        if k=='cnt':
            s.assume(ge(a,0)); s.assume(le(a,n))
            for (t2,k2) in s.svattrs[v]:
                if t2==tag and k2[0]=='cnt' and k2!=key:
                    b=s.attrs[(v,tag,k2)]
                    if key[1]<k2[1]: s.assume(le(b,a))
                    elif k2[1]<key[1]: s.assume(le(a,b))
                    # complementary single predicates
                    if len(key[1])==1 and len(k2[1])==1:
                        (p,),(q,)=key[1],k2[1]
                        if {p[0],q[0]}=={'eq','ne'} and p[1:]==q[1:]: s.assume(eq(a+b,n))
                        elif p[0]==q[0]=='eq' and p[1]==q[1] and p[1][0]=='uf' and p[2]!=q[2]: s.assume(Imp(eq(p[2],q[2]),eq(a,b)))
            s.order_lemma(v,tag)
            if s.hsz and tag is None: s.hash_lemma(v)
        if k in('min','max'):
            if k=='min': s.svattr(v,None,('max',key[1]))
            else: s.svattr(v,None,('min',key[1]))
            if k=='max': return
            s.assume(Imp(gt(n,0),le(a,s.svattr(v,None,('max',key[1]))))); s.hash_lemma(v)
        if k=='sum':
            c=s.svattr(v,tag,('cnt',key[2])) if key[2] else n
            s.assume(Imp(eq(c,0),eq(a,0)))
            s.assume(ge(a,0))
            fn=key[1]
            if fn[0]=='fld':
                s.assume(Imp(eq(c,1),lt(a,1<<(8*v.kind.fields[fn[1]][1]))))
        if k in('first','last'):
            fn=key[1]
            if fn[0]=='fld':
                sz=v.kind.fields[fn[1]][1]
                s.assume(ge(a,0)); s.assume(lt(a,1<<(8*sz)))
                if v.kind.node and fn[1]==0: s.assume(Imp(gt(n,0),And(ge(a,4096),lt(a,PMAX))))
            other=('last' if k=='first' else 'first',fn)
            if (v,tag,other) in s.attrs: s.assume(Imp(eq(n,1),eq(a,s.attrs[(v,tag,other)])))
            s.order_lemma(v,tag)
        if k=='sorted':
            s.assume(ge(a,0)); s.assume(le(a,1))
            f=s.svattr(v,tag,('first',key[1])); l=s.svattr(v,tag,('last',key[1]))
            s.assume(Imp(le(n,1),eq(a,1)))
            s.assume(Imp(And(eq(a,1),ge(n,1)),le(f,l)))
            if key[2]: s.assume(Imp(And(eq(a,1),ge(n,2)),lt(f,l)))
            s.order_lemma(v,tag)
    def order_lemma(s,v,tag):
        """sorted and all elements above/below a bound -> no element equal to it; strictly sorted -> at most one"""
        for (t2,k2) in list(s.svattrs[v]):
            if t2!=tag or k2[0]!='sorted': continue
            so=s.attrs[(v,tag,k2)]; fn=k2[1]
            for (t3,k3) in list(s.svattrs[v]):
                if t3!=tag or k3[0]!='cnt': continue
                for q in k3[1]:
                    if q[0]=='eq' and q[1]==fn:
                        mark=('ol',v,tag,k2,k3)
                        if mark in s.attrs: continue
                        s.attrs[mark]=True
                        f=s.svattr(v,tag,('first',fn)); l=s.svattr(v,tag,('last',fn)); c=s.attrs[(v,tag,k3)]
                        s.assume(Imp(And(eq(so,1),Or(gt(f,q[2]),lt(l,q[2]))),eq(c,0)))
                        if k2[2]: s.assume(Imp(eq(so,1),le(c,1)))
    def newelem(s,base,kind):
        e=[]
        for i,(nm,sz) in enumerate(kind.fields):
            if kind.node and i==0:
                e.append(s.freshv(base+'.'+nm,8,4096,PMAX))
            else: e.append(s.freshv(base+'.'+nm,sz))
        return tuple(e)
    def splitfirst(s,v):
        """v (known nonempty) := [e] ++ v'"""
        e=s.newelem('e',v.kind); r=s.freshsv(v.name.split('!')[0],v.kind)
        s.setsv(v,(('u',e),V(r))); return e
    def splitlast(s,v):
        e=s.newelem('e',v.kind); r=s.freshsv(v.name.split('!')[0],v.kind)
        s.setsv(v,(V(r),('u',e))); return e
    def splitkept(s,v,tag,last):
        """the first (or last) element of v that the filter keeps; one is known to be there"""
        if tag[0]!='filt': s.hardfail('shape','cannot open a filtered sequence')
        b0=v.name.split('!')[0]; e=s.newelem('e',v.kind); a=s.freshsv(b0,v.kind); b=s.freshsv(b0,v.kind)
        s.assume(Not(s.nff(s.evalpreds(tag[1],e)))); s.assume(eq(s.svattr(b if last else a,tag,('len',)),0))
        s.setsv(v,(V(a),('u',e),V(b))); return e
    def splitat(s,v,k):
        """v := a ++ [e] ++ b with len(a)==k (0<=k<len known)"""
        b0=v.name.split('!')[0]
        ln=s.svattr(v,None,('len',)); k=s.nf(k)
        e=s.newelem('e',v.kind)
        pcs=[]
        if not s.valid(eq(k,0)):
            a=s.freshsv(b0,v.kind); s.assume(eq(s.svattr(a,None,('len',)),k)); pcs.append(V(a))
        pcs.append(('u',e))
        if not s.valid(eq(k+1,ln)):
            b=s.freshsv(b0,v.kind); s.assume(eq(s.svattr(b,None,('len',)),ln-k-1)); pcs.append(V(b))
        s.setsv(v,tuple(pcs)); return e
    def cutat(s,v,k):
        """v := a ++ b with len(a)==k"""
        b0=v.name.split('!')[0]
        ln=s.svattr(v,None,('len',)); k=s.nf(k)
        a=s.freshsv(b0,v.kind); b=s.freshsv(b0,v.kind)
        s.assume(eq(s.svattr(a,None,('len',)),k)); s.assume(eq(s.svattr(b,None,('len',)),ln-k))
        s.setsv(v,(V(a),V(b)))
    def isempty(s,seq):
        return s.valid(eq(s.length(seq),0))
    def seq_eq(s,a,b,why=None):
        """are two sequences provably equal (structurally)?"""
        a=[x for x in s.norm(a)]; b=[x for x in s.norm(b)]
        def same(x,y):
            if x==y: return True
            if x[0]=='u' and y[0]=='u':
                return len(x[1])==len(y[1]) and s.valid(And(*[eq(p,q) for p,q in zip(x[1],y[1])]))
            if x[0]==y[0] and x[0] in 'jz': return s.valid(eq(x[1],y[1]))
            if x[0]=='z' and y[0]=='u' or x[0]=='u' and y[0]=='z':
                z,u=(x,y) if x[0]=='z' else (y,x)
                return len(u[1])==1 and s.valid(And(eq(z[1],1),eq(u[1][0],0)))
            if x[0] in 'jz' and y[0]=='u' or x[0]=='u' and y[0] in 'jz': return False
            return False
        while a and b and (a[0]==b[0]): a.pop(0); b.pop(0)
        while a and b and (a[-1]==b[-1]): a.pop(); b.pop()
        i=0
        while a or b:
            if a and b and same(a[0],b[0]): a.pop(0); b.pop(0); continue
            if a and a[0][0]!='u' and s.isempty((a[0],)): a.pop(0); continue
            if b and b[0][0]!='u' and s.isempty((b[0],)): b.pop(0); continue
            if a and b and same(a[-1],b[-1]): a.pop(); b.pop(); continue
            if a and b and a[0][0]=='z' and b[0][0]=='z':
                x,y=a[0][1],b[0][1]
                if s.valid(le(x,y)): a.pop(0); b[0]=('z',s.nf(y-x)); continue
                if s.valid(le(y,x)): b.pop(0); a[0]=('z',s.nf(x-y)); continue
            return False
        return True
    # ---- allocation facts
    def owner_facts(s,addr,guard,size=8):
        """the object at addr (under guard) is disjoint from every other object known"""
        size=L(size)
        def dis(a,n,g):
            if a==addr: return
            s.assume(Or(Not(guard),Not(g),le(addr+size,a),le(a+n,addr)))
        for o,a,n in s.toks: dis(a,n,True)
        for a,n in s.regions: dis(a,n,True)
        for c in s.chunks:
            for (a,g) in c.addrs(s): dis(a,L(c.span()),g)
    def add_region(s,addr,size):
        """an object of fixed size owned during the whole function"""
        addr=s.nf(L(addr)); size=s.nf(L(size))
        s.assume(ge(addr,4096)); s.assume(lt(addr+size,PMAX+1))
        s.owner_facts(addr,True,size); s.regions.append((addr,size))
    def add_chunk(s,c):
        c.nf(s)
        for f in c.facts(s): s.assume(f)
        c.nf(s)
        for (a,g) in c.addrs(s): s.owner_facts(a,g,c.span())
        s.chunks.append(c)
    def add_tok(s,owner,addr,size):
        s.assume(ge(addr,4096)); s.assume(lt(addr,PMAX))
        s.owner_facts(addr,True,size)
        s.toks.append((s.nf(L(owner)),s.nf(addr),s.nf(L(size))))
    def take_tok(s,owner,addr,label='memory',what='free'):
        addr=s.nf(addr)
        cand=None
        for i,(o,a,n) in enumerate(s.toks):
            if a==addr: cand=i;break
        if cand is None:
            for i,(o,a,n) in enumerate(s.toks):
                if s.valid(eq(a,addr)): cand=i; s.assume(eq(a,addr)); break
        if cand is None: return None
        o,a,n=s.toks[cand]
        if owner is not None:
            s.oblige(eq(o,owner),label,'%s: memory is released to where it came from'%what)
        del s.toks[cand]
        return n
    # ---- raw cells
    def add_cell(s,addr,size,val):
        addr=s.nf(addr)
        if addr in s.cells:
            s.addfact(F('eq',ONE)); raise PathEnd()
        s.cells[addr]=Cell(size,s.nf(L(val)))
    def find(s,addr,size,label='memory',what='access',soft=False):
        """make the cell [addr,addr+size) explicit and return its key"""
        for it in range(60):
            addr=s.nf(addr)
            c=s.cells.get(addr)
            if c is not None:
                if c.size==size: return addr
                return s.resize_cell(addr,size,label)
            hit=None
            for ch in list(s.chunks):
                m=ch.match(s,addr,size)
                if m is not None:
                    hit=(ch,m);break
            if hit:
                ch,m=hit
                m()
                continue
            if s.split_ite(addr): continue
            # semantic search
            if not s.find_semantic(addr,size):
                if soft: return None
                s.hardfail(label,'%s of %d bytes at %r is not to memory the function may touch here'%(what,size,addr))
        s.hardfail(label,'cannot resolve address %r'%addr)
    def resize_cell(s,addr,size,label):
        c=s.cells[addr]
        if size>c.size:
            # combine neighbouring cells little-endian
            tot=ZERO; off=0; keys=[]
            while off<size:
                k=s.find(addr+off,None or s.cells[addr].size if off==0 else s.cells[s.nf(addr+off)].size if s.nf(addr+off) in s.cells else 1,label)
                x=s.cells[k]; tot=tot+x.val*(1<<(8*off)); keys.append(k); off+=x.size
            if off!=size: s.hardfail(label,'access straddles objects')
            for k in keys: del s.cells[k]
            s.cells[addr]=Cell(size,tot); return addr
        v=c.val; n=c.size; del s.cells[addr]
        lo=s.nf(mod(v,1<<(8*size))); hi=s.nf(div(v,1<<(8*size)))
        s.cells[addr]=Cell(size,lo); s.cells[s.nf(addr+size)]=Cell(n-size,hi)
        return addr
    def split_ite(s,l):
        """case distinction on a conditional value"""
        for a,_ in s.nf(l).t:
            k=ATOMS[a].key
            if k is not None and k[0]=='ite':
                b=k[2] if s.choose(k[1],'conditional') else k[3]
                if a in s.rw or not a in {x for x,_ in s.nf(l).t}: return True
                one={a:s.nf(b)}
                for x in list(s.rw): s.rw[x]=rewrite(s.rw[x],one)
                s.rw[a]=one[a]; s.nfcache={}; s.rekey()
                return True
        return False
    def find_semantic(s,addr,size):
        """use a model to find a cell or chunk whose address may equal addr"""
        for ch in s.chunks:
            r=ch.sem(s,addr,size) if hasattr(ch,'sem') else None
            if r: return True
        cands=[]
        for k in s.cells: cands.append((k,None))
        for ch in s.chunks:
            for (a,g) in ch.addrs(s): cands.append((a,ch))
        terms=[addr]+[a for a,_ in cands]
        vals=s.evalmodel(terms)
        if vals is None: raise PathEnd()
        v=vals[0]
        for (a,ch),w in zip(cands,vals[1:]):
            if ch is None and w==v and a!=addr:
                if s.choose(eq(a,addr),'alias'):
                    # an equation that is no rewrite rule: the cell is known by the address in use
                    a=s.nf(a); b=s.nf(addr)
                    if a!=b and a in s.cells and b not in s.cells: s.cells[b]=s.cells.pop(a)
                    return True
                return s.find_semantic(addr,size)
        for (a,ch),w in zip(cands,vals[1:]):
            if ch is not None and 0<=v-w<ch.span() :
                off=v-w
                if (addr-a).t and s.choose(eq(addr,a+off),'alias'): return True
                elif (addr-a).t: return s.find_semantic(addr,size)
        return False
    def load(s,addr,size):
        k=s.find(addr,size,'memory','read')
        return s.cells[k].val
    def store(s,addr,size,val):
        k=s.find(addr,size,'memory','write')
        s.cells[k]=Cell(size,s.nf(val))
    def take_cell(s,addr,size,label='shape',what='state'):
        k=s.find(addr,size,label,what)
        c=s.cells.pop(k); return c.val
    def addchunk_remove(s,ch): 
        for i,c in enumerate(s.chunks):
            if c is ch: del s.chunks[i]; return
        raise Exception('chunk not present')

def basediff(a,b):
    """a-b if it is a constant else None"""
    if a.t==b.t: return a.c-b.c
    return None

# ---------------------------------------------------------------- node kinds
class NodeKind:
    res=None   # further memory that a node owns: object with open(p,elem) and close(p,elem,label)
    """heap nodes of one C struct.  elem = (addr, field values...)"""
    def __init__(s,name,size,fields,next,prev=None):
        s.name=name; s.size=size; s.fields=fields; s.next=next; s.prev=prev
        s.ek=EKind(name,[('addr',8)]+[(n,sz) for n,off,sz in fields],True)
        used=sorted([(off,sz) for _,off,sz in fields]+[(next,8)]+([(prev,8)] if prev is not None else []))
        s.pads=[]; o=0
        for off,sz in used:
            if off>o: s.pads.append((o,off-o))
            o=off+sz
        if o<size: s.pads.append((o,size-o))

def node_cells(p,k,e,nxt,prv,owner):
    a=e[0]
    for (n,off,sz),v in zip(k.fields,e[1:]): p.add_cell(a+off,sz,v)
    p.add_cell(a+k.next,8,nxt)
    if k.prev is not None: p.add_cell(a+k.prev,8,prv)
    for off,sz in k.pads: p.add_chunk(Raw(a+off,C(sz),'j'))
    p.add_tok(owner,a,k.size)
    if k.res is not None: k.res.open(p,e)

class Raw(Chunk):
    """bytes with unspecified ('j') or zero ('z') content, constant size"""
    def same(s,p,o): return s.addr==o.addr and s.size==o.size and s.fill==o.fill
    def __init__(s,addr,size,fill): s.addr=addr; s.size=L(size); s.fill=fill
    def __repr__(s): return 'raw(%r,%r,%s)'%(s.addr,s.size,s.fill)
    def nf(s,p): s.addr=p.nf(s.addr); s.size=p.nf(s.size)
    def span(s): return s.size.const() or 8
    def addrs(s,p): return []
    def match(s,p,addr,size):
        d=basediff(addr,s.addr)
        n=s.size.const()
        if d is not None and n is not None and 0<=d<n and d+size<=n: return lambda: s.carve(p,d,size)
        if n is None and d is not None or (n is None and s.addr.t and set(a for a,_ in s.addr.t)<=set(a for a,_ in addr.t)):
            return lambda: s.toarr(p,size)
        return None
    def sem(s,p,addr,size):
        if s.size.const() is not None or not set(a for a,_ in s.addr.t)&set(a for a,_ in addr.t): return False
        f=And(ge(addr,s.addr),le(addr+size,s.addr+s.size))
        if p.satisfiable(f) and p.choose(f,'spare memory'):
            s.toarr(p,size); return True
        return False
    def toarr(s,p,size):
        """view as an array of elements of the accessed size"""
        n=div(s.size,size)
        if (n*size)!=s.size: 
            if not p.valid(eq(n*size,s.size)): p.hardfail('memory','array size is not a multiple of the element size')
        from heap import Arr
        p.addchunk_remove(s); p.add_chunk(Arr(s.addr,size,((s.fill,n),)))
    def carve(s,p,d,size):
        n=s.size.const(); p.addchunk_remove(s)
        if d: p.chunks.append(Raw(s.addr+d*0,C(d),s.fill))
        v=ZERO if s.fill=='z' else p.freshv('junk',size)
        p.add_cell(s.addr+d,size,v)
        if d+size<n: p.chunks.append(Raw(s.addr+d+size,C(n-d-size),s.fill))

class LSeg(Chunk):
    """list segment of nodes from x (inclusive) to y (exclusive); for doubly linked kinds px is the predecessor of the
    first node (or of y if empty) and ly the last node (or px if empty)"""
    def __init__(s,kind,x,y,seq,owner,px=None,ly=None):
        s.k=kind; s.x=L(x); s.y=L(y); s.seq=tuple(seq); s.owner=L(owner); s.px=None if px is None else L(px); s.ly=None if ly is None else L(ly)
    def __repr__(s): return 'lseg(%s,%r,%r,%r%s)'%(s.k.name,s.x,s.y,list(s.seq),'' if s.px is None else ',px=%r,ly=%r'%(s.px,s.ly))
    def nf(s,p):
        s.x=p.nf(s.x); s.y=p.nf(s.y); s.owner=p.nf(s.owner); s.seq=p.norm(s.seq)
        if s.px is not None: s.px=p.nf(s.px); s.ly=p.nf(s.ly)
    def span(s): return s.k.size
    def first(s,p): return p.attr(s.seq,('first',('fld',0)))
    def last(s,p): return p.attr(s.seq,('last',('fld',0)))
    def same(s,p,o): return s.k is o.k and s.x==o.x and s.y==o.y and s.owner==o.owner and s.px==o.px and s.ly==o.ly and p.seq_eq(s.seq,o.seq)
    def facts(s,p):
        n=p.length(s.seq)
        r=[Imp(gt(n,0),And(eq(s.x,s.first(p)),ge(s.x,4096),lt(s.x,PMAX))),Imp(eq(n,0),eq(s.x,s.y))]
        if s.px is not None: r+=[Imp(gt(n,0),eq(s.ly,s.last(p))),Imp(eq(n,0),eq(s.ly,s.px))]
        else: s.last(p)
        us=[]
        for i,pc in enumerate(s.seq):
            if pc[0]=='u':
                if i: r.append(Imp(gt(p.length(s.seq[:i]),0),ne(s.x,pc[1][0])))
                if i<len(s.seq)-1 and s.ly is not None: r.append(Imp(gt(p.length(s.seq[i+1:]),0),ne(s.ly,pc[1][0])))
                for u in us: r.append(ne(u,pc[1][0]))
                us.append(pc[1][0])
        return r
    def addrs(s,p):
        n=p.nff(gt(p.length(s.seq),0))
        r=[(s.x,n)]
        l=s.ly if s.ly is not None else s.last(p)
        if l!=s.x: r.append((p.nf(l),n))
        for pc in s.seq:
            if pc[0]=='u' and pc[1][0]!=s.x and pc[1][0]!=l: r.append((pc[1][0],True))
        if s.ly is not None:
            for pc in s.seq[:-1]:
                if pc[0]=='v': r.append((p.nf(p.svattr(pc[1],pc[2],('last',('fld',0)))),p.nff(gt(p.length((pc,)),0))))
        return r
    def starts(s,p):
        """(index of piece, how, address of a node in it)"""
        out=[]
        for i,pc in enumerate(s.seq):
            if pc[0]=='u': out.append((i,'u',pc[1][0]))
            else:
                out.append((i,'f',p.svattr(pc[1],pc[2],('first',('fld',0)))))
                out.append((i,'l',p.svattr(pc[1],pc[2],('last',('fld',0)))))
        return out
    def match(s,p,addr,size):
        d=basediff(addr,s.x)
        if d is not None and 0<=d<s.k.size: return lambda: s.open_first(p)
        if s.ly is not None:
            d=basediff(addr,s.ly)
            if d is not None and 0<=d<s.k.size: return lambda: s.open_last(p)
        for i,how,a in s.starts(p):
            d=basediff(addr,p.nf(a))
            if d is not None and 0<=d<s.k.size: return lambda: s.open_at(p,i,how)
        return None
    def sem(s,p,addr,size):
        for i,how,a in s.starts(p):
            if i==0 and how=='f': continue
            for off in range(0,s.k.size,8):
                if p.valid(eq(addr,a+off)):
                    p.assume(eq(addr,a+off)); s.open_at(p,i,how); return True
        return False
    def settle(s,p):
        if s.x.const()==0 and s.y.const()==0 and s.seq and not any(pc[0]=='u' for pc in s.seq): s.empty(p)
    def empty(s,p):
        """the segment is empty on this path"""
        p.addchunk_remove(s)
        for pc in s.seq:
            if pc[0]=='v' and pc[1] not in p.subst and pc[2] is None: 
                p.setsv(pc[1],())
            elif pc[0]=='u': p.assume(False)
        p.assume(eq(s.x,s.y))
        if s.px is not None: p.assume(eq(s.ly,s.px))
    def open_first(s,p):
        if not p.choose(gt(p.length(s.seq),0),'segment nonempty'): return s.empty(p)
        # first piece that can be nonempty
        while True:
            if not s.seq: p.assume(False)
            if s.seq[0][0]!='v': break
            v=s.seq[0]
            if p.choose(gt(p.svattr(v[1],v[2],('len',)),0),'first piece nonempty'):
                if v[2] is not None: p.splitkept(v[1],v[2],False); s.nf(p); s.seq=s.seq[1:] if s.seq[0][0]=='v' else s.seq; break
                e=p.splitfirst(v[1]); break
            else:
                rest=s.seq[1:]
                if v[2] is None: p.setsv(v[1],())
                s.seq=p.norm(rest)
        s.nf(p); s.split_unit(p,0)
    def open_last(s,p):
        if not p.choose(gt(p.length(s.seq),0),'segment nonempty'): return s.empty(p)
        while True:
            if not s.seq: p.assume(False)
            if s.seq[-1][0]!='v': break
            v=s.seq[-1]
            if p.choose(gt(p.svattr(v[1],v[2],('len',)),0),'last piece nonempty'):
                if v[2] is not None: p.splitkept(v[1],v[2],True); s.nf(p); s.seq=s.seq[:-1] if s.seq[-1][0]=='v' else s.seq; break
                p.splitlast(v[1]); break
            else:
                rest=s.seq[:-1]
                if v[2] is None: p.setsv(v[1],())
                s.seq=p.norm(rest)
        s.nf(p); s.split_unit(p,len(s.seq)-1)
    def open_at(s,p,i,how):
        pc=s.seq[i]
        if how!='u':
            if not p.choose(gt(p.svattr(pc[1],pc[2],('len',)),0),'piece nonempty'):
                rest=s.seq[:i]+s.seq[i+1:]
                if pc[2] is None and pc[1] not in p.subst: p.setsv(pc[1],())
                s.seq=p.norm(rest)
                return
            pre=p.norm(s.seq[:i])
            if pc[2] is not None:
                e=p.splitkept(pc[1],pc[2],how=='l'); s.nf(p)
                j=[n for n,x in enumerate(s.seq) if x[0]=='u' and x[1][0]==p.nf(e[0])][0]
                if how=='f' and j>len(pre): s.seq=s.seq[:j-1]+s.seq[j:]; j-=1
                if how=='l' and len(s.seq)>j+1 and s.seq[j+1][0]=='v' and p.isempty((s.seq[j+1],)): s.seq=s.seq[:j+1]+s.seq[j+2:]
                s.split_unit(p,j)
            elif how=='f':
                p.splitfirst(pc[1]); s.nf(p); s.split_unit(p,len(pre))
            else:
                post=len(s.seq)-i-1
                p.splitlast(pc[1]); s.nf(p); s.split_unit(p,len(s.seq)-1-post)
        else: s.split_unit(p,i)
    def split_unit(s,p,i):
        """isolate the unit piece i as an explicit node"""
        e=s.seq[i][1]; pre=s.seq[:i]; post=s.seq[i+1:]
        p.addchunk_remove(s)
        a=e[0]
        if not post: nx=s.y
        elif post[0][0]=='u': nx=post[0][1][0]
        else: nx=p.freshv('n',8,0,PMAX)
        pv=None
        if s.px is not None:
            if not pre: pv=s.px
            elif pre[-1][0]=='u': pv=pre[-1][1][0]
            else: pv=p.freshv('pv',8,0,PMAX)
        if not pre: p.assume(eq(s.x,a))
        if not post and s.px is not None: p.assume(eq(s.ly,a))
        node_cells(p,s.k,e,nx,pv,s.owner)
        if pre: p.add_chunk(LSeg(s.k,s.x,a,pre,s.owner,s.px,pv if s.px is not None else None))
        if post: p.add_chunk(LSeg(s.k,nx,s.y,post,s.owner,a if s.px is not None else None,s.ly))

class LinkSeg(Chunk):
    """chain starting in the link cell at address a and ending in the link cell at address b (which is owned
    separately): empty means a==b"""
    def __init__(s,kind,a,b,seq,owner,c=None,px=None,ly=None):
        s.k=kind; s.a=L(a); s.b=L(b); s.seq=tuple(seq); s.owner=L(owner); s.c=c; s.px=None if px is None else L(px); s.ly=None if ly is None else L(ly)
    def __repr__(s): return 'links(%s,%r,%r,%r)'%(s.k.name,s.a,s.b,list(s.seq))
    def nf(s,p):
        s.a=p.nf(s.a); s.b=p.nf(s.b); s.owner=p.nf(s.owner); s.seq=p.norm(s.seq)
        if s.px is not None: s.px=p.nf(s.px); s.ly=p.nf(s.ly)
    def span(s): return 8
    def facts(s,p):
        n=p.length(s.seq)
        l=p.attr(s.seq,('last',('fld',0)))
        r=[Imp(gt(n,0),eq(s.b,l+s.k.next)),Imp(eq(n,0),eq(s.a,s.b))]
        if s.px is not None: r+=[Imp(gt(n,0),eq(s.ly,l)),Imp(eq(n,0),eq(s.ly,s.px))]
        return r
    def addrs(s,p): return []
    def match(s,p,addr,size):
        if addr==s.a: return lambda: s.convert(p)
        # the last node's fields, when known nonempty
        l=p.nf(p.attr(s.seq,('last',('fld',0)))) if s.seq else None
        if l is not None:
            d=basediff(addr,l)
            if d is not None and 0<=d<s.k.size: return lambda: s.convert(p)
        if s.ly is not None:
            d=basediff(addr,s.ly)
            if d is not None and 0<=d<s.k.size: return lambda: s.convert(p)
        d=basediff(addr,s.b-s.k.next)
        if d is not None and 0<=d<s.k.size and d!=s.k.next: return lambda: s.convert(p)
        return None
    def convert(s,p):
        """links(a,b,P) * b|->c  ==  a|->h * lseg(h,c,P)"""
        if s.b in p.cells:
            c=p.cells.pop(s.b).val
            p.addchunk_remove(s)
            h=p.freshv('h',8,0,PMAX)
            p.add_cell(s.a,8,h)
            p.add_chunk(LSeg(s.k,h,c,s.seq,s.owner,s.px,s.ly))
            # the cell at b now lives inside the last node (or at a)
        else: p.hardfail('shape','link chain without its end')
