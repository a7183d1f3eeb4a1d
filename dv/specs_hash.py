"""Contracts of hashtable.c (C09, C10, C11, C16).

A table owns an array of n chain heads and the entries of all chains; every entry is in the chain that its hash
selects.  The entries of buckets lo..hi-1, concatenated, are one sequence."""
from spec import *
from specs_list import tok_take,hint
from specs_stack import MAC
from specs_pool import own_pool,take_pool,PoolObj
from heap import take_arr,gather_range,gather
from loops import Strat
RANK=('uf','rank',1); KEY=('fld',1); DAT=('fld',2)
class Bkts(Chunk):
    loop_open=True
    """heads of the buckets lo..hi-1 of the array at base, and their chains; T: all entries in order"""
    def __init__(s,base,lo,hi,nm,T,kind,powner): s.base=L(base); s.lo=L(lo); s.hi=L(hi); s.nm=nm; s.T=tuple(T); s.k=kind; s.powner=L(powner)
    def __repr__(s): return 'buckets(%r,%r..%r,%r)'%(s.base,s.lo,s.hi,list(s.T))
    @property
    def addr(s): return s.base+s.lo*8
    def nf(s,p): s.base=p.nf(s.base); s.lo=p.nf(s.lo); s.hi=p.nf(s.hi); s.T=p.norm(s.T); s.powner=p.nf(s.powner)
    def facts(s,p): return [p.in_bounds(s.T,('hidx',s.nm),s.lo,s.hi-1)]
    def same(s,p,o): return s.base==o.base and s.lo==o.lo and s.hi==o.hi and s.nm==o.nm and s.powner==o.powner and p.seq_eq(s.T,o.T)
    def span(s): return 8
    def index(s,addr):
        d=addr-s.base
        if d.c%8 or any(k%8 for _,k in d.t): return None
        if s.base.t and not set(a for a,_ in s.base.t)&set(a for a,_ in addr.t): return None
        return div(d,8)
    def match(s,p,addr,size):
        if size!=8: return None
        i=s.index(addr)
        if i is None or not p.valid(And(ge(i,s.lo),lt(i,s.hi))): return None
        return lambda: s.open(p,i)
    def sem(s,p,addr,size):
        if size!=8: return False
        i=s.index(addr)
        if i is None: return False
        f=And(ge(i,s.lo),lt(i,s.hi))
        if p.satisfiable(f) and p.choose(f,'bucket'): s.open(p,i); return True
        return False
    def settle(s,p):
        if s.T and not any(pc[0]=='u' for pc in s.T) and p.valid(eq(s.lo,s.hi)):
            p.addchunk_remove(s)
            for pc in s.T:
                if pc[0]=='v' and pc[1] not in p.subst: p.setsv(pc[1],())
    def part(s,p,lo,hi,T):
        if lo==hi or p.valid(eq(lo,hi)): return
        p.add_chunk(Bkts(s.base,lo,hi,s.nm,T,s.k,s.powner))
    def cut(s,p,i):
        """two pieces: buckets below i and from i"""
        p.addchunk_remove(s); A,B=cut_idx(p,s.T,('hidx',s.nm),i)
        s.part(p,s.lo,i,A); s.part(p,i,s.hi,B)
    def open(s,p,i):
        i=p.nf(i); p.addchunk_remove(s); fn=('hidx',s.nm)
        A,X=cut_idx(p,s.T,fn,i); C1,B=cut_idx(p,X,fn,p.nf(i+1)); A=p.norm(A); C1=p.norm(C1)
        s.part(p,s.lo,i,A); s.part(p,p.nf(i+1),s.hi,B)
        h=p.freshv('bucket',8,0,PMAX); p.assume(p.in_bounds(C1,fn,i,i))
        p.add_cell(s.base+i*8,8,h); p.add_chunk(LSeg(s.k,h,0,C1,s.powner))
    def asarr(s,p):
        # the heads become plain memory, the entries still belong to their pool
        if not p.isempty(s.T): p.chunks.append(Orphans(s.k,s.T,s.powner))
        return ('arr',8,(('j',p.nf(s.hi-s.lo)),))
    def pool_gone(s,p,a):
        if p.nf(s.powner)==p.nf(a): p.addchunk_remove(s); p.chunks.append(Arr(s.addr,8,(('z' if p.isempty(s.T) else 'j',p.nf(s.hi-s.lo)),)))
    def reconsume(s,p):
        T=gather_bkts(p,s.base,s.lo,s.hi,s.nm,s.powner,s.k,'loop')
        if not p.seq_eq(T,s.T): raise Retry()
    def loop_options(s,p,lc,mods):
        out=[]
        for m in mods:
            c=p.cells.get(p.nf(m))
            if c is None or c.size!=8: continue
            v=p.nf(c.val)
            for base,sc in ((ZERO,1),(s.base,8)):
                at=lambda i: p.nf(base+i*sc)
                for down,incl,x in ((False,0,s.lo),(True,0,s.hi),(True,1,s.hi-1)):
                    if v==at(x) or (sc==1 or v.t and v.t[0][0] in [a for a,_ in base.t]) and p.valid(eq(v,at(x))):
                        for mode in ('free',) if acc_option(p,lc,mods) else ('retain','zero','drop'): out.append(lambda m=m,base=base,sc=sc,down=down,incl=incl,mode=mode: BktCursor(m,s,base,sc,down,incl,mode)); 
                        break
        return out
def fold_bkts(p,mods):
    """before a loop: buckets that were opened and that nothing else refers to go back into one piece"""
    for b0 in [c for c in p.chunks if isinstance(c,Bkts)]:
        if b0 not in p.chunks: continue
        base,nm,owner,k=b0.base,b0.nm,b0.powner,b0.k; mine=[c for c in p.chunks if isinstance(c,Bkts) and c.base==base and c.nm==nm and c.powner==owner]
        lo=b0.lo; pieces={c.lo:c for c in mine}; segs=[c for c in p.chunks if isinstance(c,LSeg) and c.k is k and c.owner==owner and c.y==ZERO]
        # to the left as far as it goes, then to the right
        def left(at):
            for c in mine:
                if c.hi==at and c.lo!=at: return c.lo
            a=p.nf(at-1); return a if usable(a) is not None else None
        def usable(i):
            c=p.cells.get(p.nf(base+i*8))
            if c is None or c.size!=8: return None
            v=p.nf(c.val)
            if v==ZERO: return (),None
            for g in segs:
                if g.x==v and p.valid(p.in_bounds(g.seq,('hidx',nm),i,i)): return g.seq,g
            return None
        def go(step,pos):
            n=0
            for _ in range(20):
                q=step(pos)
                if q is None: break
                pos=q; n+=1
            return pos
        def right(at):
            c=pieces.get(at)
            if c is not None and c.hi!=at: return c.hi
            return p.nf(at+1) if usable(at) is not None else None
        lo=go(left,lo); hi=go(right,lo); slots=[]; pos=lo
        while pos!=hi:
            if pos in pieces: pos=pieces[pos].hi; continue
            slots.append(pos); pos=p.nf(pos+1)
        if not slots: continue
        # a variable of the loop that stands between two buckets: its cursor needs the border there
        mv=[p.nf(p.cells[p.nf(m)].val) for m in mods if p.nf(m) in p.cells]
        inner=[x for x in [y for i in slots for y in (i,p.nf(i+1))]+[y for c in mine for y in (c.lo,c.hi)] if x not in (lo,hi)]; inner+=[p.nf(base+8*x) for x in inner]
        if any(x in inner for x in mv): continue
        gs=[usable(i) for i in slots]; addrs=[p.nf(base+i*8) for i in slots]
        heads=[g.x for _,g in gs if g is not None]; nodes=[p.nf(pc[1][0]) for t,_ in gs for pc in t if pc[0]=='u']
        # a pointer to a slot or to an entry in a variable keeps the bucket open
        if any(p.nf(c.val) in addrs or c.val.c not in (0,) and p.nf(c.val) in heads+nodes or c.val.t and p.nf(c.val) in heads+nodes for a,c in p.cells.items() if p.nf(a) not in addrs): continue
        T=gather_bkts(p,base,lo,hi,nm,owner,k,'loop'); p.add_chunk(Bkts(base,lo,hi,nm,T,k,owner))
FOLD_HOOKS.append(fold_bkts)
class Orphans(Chunk):
    """entries whose bucket is gone; they still belong to the pool"""
    def __init__(s,k,T,owner): s.k=k; s.T=tuple(T); s.owner=L(owner)
    def __repr__(s): return 'orphans(%r)'%list(s.T)
    def nf(s,p): s.T=p.norm(s.T); s.owner=p.nf(s.owner)
    def span(s): return 0
    def same(s,p,o): return s.owner==o.owner and p.seq_eq(s.T,o.T)
def cut_idx(p,T,fn,i):
    """T is ascending in its index: the entries with an index below i, and the others"""
    T=p.norm(T); A=()
    for j,pc in enumerate(T):
        if pc[0]=='u':
            if p.choose(lt(p.fn(fn,pc[1]),i),'bucket of the entry'): A+=(pc,); continue
            return A,T[j:]
        n=p.length((pc,)); lo=p.svattr(pc[1],None,('min',fn)); hi=p.svattr(pc[1],None,('max',fn))
        if p.valid(Or(eq(n,0),lt(hi,i))): A+=(pc,); continue
        if p.valid(Or(eq(n,0),ge(lo,i))): return A,T[j:]
        b0=pc[1].name.split('!')[0]
        a=p.freshsv(b0,pc[1].kind); b=p.freshsv(b0,pc[1].kind)
        p.assume(Imp(gt(p.svattr(a,None,('len',)),0),lt(p.svattr(a,None,('max',fn)),i))); p.assume(Imp(gt(p.svattr(b,None,('len',)),0),ge(p.svattr(b,None,('min',fn)),i)))
        p.setsv(pc[1],(V(a),V(b)))
        # later pieces: not below an earlier one
        rest=T[j+1:]
        for q in rest:
            if q[0]=='u': p.assume(Imp(gt(p.svattr(b,None,('len',)),0),ge(p.fn(fn,q[1]),i)))
            else: p.assume(Imp(And(gt(p.svattr(b,None,('len',)),0),gt(p.length((q,)),0)),ge(p.svattr(q[1],None,('min',fn)),i)))
        if rest and not p.choose(eq(p.svattr(b,None,('len',)),0),'cut inside'): return A+(V(a),),(V(b),)+rest
        if not rest: return A+(V(a),),(V(b),)
        A+=(V(a),)
    return A,()
def gather_bkts(p,base,lo,hi,nm,owner,kind,label):
    """consume the buckets lo..hi-1; every entry must be in the bucket its hash selects"""
    pos=p.nf(lo); hi=p.nf(hi); base=p.nf(base); out=[]; fn=('hidx',nm)
    for _ in range(60):
        pos=p.nf(pos); hi=p.nf(hi)
        if pos==hi or p.valid(eq(pos,hi)):
            for c in list(p.chunks):
                if isinstance(c,Bkts) and c.base==base and p.valid(eq(c.lo,c.hi)): p.addchunk_remove(c)
            return p.norm(tuple(out))
        hit=None
        for c in p.chunks:
            if isinstance(c,Bkts) and c.base==base and (c.lo==pos or p.valid(eq(c.lo,pos))): hit=c; break
        if hit is not None:
            p.oblige(And(eq(hit.powner,owner)),label,'entries belong to the pool of the table')
            if not p.valid(le(hit.hi,hi)):
                if p.choose(ge(hit.hi,hi),'bucket range'): hit.cut(p,hi); continue
            if hit.nm!=nm: p.hardfail(label,'entries are in the buckets that their hash selects for the size of the table')
            p.addchunk_remove(hit); out+=list(hit.T); pos=hit.hi; continue
        a=p.nf(base+pos*8)
        c=p.cells.get(a)
        if c is not None and c.size==8:
            del p.cells[a]; C1,_=gather(p,kind,c.val,0,owner,label)
            p.oblige(p.in_bounds(C1,fn,pos,pos),'bucket' if label!='loop' else label,'every entry is in the bucket that its hash selects')
            out+=list(C1); pos=p.nf(pos+1); continue
        for c in list(p.chunks):
            if isinstance(c,Bkts) and c.base==base and p.valid(And(lt(c.lo,pos),lt(pos,c.hi))): c.cut(p,pos); hit=True; break
        if hit: continue
        # plain memory: zero means empty
        z=None
        for c in p.chunks:
            if isinstance(c,(Raw,Arr)) and (c.addr==a or c.addr.t and set(x for x,_ in c.addr.t)&set(x for x,_ in a.t) and p.valid(eq(c.addr,a))): z=c; break
        if isinstance(z,Raw): z.toarr(p,8); continue
        if isinstance(z,Arr):
            if p.isempty(z.seq): p.addchunk_remove(z); continue
            if z.esz==8 and z.seq[0][0]=='z' :
                n=z.seq[0][1]; p.addchunk_remove(z)
                if len(z.seq)>1: p.add_chunk(Arr(p.nf(a+n*8),8,z.seq[1:]))
                pos=p.nf(pos+n); continue
            if z.esz==8 and z.seq[0][0]=='j': p.hardfail(label,'the memory of a bucket is not initialised')
        if not p.valid(lt(pos,hi)) and p.choose(eq(pos,hi),'bucket range'): continue
        p.find(a,8,label,'bucket'); 
    p.hardfail(label,'gathering buckets does not end')
# ---------------------------------------------------------------- multisets of entries
def mdiff(p,X,Y):
    """X - Y as a formal sum of pieces, modulo the known rearrangements; empty list: the same entries"""
    D={}
    def add(seq,k):
        for pc in p.norm(seq):
            if pc[0]!='u' and pc not in D and p.isempty((pc,)): continue
            D[pc]=D.get(pc,0)+k
            if not D[pc]: del D[pc]
    add(X,1); add(Y,-1)
    for a,b in reversed(p.perms):
        vs=[pc for pc in p.norm(a) if pc[0]=='v' and pc in D]
        if vs and p.norm(a)!=p.norm(b): k=D[vs[0]]; add(b,k); add(a,-k)
    D={pc:k for pc,k in D.items() if pc[0]=='u' or not p.isempty((pc,))}
    us=[pc for pc in D if pc[0]=='u']
    for i,x in enumerate(us):
        for y in us[i+1:]:
            if x in D and y in D and D[x]*D[y]<0 and p.valid(And(*[eq(a,b) for a,b in zip(x[1][1:],y[1][1:])])):
                k=min(abs(D[x]),abs(D[y]))
                for z in (x,y):
                    D[z]-=k if D[z]>0 else -k
                    if not D[z]: del D[z]
    return D
def mpost(cs,actual,expected,desc):
    p=cs.p; D=mdiff(p,actual,expected); ok=not D
    p.ver.nobl+=1; p.ver.note_obl('pairs',desc,p.line,ok)
    if ok: return
    def unreach():
        r,m=p.ver.solver.check(p,True); return r==z3.unsat
    if p._m(unreach,'h'): raise PathEnd()
    p.ver.fail(p,'pairs',desc,'%r   expected   %r   difference %r'%(p.norm(actual),p.norm(expected),D))
def cnt(p,seq,*preds):
    k=('cnt',frozenset(preds))
    for a,b in p.perms: p.assume(eq(p.attr(a,k),p.attr(b,k)))
    return p.attr(seq,k)
# ---------------------------------------------------------------- loops
class BktCursor(Strat):
    """cell m walks the buckets lo..hi-1 (position base+scale*index)"""
    def __init__(s,m,ch,base,sc,down,incl,mode): s.m=m; s.ch=ch; s.base=base; s.sc=sc; s.down=down; s.incl=incl; s.mode=mode; s.cells=(m,)
    def __repr__(s): return 'bucket cursor (%s%s)'%(s.mode,', down' if s.down else '')
    def at(s,p,i): return p.nf(s.base+(i-s.incl)*s.sc)
    def entryview(s,p,v): v.P.append(()); v.R.append(s.ch.T); v.x.append(p.nf(s.ch.hi if s.down else s.ch.lo))
    def enter(s,p,lc):
        ch=s.ch
        for c in p.chunks:
            if isinstance(c,Bkts) and c.base==p.nf(ch.base) and c.lo==p.nf(ch.lo) and c.hi==p.nf(ch.hi): ch=c
        p.addchunk_remove(ch); s.ch=ch; s.S=ch.T; lo,hi=ch.lo,ch.hi
        i=p.freshv('i',8); p.assume(ge(i,lo)); p.assume(le(i,hi)); s.i=i
        A,B=cut_idx(p,s.S,('hidx',ch.nm),i); A=p.norm(A); B=p.norm(B); before=list(p.chunks)
        s.P,s.R=(B,A) if s.down else (A,B)
        for a,b,T,mine in ((lo,i,A,s.down),(i,hi,B,not s.down)):
            if s.mode=='retain' or mine: p.add_chunk(Bkts(ch.base,a,b,ch.nm,T,ch.k,ch.powner))
            elif s.mode=='zero': p.add_chunk(Bkts(ch.base,a,b,ch.nm,(),ch.k,ch.powner)); p.chunks.append(Orphans(ch.k,T,ch.powner))
            elif s.mode=='drop': p.add_chunk(Bkts(ch.base,a,b,ch.nm,(),ch.k,ch.powner))
            else: p.chunks.append(Arr(p.nf(ch.base+a*8),8,(('j',p.nf(b-a)),)))
        p.cells[p.nf(s.m)]=Cell(8,p.fromsigned(s.at(p,i),64) if s.incl and s.sc==1 else s.at(p,i)); s.chunks=[c for c in p.chunks if c not in before]
        lc.view.P.append(s.P); lc.view.R.append(s.R); lc.view.x.append(i)
    def check(s,p,lc,v):
        ch=s.ch; x=p.nf(p.cells[p.nf(s.m)].val)
        if s.incl and s.sc==1: x=p.signed(x,64)
        d=p.nf(x-s.base)
        if d.c%s.sc or any(k%s.sc for _,k in d.t): raise Retry()
        i=p.nf(div(d,s.sc)+s.incl); lo,hi=p.nf(ch.lo),p.nf(ch.hi)
        if not p.valid(And(ge(i,lo),le(i,hi))): raise Retry()
        if not p.valid(lt(i,s.i) if s.down else gt(i,s.i)): raise Retry()
        g=lambda a,b: gather_bkts(p,ch.base,a,b,ch.nm,ch.powner,ch.k,'loop')
        if s.mode=='retain':
            A=g(lo,i); B=g(i,hi); P,R=(B,A) if s.down else (A,B)
            if not p.seq_eq(A+B,s.S): raise Retry()
        else:
            a,b=(i,hi) if s.down else (lo,i)
            if s.mode in('zero','drop'):
                Z=g(a,b)
                if not p.isempty(Z): raise Retry()
            else: gather_range(p,p.nf(ch.base+a*8),p.nf((b-a)*8),'loop')
            R=g(lo,i) if s.down else g(i,hi)
            full=list(p.norm(s.R)); r=[x for x in p.norm(R) if x[0]=='u' or not p.isempty((x,))]
            k=0 if s.down else -1
            while r and full and r[k]==full[k]: r.pop(k); full.pop(k)
            if r: raise Retry()
            P=p.norm(tuple(full)+tuple(s.P)) if s.down else p.norm(tuple(s.P)+tuple(full))
            if s.mode=='zero':
                # the entries that were taken out of their buckets are still there
                Q=()
                for c in list(p.chunks):
                    if isinstance(c,(LSeg,Orphans)) and p.nf(c.owner)==p.nf(ch.powner): p.addchunk_remove(c); Q+=tuple(c.seq if isinstance(c,LSeg) else c.T)
                if mdiff(p,Q,P): raise Retry()
        v.P.append(p.norm(P)); v.R.append(p.norm(R)); v.x.append(i)
    def cands(s,p,lc,mods):
        out=[('nothing yet %d'%s.vi,lambda v: eq(p.length(v.P[s.vi]),0))]
        return out
class AccBkts(Strat):
    """the entries that a cursor takes away are added to another table"""
    nviews=0
    def __init__(s,base,n,kind,owner): s.base=base; s.n=n; s.k=kind; s.own=owner
    def __repr__(s): return 'filling a table'
    def enter(s,p,lc):
        s.nm=name_of(p,s.n); keys=set(p.cells)
        T0=gather_bkts(p,s.base,ZERO,s.n,s.nm,s.own,s.k,'loop'); s.cells=tuple(keys-set(p.cells))
        s.src=[x for x in lc.strats if getattr(x,'mode',None)=='free']; P=()
        for x in s.src: P+=tuple(lc.view.P[x.vi])
        W=(V(p.freshsv('W',s.k.ek)),); p.perms=p.perms+((W,p.norm(T0+P)),); p.assume(eq(p.length(W),p.length(T0+P)))
        s.T0=T0; before=list(p.chunks)
        p.add_chunk(Bkts(s.base,ZERO,s.n,s.nm,W,s.k,s.own)); s.chunks=[c for c in p.chunks if c not in before]
    def check(s,p,lc,v):
        T=gather_bkts(p,s.base,ZERO,s.n,s.nm,s.own,s.k,'loop'); P=()
        for x in s.src: P+=tuple(v.P[x.vi])
        if mdiff(p,T,s.T0+P): raise Retry()
def name_of(p,n):
    """name of the index function for a table of n buckets"""
    n=p.nf(n)
    for k,x in p.hsz.items():
        if p.nf(x)==n: return k
    for k,x in p.hsz.items():
        if p.valid(eq(x,n)): return k
    k='size%d'%len(p.hsz); p.hsz=dict(p.hsz); p.hsz[k]=n; return k
# ---------------------------------------------------------------- the table
class O: pass
FIELDS=('compare_keys','free_key','free_value','hash','size','sizeptr','grow','buckets','count','pool','pfree','pbucket')
def layout(cs):
    m=dict(members(cs,'_HashTable')); q=members(cs,'_HashTablePair'); o=m['pair'][0]
    m['pfree']=(o+q['free_value'][0],8); m['pbucket']=(o+q['bucket'][0],8); return m
_HK={}
def kind(cs):
    m=members(cs,'_Bucket'); key=tuple(sorted(m.items()))
    if key not in _HK: _HK[key]=NodeKind('_Bucket',m[''][1],[('key',m['key'][0],8),('data',m['data'][0],8)],m['next'][0])
    return _HK[key]
def primes(cs):
    """the constant table of sizes"""
    g=cs.p.mod.globs
    c=[n for n,(ty,init,const) in g.items() if const and ty[0]=='arr' and ty[2]==('i',64)]
    if 'PRIMES' in c: return 'PRIMES'
    return c[0] if c else None
def freefns(cs,o,lazy=False):
    p=cs.p; p.ghostq=dict(p.ghostq)
    for f,g in(('free_key','fk'),('free_value','fv')):
        v=getattr(o,f); p.ghostq[g]=p.freshv('q'+g,8,1); p.ghost[g]=ZERO
        if not lazy: p.choose(eq(v,0),'no '+f)
        v=p.nf(v); setattr(o,f,v)
        if v.const()!=0: p.roles[v]=('free',g,g=='fv')
def config(cs,o,lazy=False):
    p=cs.p
    o.compare_keys=p.freshv('equal',8,4096,PMAX); p.roles[o.compare_keys]=('equal','rank'); o.hash=p.freshv('hash',8,4096,PMAX); p.roles[o.hash]=('hash','rank')
    o.free_key=p.freshv('freekey',8,0,PMAX); o.free_value=p.freshv('freeval',8,0,PMAX); freefns(cs,o,lazy)
def grown(cs,o):
    p=cs.p; g=primes(cs)
    if g is None: p.hardfail('unsupported','no table of sizes')
    i=p.freshv('sizeindex',8,0,len(p.mod.globs[g][1][1])); ga=p.globaddr(g)
    o.sizeptr=p.nf(ga+i*8); o.size=p.loadglob(g,i*8,8); p.assume(ge(o.size,1))
    # where the table of sizes ends the table cannot grow: the program is ended
    n=p.loadglob(g,p.nf(i*8+8),8) if p.choose(lt(i+1,len(p.mod.globs[g][1][1])),'next size') else ZERO
    p.mayabort=p.mayabort+(And(ne(o.grow,0),Or(eq(n,0),gt(n,((1<<64)-1)//8))),)
def take(cs,a,key=None,at=False,grow=False,lazy=False):
    p=cs.p; o=O(); o.a=a; o.m=layout(cs); o.k=kind(cs); o.chk=grow
    if not cs.producing: consume(cs,o,False); return o
    p.add_region(a,o.m[''][1]); config(cs,o,lazy)
    o.grow=p.freshv('grow',1,0,2)
    if grow and p.choose(ne(o.grow,0),'table grows'):
        grown(cs,o)
    else: o.size=p.freshv('size',8,1); o.sizeptr=p.freshv('sizeptr',8)
    o.grow=p.nf(o.grow); p.assume(lt(o.size*8,PMAX))
    o.pool=p.freshv('pool',8,4096,PMAX); o.pbucket=p.freshv('pbucket',8,0,PMAX); own_pool(p,o.pool,o.k.size)
    o.buckets=p.freshv('buckets',8,4096,PMAX); p.add_tok(0,o.buckets,p.nf(o.size*8)); nm=name_of(p,o.size); K=o.k.ek; fn=('hidx',nm)
    new=lambda b: (V(p.freshsv(b,K)),)
    if at:
        # at an entry of bucket i; the buckets between i and off are empty
        o.A1=new('A'); o.A2=new('A'); o.D=new('D'); o.E2=new('E'); o.e=p.newelem('e',K); i=o.i=p.fn(fn,o.e); o.off=p.freshv('offset',8); p.assume(gt(o.off,i)); p.assume(le(o.off,o.size)); p.assume(ge(i,0))
        o.T=o.A1+o.A2+(('u',o.e),)+o.D+o.E2; ch=o.A2+(('u',o.e),)+o.D
        p.assume(p.in_bounds(ch,fn,i,i)); p.add_chunk(Bkts(o.buckets,ZERO,i,nm,o.A1,o.k,o.pool))
        h=p.freshv('bucket',8,0,PMAX); p.add_cell(o.buckets+i*8,8,h); p.add_chunk(LSeg(o.k,h,0,ch,o.pool))
        p.add_chunk(Bkts(o.buckets,p.nf(i+1),o.off,nm,(),o.k,o.pool)); p.add_chunk(Bkts(o.buckets,o.off,o.size,nm,o.E2,o.k,o.pool))
    else:
        o.T=new('T'); p.add_chunk(Bkts(o.buckets,ZERO,o.size,nm,o.T,o.k,o.pool))
    o.n=p.length(o.T); fields(cs,o)
    o.q=p.freshv('class',8); cls=[o.q]
    if key is not None: cls.append(uf('rank',key))
    p.assume(le(o.n*o.k.size,PMAX))
    for q in cls: p.assume(le(cnt(p,o.T,('eq',RANK,q)),1))
    hint(cs,count=[('eq',KEY,p.ghostq['fk']),('eq',DAT,p.ghostq['fv'])],newtable=(o.a+o.m['buckets'][0],o.a+o.m['size'][0],o.k,o.pool,o.buckets))
    if key is not None: hint(cs,filter=[('eq',RANK,uf('rank',key))])
    return o
def fields(cs,o):
    p=cs.p; v=dict(o.__dict__,count=o.n,pfree=o.free_value)
    for f in FIELDS: p.add_cell(o.a+o.m[f][0],o.m[f][1],v[f])
    pads(p,o)
def pads(p,o,take=False):
    used=sorted((o.m[f][0],o.m[f][1]) for f in FIELDS); x=0
    for off,sz in used+[(o.m[''][1],0)]:
        if off>x:
            if take: gather_range(p,p.nf(o.a+x),C(off-x),'shape','padding')
            else: p.add_chunk(Raw(p.nf(o.a+x),C(off-x),'j'))
        x=off+sz
def consume(cs,o,chk):
    p=cs.p; m=o.m; c=cs.assume_or_check; lab='shape' if cs.mode=='verify' else 'pre'
    for f in FIELDS: setattr(o,f,p.take_cell(o.a+m[f][0],m[f][1],lab,'field '+f))
    pads(p,o,True); n=o.count
    c(eq(o.pfree,o.free_value),'config','the pair of the table has the free function for values')
    c(ge(o.size,1),'shape','there is a bucket')
    take_pool(p,o.pool,lab); nm=name_of(p,o.size)
    o.T=gather_bkts(p,o.buckets,ZERO,o.size,nm,o.pool,o.k,lab)
    k=p.take_tok(0,o.buckets,lab,'the array of buckets')
    if k is None: p.hardfail(lab,'the array of buckets is a live allocation')
    c(ge(k,o.size*8),'shape','the array of buckets has the recorded size')
    gather_range(p,p.nf(o.buckets+o.size*8),p.nf(k-o.size*8),lab,'spare buckets')
    c(eq(n,p.length(o.T)),'count','the count is the number of entries')
    if chk and p.choose(ne(o.grow,0),'table grows'):
        at=[ATOMS[x].name for x,_ in o.sizeptr.t if ATOMS[x].name.startswith('glob:')]
        if not at: p.hardfail('shape','the size of a growing table is taken from the table of sizes')
        ga=p.globaddr(at[0][5:]); v=p.loadglob(at[0][5:],p.nf(o.sizeptr-ga),8)
        c(eq(v,o.size),'shape','a growing table refers to its size in the table of sizes')
def put(cs,o,T=None,what='the entries are unchanged',resize=False,order=True):
    """the table is there again; T: its entries (None: not compared)"""
    p=cs.p; n=O(); n.a=o.a; n.m=o.m; n.k=o.k; c=cs.assume_or_check
    if cs.producing:
        n.__dict__.update(o.__dict__); n.T=T; n.n=p.length(T); raise Exception('call')
    consume(cs,n,o.chk)
    if T is not None:
        if order: seqpost(cs,n.T,T,'pairs',what)
        else: mpost(cs,n.T,T,what)
    c(And(*[eq(getattr(n,f),getattr(o,f)) for f in ('compare_keys','hash','free_key','free_value','grow')]),'config','the functions of the table are unchanged')
    if not o.chk: c(eq(n.sizeptr,o.sizeptr),'config','the size of the table is unchanged')
    if not resize or p.choose(eq(o.grow,0),'fixed size'): c(eq(n.size,o.size),'config','the number of buckets is unchanged')
    return n
def unique(cs,o,n):
    p=cs.p; p.oblige(le(cnt(p,n.T,('eq',RANK,o.q)),1),'keys','no key occurs twice')
def locate(cs,o,key):
    """the entry of the key: (all entries, position), or None"""
    p=cs.p; q=('eq',RANK,uf('rank',key))
    if not p.choose(gt(cnt(p,o.T,q),0),'key present'): return None
    # the entries as the table holds them now, by the known rearrangements
    X=[pc for pc in p.norm(o.T) if pc[0]=='u' or not p.isempty((pc,))]
    for a,b in p.perms:
        b=[pc for pc in p.norm(b) if pc[0]=='u' or not p.isempty((pc,))]
        if b and all(X.count(pc)>=b.count(pc) for pc in b):
            for pc in b: X.remove(pc)
            X+=list(p.norm(a))
    X=p.norm(tuple(X)); i=0
    while i<len(X):
        pc=X[i]
        if pc[0]=='u':
            if p.choose(p.evalpreds(frozenset([q]),pc[1]),'the key'): return p.norm(X),i
        elif p.choose(gt(cnt(p,(pc,),q),0),'key in this part'):
            k=p.freshv('pos',8); p.assume(lt(k,p.length((pc,)))); e=p.splitat(pc[1],k); p.assume(p.evalpreds(frozenset([q]),e))
            D=p.norm((pc,)); X=p.norm(X); j=[j for j,x in enumerate(D) if x[0]=='u'][0]; return X,i+j
        i+=1
    p.assume(False)
def freed(cs,o,seq,key=True,val=True):
    p=cs.p
    for g,f,fl,on in(('fk','free_key',KEY,key),('fv','free_value',DAT,val)):
        if not on or p.choose(eq(getattr(o,f),0),'no '+f) or g not in p.ghostq: continue
        cs.ghost(g,p.attr(seq,('cnt',frozenset([('eq',fl,p.ghostq[g])]))),desc='the %s function is called exactly for what leaves the table'%f)
def S(n,props='C09',**k): return spec(n,'hashtable.c',props,**k)
def key_arg(cs,k):
    if cs.producing: cs.p.assume(ne(k,0))
    else: cs.assume_or_check(ne(k,0),'pre','the key is not NULL')
def newtable(cs,a,size,hf,eqf,fk,fv):
    p=cs.p; o=O(); o.a=a; o.m=layout(cs); o.k=kind(cs); c=cs.assume_or_check
    if cs.producing:
        for f,v in (('hash',hf),('compare_keys',eqf),('free_key',fk),('free_value',fv)): setattr(o,f,v)
        if p.choose(eq(size,0),'table grows'): o.grow=ONE; grown(cs,o)
        else: o.grow=ZERO; o.size=p.nf(size); o.sizeptr=p.freshv('sizeptr',8)
        p.assume(lt(o.size*8,PMAX)); o.pool=p.freshv('pool',8,4096,PMAX); own_pool(p,o.pool,o.k.size); o.pbucket=p.freshv('pbucket',8)
        o.buckets=p.freshv('buckets',8,4096,PMAX); p.add_tok(0,o.buckets,p.nf(o.size*8)); p.add_chunk(Bkts(o.buckets,ZERO,o.size,name_of(p,o.size),(),o.k,o.pool)); o.T=(); o.n=ZERO
        fields(cs,o); return
    consume(cs,o,True)
    seqpost(cs,o.T,(),'pairs','a new table is empty')
    c(And(eq(o.hash,hf),eq(o.compare_keys,eqf),eq(o.free_key,fk),eq(o.free_value,fv)),'config','a new table has the given functions')
    c(Iff(ne(o.grow,0),eq(size,0)),'config','a table grows automatically exactly if no size was given'); c(Imp(ne(size,0),eq(o.size,size)),'config','a table of fixed size has that size')
@S('hashtable_init')
def _(cs):
    a,size,hf,eqf,fk,fv=cs.args; p=cs.p; m=layout(cs)
    if cs.producing: p.assume(ge(a,4096)); p.assume(lt(a,PMAX)); p.add_chunk(Raw(a,C(m[''][1]),'j'))
    else: gather_range(p,a,C(m[''][1]),'pre','table object')
    (p.assume if cs.producing else lambda f: cs.assume_or_check(f,'pre','the size does not overflow'))(lt(size,1<<61))
    yield
    newtable(cs,a,size,hf,eqf,fk,fv)
@S('hashtable_new')
def _(cs):
    size,hf,eqf,fk,fv=cs.args; p=cs.p; m=layout(cs)
    (p.assume if cs.producing else lambda f: cs.assume_or_check(f,'pre','the size does not overflow'))(lt(size,1<<61))
    yield
    a=cs.result(8,'table',True)
    if cs.producing: p.assume(ge(a,4096))
    newtable(cs,a,size,hf,eqf,fk,fv); tok_take(cs,a,m[''][1],0,'the new table')
@S('hashtable_free','C09 C16')
def _(cs):
    a,=cs.args; p=cs.p; o=take(cs,a)
    yield
    freed(cs,o,o.T)
    if cs.producing: p.add_chunk(Raw(a,C(o.m[''][1]),'j'))
    else: gather_range(p,a,C(o.m[''][1]),'shape','the table object')
@S('hashtable_destroy','C09 C16')
def _(cs):
    a,=cs.args; p=cs.p; o=take(cs,a); tok_take(cs,a,o.m[''][1],0,'the table')
    yield
    freed(cs,o,o.T)
@S('hashtable_clear','C09 C16')
def _(cs):
    a,=cs.args; p=cs.p; o=take(cs,a,grow=True)
    yield
    freed(cs,o,o.T); put(cs,o,(),'a cleared table is empty',resize=True)
@S('hashtable_set','C09 C10 C16')
def _(cs):
    a,key,val,ow=cs.args; p=cs.p; key_arg(cs,key); o=take(cs,a,key,grow=True,lazy=True); ow=p.choose(p.boolv(ow),'overwrite key')
    if cs.mode=='call': p.hardfail('unsupported','call of hashtable_set')
    yield
    r=cs.result(4,'result'); at=locate(cs,o,key)
    if at is not None:
        X,i=at; e=X[i][1]
        cs.assume_or_check(eq(r,1),'ret','set reports that the key was there'); freed(cs,o,(('u',e),),key=ow)
        n=put(cs,o,X[:i]+(('u',(e[0],key if ow else e[1],val)),)+X[i+1:],'the entry of the key gets the new value, all other entries stay',resize=True,order=False)
    else:
        cs.assume_or_check(eq(r,0),'ret','set reports that the key is new')
        n=put(cs,o,o.T+(('u',(ZERO,key,val)),),'exactly the new entry is added',resize=True,order=False)
    unique(cs,o,n)
@S('hashtable_remove','C09 C16')
def _(cs):
    a,key=cs.args; p=cs.p; key_arg(cs,key); o=take(cs,a,key)
    if cs.mode=='call': p.hardfail('unsupported','call of hashtable_remove')
    yield
    at=locate(cs,o,key)
    if at is None: n=put(cs,o,o.T,'removing an absent key changes nothing',order=False)
    else:
        X,i=at; freed(cs,o,(X[i],)); n=put(cs,o,X[:i]+X[i+1:],'exactly the entry of the key is removed',order=False)
    unique(cs,o,n)
@S('hashtable_lookup')
def _(cs):
    a,key=cs.args; p=cs.p; key_arg(cs,key); o=take(cs,a,key)
    yield
    r=cs.result(8,'pair',True); at=locate(cs,o,key); n=put(cs,o,o.T,'a lookup changes no entry',order=False); unique(cs,o,n)
    if at is None: cs.assume_or_check(eq(r,0),'ret','NULL for an absent key')
    else:
        cs.assume_or_check(eq(r,o.a+o.m['pair'][0]),'ret','the pair of the table is returned'); cs.assume_or_check(eq(n.pbucket,at[0][at[1]][1][0]),'ret','the pair refers to the entry of the key')
@S('hashtable_key_exists')
def _(cs):
    a,key=cs.args; p=cs.p; key_arg(cs,key); o=take(cs,a,key)
    yield
    c=cnt(p,o.T,('eq',RANK,uf('rank',key))); n=put(cs,o,o.T,'a query changes no entry',order=False); unique(cs,o,n)
    cs.assume_or_check(Iff(cs.result_bool(),gt(cnt(p,n.T,('eq',RANK,uf('rank',key))),0)),'ret','true exactly for a present key')
@S('hashtable_count')
def _(cs):
    a,=cs.args; p=cs.p; o=take(cs,a)
    yield
    put(cs,o,o.T,'a query changes no entry'); cs.assume_or_check(eq(cs.result(8,'n'),p.length(o.T)),'ret','the count is the number of entries')
# ---------------------------------------------------------------- entries
def entry(cs):
    """an entry of some table, without the rest of the table"""
    p=cs.p; o=O(); o.k=kind(cs); o.e=p.newelem('e',o.k.ek); o.nx=p.freshv('next',8,0,PMAX); o.pool=p.freshv('pool',8,4096,PMAX)
    p.add_chunk(LSeg(o.k,o.e[0],o.nx,(('u',o.e),),o.pool)); return o
def entry_put(cs,o,e,what):
    p=cs.p; S,_=gather(p,o.k,o.e[0],o.nx,o.pool,'shape'); seqpost(cs,S,(('u',e),),'pairs',what)
def pair(cs,pr):
    p=cs.p; q=members(cs,'_HashTablePair'); o=entry(cs); o.q=q; o.pr=pr
    if not cs.producing: p.hardfail('unsupported','call of a pair function')
    p.add_region(pr,q[''][1]); o.free_value=p.freshv('freeval',8,0,PMAX); o.free_key=ZERO; freefns(cs,o)
    p.add_cell(pr+q['free_value'][0],8,o.free_value); p.add_cell(pr+q['bucket'][0],8,o.e[0]); return o
def pair_put(cs,o,e,what):
    cs.give(o.pr+o.q['free_value'][0],8,o.free_value,'config','the free function of the pair is unchanged'); cs.give(o.pr+o.q['bucket'][0],8,o.e[0],'shape','the pair still refers to its entry')
    entry_put(cs,o,e,what)
def itfields(cs): return members(cs,'HashTableIter')
def iter_cells(cs,it,table,off,li,fin):
    p=cs.p; m=itfields(cs)
    for f,v in (('table',table),('offset',off),('liter',li),('finished',fin)): p.add_cell(it+m[f][0],m[f][1],v)
    ipads(p,it,m,False)
def ipads(p,it,m,take):
    used=sorted(m[f] for f in ('table','offset','liter','finished')); x=0
    for off,sz in used+[(m[''][1],0)]:
        if off>x:
            if take: gather_range(p,p.nf(it+x),C(off-x),'shape','padding of the iterator')
            else: p.add_chunk(Raw(p.nf(it+x),C(off-x),'j'))
        x=off+sz
def iter_take(cs,it):
    p=cs.p; m=itfields(cs); r=[p.take_cell(it+m[f][0],m[f][1],'shape','iterator') for f in ('table','offset','liter','finished')]; ipads(p,it,m,True); return r
def cursor(cs,it):
    p=cs.p
    if not cs.producing: p.hardfail('unsupported','call of an iterator function')
    o=entry(cs); o.it=it; p.add_region(it,itfields(cs)[''][1]); o.cells=(p.freshv('table',8,4096,PMAX),p.freshv('offset',8,1),o.e[0],ZERO); iter_cells(cs,it,*o.cells); return o
def cursor_put(cs,o,e,what):
    v=iter_take(cs,o.it); cs.assume_or_check(And(*[eq(x,y) for x,y in zip(v,o.cells)]),'iter','the iterator does not move'); entry_put(cs,o,e,what)
def getter(i,what,take,put):
    def f(cs):
        x,=cs.args; p=cs.p; o=take(cs,x)
        yield
        cs.assume_or_check(eq(cs.result(8,'x'),o.e[i]),'ret','the %s of the entry is returned'%what); put(cs,o,o.e,'a query changes no entry')
    return f
for n,i,w in(('pair_get_key',1,'key'),('pair_get_value',2,'value')): S('hashtable_'+n)(getter(i,w,pair,pair_put))
for n,i,w in(('iter_get_key',1,'key'),('iter_get_value',2,'value')): S('hashtable_'+n)(getter(i,w,cursor,cursor_put))
for n,i,w in(('pair_key',1,'key'),('pair_value',2,'value')): spec('vf_hashtable_'+n,MAC,'C09')(getter(i,w,pair,pair_put))
for n,i,w in(('iter_key',1,'key'),('iter_value',2,'value')): spec('vf_hashtable_'+n,MAC,'C11')(getter(i,w,cursor,cursor_put))
@S('hashtable_pair_set_value','C09 C16')
def _(cs):
    pr,val=cs.args; p=cs.p; o=pair(cs,pr)
    yield
    freed(cs,o,(('u',o.e),),key=False); pair_put(cs,o,(o.e[0],o.e[1],val),'exactly the value of the entry changes')
# ---------------------------------------------------------------- iteration
@S('hashtable_iter_init','C11')
def _(cs):
    a,it=cs.args; p=cs.p; m=itfields(cs); p.assume(ge(it,4096)); p.assume(lt(it,PMAX)); p.add_chunk(Raw(it,C(m[''][1]),'j')); o=take(cs,a)
    yield
    t,off,li,fin=iter_take(cs,it); cs.assume_or_check(And(eq(t,a),eq(off,0),eq(li,0),eq(fin,0)),'iter','the iterator stands before the first entry')
    put(cs,o,o.T,'iterating changes no entry')
@S('hashtable_iter_next','C11')
def _(cs):
    it,=cs.args; p=cs.p; m=itfields(cs); p.add_region(it,m[''][1]); a=p.freshv('table',8,4096,PMAX)
    w=p.branch(3,'position'); o=take(cs,a,at=w==1); lk=p.nf(it+m['liter'][0])
    if w==0: Rm=o.T; A=(); iter_cells(cs,it,a,ZERO,ZERO,ZERO)
    elif w==1: Rm=o.D+o.E2; A=o.A1+o.A2+(('u',o.e),); iter_cells(cs,it,a,o.off,o.e[0],ZERO); hint(cs,inv=[('end of the chain',lambda v: Or(eq(v.c[lk],o.e[0]),And(eq(v.c[lk],0),eq(p.length(o.D),0))))])
    else: Rm=(); A=o.T; iter_cells(cs,it,a,o.size,ZERO,ONE)
    yield
    r=cs.result_bool(); c=cs.assume_or_check
    c(Iff(r,gt(p.length(Rm),0)),'iter','there is a next entry exactly if not all have been visited')
    t,off,li,fin=iter_take(cs,it); c(eq(t,a),'iter','the iterator still belongs to its table')
    if not p.choose(gt(p.length(Rm),0),'next entry'):
        c(ne(fin,0),'iter','the iterator has finished'); put(cs,o,o.T,'iterating changes no entry'); return
    c(eq(fin,0),'iter','the iterator has not finished')
    k=0; X=p.norm(Rm)
    while X[k][0]!='u':
        if p.choose(gt(p.length((X[k],)),0),'next entry here'): p.splitfirst(X[k][1]); X=p.norm(Rm); break
        k+=1
    X=p.norm(Rm); k=[j for j,x in enumerate(X) if x[0]=='u'][0]; e=X[k][1]
    c(eq(li,e[0]),'iter','the iterator stands at the next entry')
    # what follows the entry in its bucket, and what is in the buckets from the offset
    n=O(); n.a=o.a; n.m=o.m; n.k=o.k; nm=name_of(p,o.size); fn=('hidx',nm)
    if not p.valid(And(ge(off,0),le(off,o.size))): p.oblige(False,'iter','the offset is within the table')
    hi=gather_bkts(p,o.buckets,off,o.size,nm,o.pool,o.k,'shape'); lo=gather_bkts(p,o.buckets,ZERO,off,nm,o.pool,o.k,'shape'); p.add_chunk(Bkts(o.buckets,ZERO,off,nm,lo,o.k,o.pool)); p.add_chunk(Bkts(o.buckets,off,o.size,nm,hi,o.k,o.pool))
    D=list(p.norm(X[k+1:])); h=[x for x in p.norm(hi)]
    while D and h and D[-1]==h[-1]: D.pop(); h.pop()
    h=[x for x in h if x[0]=='u' or not p.isempty((x,))]
    if h: p.oblige(False,'iter','the buckets from the offset have not been visited')
    c(p.in_bounds(tuple(D),fn,p.fn(fn,e),p.fn(fn,e)),'iter','only entries of the current bucket remain before the offset'); c(lt(p.fn(fn,e),off),'iter','the offset is behind the current bucket')
    put(cs,o,o.T,'iterating changes no entry')
def acc_option(s,lc,mods):
    h=s.hints.get('newtable')
    if h is None: return []
    a,b,k,own,old=h
    if not any(t[1]==s.nf(old) for t in s.toks): return []
    x=s.cells.get(s.nf(a)); n=s.cells.get(s.nf(b))
    if x is None or n is None or x.size!=8 or n.size!=8 or s.nf(x.val)==s.nf(old): return []
    return [lambda: AccBkts(s.nf(x.val),s.nf(n.val),k,own)]
def add_acc(s,lc,strats):
    if any(getattr(x,'mode',None)=='free' for x in strats):
        for o in acc_option(s,lc,()): strats.append(o())
STRAT_HOOKS.append(add_acc)
