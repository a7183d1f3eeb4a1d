"""Loop invariants: found by generalising the state at the loop header, checked at every back edge.
Nothing here is trusted to be a good guess: a wrong guess makes the check at the back edge fail."""
from execu import *
import itertools

class View:
    """what candidate facts talk about: values of cells and ghosts, and the processed part of each cursor"""
    def __init__(s,p): s.p=p; s.c={}; s.g={}; s.P=[]; s.R=[]; s.x=[]

class Strat:
    nviews=1      # how many sequences it contributes to the views
    cells=()      # keys it sets itself
    chunks=()     # chunks it adds
    toks=()       # allocations it accounts for itself
    def frame(s,p,lc): pass
    def enter(s,p,lc): pass
    def check(s,p,lc,v): pass
    def entryview(s,p,v): pass
    def cands(s,p,lc,mods): return []

def lastaddr(p,P,dflt): return ite(p.nff(gt(p.length(P),0)),p.attr(P,('last',('fld',0))),dflt)

def _piece_split(p,seq,which):
    """split the sequence into P++R with fresh variables; which: index of piece ('v' pieces only, nothing before it) or None
    for anywhere.  -> P, R, and the part of the sequence that P never goes beyond (None: no limit)"""
    vs=[i for i,x in enumerate(seq) if x[0]=='v']
    end=None
    if which is None: i=p.branch(len(seq)+(1 if not seq or seq[-1][0]=='u' else 0),'cursor piece') if seq else 0
    else:
        i=vs[which]; end=seq[:i+1]
        if not p.isempty(seq[:i]): raise Exception('cursor piece')
    if i==len(seq): return p.norm(seq),(),end
    pc=seq[i]
    if pc[0]=='u': return p.norm(seq[:i]),p.norm(seq[i:]),end
    a=p.freshsv(pc[1].name.split('!')[0]+'P',pc[1].kind); b=p.freshsv(pc[1].name.split('!')[0]+'R',pc[1].kind)
    p.setsv(pc[1],(V(a),V(b)))
    P=p.norm(seq[:i])+(V(a),); R=(V(b),)+p.norm(seq[i+1:])
    return p.norm(P),p.norm(R),end
def covered(p,st,P):
    """is the position after P among those the head state stands for?"""
    if st.end is not None and not p.valid(le(p.length(P),p.length(st.end))): raise Retry()

class ListCursor(Strat):
    """cell m walks the list segment"""
    def __init__(s,m,ch,mode,which,preds=None,a=None):
        s.m=m; s.ch=ch; s.mode=mode; s.which=which; s.preds=preds; s.a=a; s.cells=(m,) if a is None else (m,a)
    def __repr__(s): return 'list cursor (%s%s)'%(s.mode,'' if s.which is None else ', piece %d'%s.which)
    def locate(s,p):
        for c in p.chunks:
            if isinstance(c,LSeg) and c.k is s.ch.k and c.x==p.nf(s.ch.x) and c.y==p.nf(s.ch.y) and not p.isempty(c.seq): return c
    def entryview(s,p,v): v.P.append(()); v.R.append(s.ch.seq); v.x.append(p.nf(s.ch.x))
    def enter(s,p,lc):
        c=s.locate(p); k=c.k
        p.addchunk_remove(c)
        s.S=c.seq; s.x0=c.x; s.y0=c.y; s.own=c.owner; s.px=c.px; s.ly=c.ly
        s.P,s.R,s.end=_piece_split(p,c.seq,s.which)
        cur=p.freshv('cur',8,0,PMAX); s.mid=None
        dbl=c.px is not None; before=list(p.chunks)
        if s.mode=='retain':
            if dbl: s.mid=p.freshv('mid',8,0,PMAX)
            p.add_chunk(LSeg(k,s.x0,cur,s.P,s.own,s.px,s.mid))
            p.add_chunk(LSeg(k,cur,s.y0,s.R,s.own,s.mid,s.ly))
        elif s.mode=='free':
            if dbl: s.mid=p.freshv('mid',8,0,PMAX)
            p.add_chunk(LSeg(k,cur,s.y0,s.R,s.own,s.mid,s.ly))
        elif s.mode=='filter':
            if dbl: s.mid=p.freshv('mid',8,0,PMAX)
            s.Q=p.mapseq(s.P,('filt',s.preds)); s.h=p.freshv('h',8,0,PMAX)
            p.add_chunk(LSeg(k,s.h,cur,s.Q,s.own,s.px,s.mid))
            p.add_chunk(LSeg(k,cur,s.y0,s.R,s.own,s.mid,ite(p.nff(gt(p.length(s.R),0)),s.ly,s.mid) if dbl else None))
            p.cells[p.nf(s.a)]=Cell(8,p.nf(s.h))
        s.cur=cur; p.cells[p.nf(s.m)]=Cell(8,cur); s.chunks=[c for c in p.chunks if c not in before]
        lc.view.P.append(s.P); lc.view.R.append(s.R); lc.view.x.append(cur)
    def check(s,p,lc,v):
        k=s.ch.k
        cur=p.nf(p.cells[p.nf(s.m)].val); dbl=s.px is not None
        if s.mode=='retain':
            P,last=gather(p,k,s.x0,cur,s.own,'loop',s.px)
            R,l2=gather(p,k,cur,s.y0,s.own,'loop',last if dbl else None)
            if dbl: p.oblige(eq(l2,s.ly),'loop','last item')
            if not p.seq_eq(P+R,s.S): raise Retry()
        elif s.mode=='filter':
            h=p.nf(p.cells[p.nf(s.a)].val)
            Q,last=gather(p,k,h,cur,s.own,'loop',s.px)
            R,l2=gather(p,k,cur,s.y0,s.own,'loop',last if dbl else None)
            if dbl: p.oblige(Imp(gt(p.length(R),0),eq(l2,s.ly)),'loop','last item')
            full=list(p.norm(s.R)); r=[x for x in p.norm(R) if x[0]=='u' or not p.isempty((x,))]
            while r and full and (r[-1]==full[-1]): r.pop(); full.pop()
            if r: raise Retry()
            P=p.norm(tuple(s.P)+tuple(full))
            if not p.seq_eq(Q,p.mapseq(P,('filt',s.preds))): raise Retry()
        else:
            px=None
            if dbl:
                for c in p.chunks:
                    if isinstance(c,LSeg) and c.k is k and c.x==cur: px=c.px
                if px is None: px=C(0)
            R,l2=gather(p,k,cur,s.y0,s.own,'loop',px if dbl else None)
            # R is a suffix of the sequence at the cut
            full=list(p.norm(s.R)); r=[x for x in p.norm(R) if x[0]=='u' or not p.isempty((x,))]
            while r and full and (r[-1]==full[-1]): r.pop(); full.pop()
            while full and not r and full[-1][0]!='u' and p.isempty((full[-1],)): full.pop()
            if r and not p.isempty(tuple(r)): raise Retry()
            P=p.norm(tuple(s.P)+tuple(full))
        if not p.valid(lt(p.length(R),p.length(s.R))): raise Retry()
        covered(p,s,P)
        v.P.append(p.norm(P)); v.R.append(p.norm(R)); v.x.append(cur)

def cut_seq(p,seq,why):
    """a cut at an arbitrary position: seq = A ++ B (new names for the two parts of the piece that is cut)"""
    seq=p.norm(seq)
    opts=list(range(len(seq)))
    if not seq or seq[-1][0]=='u': opts.append(len(seq))
    i=opts[p.branch(len(opts),why)]
    if i==len(seq) or seq[i][0]=='u': return seq[:i],seq[i:]
    b0=seq[i][1].name.split('!')[0]
    a=p.freshsv(b0+'A',seq[i][1].kind); b=p.freshsv(b0+'B',seq[i][1].kind)
    p.setsv(seq[i][1],(V(a),V(b)))
    return p.norm(seq[:i])+(V(a),),(V(b),)+p.norm(seq[i+1:])
def chain(p,k,x,y):
    """the parts of the list from x to y as they lie in memory: [(sequence, first address, last address)]; nothing is consumed"""
    out=[]; x=p.nf(x); y=p.nf(y)
    for _ in range(60):
        if x==y or p.valid(eq(x,y)): return out
        d=None
        for t in (False,True):
            for c in p.chunks:
                if d is None and isinstance(c,LSeg) and c.k is k and not p.isempty(c.seq) and (c.x==x or t and p.valid(And(eq(c.x,x),gt(p.length(c.seq),0)))): d=c
            if d is not None: break
            if has_full_node(p,k,x): break
        if d is not None: out.append((d.seq,d.x,d.ly)); x=p.nf(d.y); continue
        if not has_full_node(p,k,x): raise Retry('chain',x,y)
        g=lambda o: p.cells[p.nf(x+o)].val
        out.append(((('u',(x,)+tuple(p.nf(g(o)) for _,o,_ in k.fields)),),x,x)); x=p.nf(g(k.next))
    raise Retry()
def boundary(p,parts,addr,end):
    """what lies before the node with this address (end=0), or after it (end=1): it is the first or last of a part"""
    for i in range(len(parts)):
        S,f,l=parts[i] if not end else parts[len(parts)-1-i]
        if p.choose(And(eq(l if end else f,addr),gt(p.length(S),0)),'cursor position'):
            q=parts[:i] if not end else parts[len(parts)-i:]
            return p.norm(tuple(x for z in q for x in z[0]))
    raise Retry()

class BiCursor(Strat):
    """cells m1 and m2 walk a list from both ends towards and past each other; the list itself stays as it is"""
    nviews=2
    def __init__(s,m1,m2,ch,past=True): s.m1=m1; s.m2=m2; s.ch=ch; s.past=past; s.cells=(m1,m2)
    def __repr__(s): return 'two cursors from both ends'+('' if s.past else ' that do not meet')
    def entryview(s,p,v):
        for i in (0,1): v.P.append(()); v.R.append(s.ch.seq); v.x.append(p.nf(s.ch.x))
    def enter(s,p,lc):
        s.S=s.ch.seq
        if not s.past or p.fork(None,'the cursors have not met'):
            P,X=cut_seq(p,s.S,'forward cursor'); M,T=cut_seq(p,X,'backward cursor'); P=p.norm(P); M=p.norm(M)
            p.assume(gt(p.length(M),0)); p.assume(eq(p.length(P),p.length(T)))
            c1=p.attr(M,('first',('fld',0))); c2=p.attr(M,('last',('fld',0))); R=M+T
        else:
            U,X=cut_seq(p,s.S,'backward cursor'); W,R=cut_seq(p,X,'forward cursor'); U=p.norm(U); W=p.norm(W)
            p.assume(gt(p.length(U),0)); p.assume(gt(p.length(R),0)); p.assume(eq(p.length(U),p.length(R)))
            c1=p.attr(R,('first',('fld',0))); c2=p.attr(U,('last',('fld',0))); P=U+W; T=W+R
        p.cells[p.nf(s.m1)]=Cell(8,p.nf(c1)); p.cells[p.nf(s.m2)]=Cell(8,p.nf(c2)); s.R=R; s.chunks=[]
        lc.view.P+=[P,T]; lc.view.R+=[R,R]; lc.view.x+=[p.nf(c1),p.nf(c2)]
        for ch in p.chunks: ch.nf(p)
    def check(s,p,lc,v):
        b=p.nf(p.cells[p.nf(s.m1)].val); e=p.nf(p.cells[p.nf(s.m2)].val)
        ch=chain(p,s.ch.k,s.ch.x,s.ch.y)
        if not p.seq_eq(tuple(x for z in ch for x in z[0]),s.S): raise Retry()
        P=boundary(p,ch,b,0); T=boundary(p,ch,e,1)
        if not p.valid(eq(p.length(P),p.length(T))): raise Retry()
        full=p.length(s.S)
        if not p.valid(lt(full-p.length(P),p.length(s.R))): raise Retry()
        if not s.past and not p.valid(lt(p.length(P)+p.length(T),full)): raise Retry()
        v.P+=[p.norm(P),p.norm(T)]; v.R+=[(),()]; v.x+=[b,e]

class BackCursor(Strat):
    """cell m walks a doubly linked list from its last item to its first one"""
    def __init__(s,m,ch,mode): s.m=m; s.ch=ch; s.mode=mode; s.cells=(m,)
    def __repr__(s): return 'backward list cursor (%s)'%s.mode
    def entryview(s,p,v): v.P.append(()); v.R.append(s.ch.seq); v.x.append(p.nf(s.ch.ly))
    def enter(s,p,lc):
        c=ListCursor.locate(s,p); k=c.k
        p.addchunk_remove(c); before=list(p.chunks)
        s.S=c.seq; s.x0=c.x; s.y0=c.y; s.own=c.owner; s.px=c.px; s.ly=c.ly
        R,T=cut_seq(p,c.seq,'backward cursor'); s.R,s.T=p.norm(R),p.norm(T)
        cur=p.freshv('cur',8,0,PMAX); mid=p.freshv('mid',8,0,PMAX)
        p.add_chunk(LSeg(k,s.x0,mid,s.R,s.own,s.px,cur))
        if s.mode=='retain': p.add_chunk(LSeg(k,mid,s.y0,s.T,s.own,cur,s.ly))
        p.cells[p.nf(s.m)]=Cell(8,cur); s.chunks=[c for c in p.chunks if c not in before]
        lc.view.P.append(s.T); lc.view.R.append(s.R); lc.view.x.append(cur)
    def after(s,p,cur):
        """the address that follows the node cur"""
        k=s.ch.k
        if p.valid(eq(cur,s.px)): return None
        for _ in range(2):
            if has_full_node(p,k,cur): return p.nf(p.cells[p.nf(cur+k.next)].val)
            for c in p.chunks:
                if isinstance(c,LSeg) and c.k is k and p.valid(And(gt(p.length(c.seq),0),eq(c.ly,cur))): return p.nf(c.y)
            if not p.choose(eq(cur,s.px),'the cursor has passed the first item'): continue
            return None
        raise Retry()
    def check(s,p,lc,v):
        k=s.ch.k; cur=p.nf(p.cells[p.nf(s.m)].val); mid=s.after(p,cur)
        if mid is None: P=(); mid=p.nf(s.x0); last=s.px
        else:
            P,last=gather(p,k,s.x0,mid,s.own,'loop',s.px); p.oblige(eq(last,cur),'loop','position of the cursor')
        if s.mode=='retain':
            T,l2=gather(p,k,mid,s.y0,s.own,'loop',last); p.oblige(eq(l2,s.ly),'loop','last item')
            if not p.seq_eq(P+T,s.S): raise Retry()
        else:
            full=list(p.norm(s.R)); r=[x for x in p.norm(P) if x[0]=='u' or not p.isempty((x,))]
            while r and full and r[0]==full[0]: r.pop(0); full.pop(0)
            if r: raise Retry()
            T=p.norm(tuple(full)+tuple(s.T))
        if not p.valid(lt(p.length(P),p.length(s.R))): raise Retry()
        v.P.append(p.norm(T)); v.R.append(p.norm(P)); v.x.append(cur)
    def cands(s,p,lc,mods):
        i=s.vi; out=[]
        for fn,t in p.hints.get('rank',[]):
            out.append(('T%d>%r'%(i,t),lambda v,i=i,fn=fn,t=t: Or(eq(p.length(v.P[i]),0),gt(p.attr(v.P[i],('first',fn)),t))))
            out.append(('T%d>=%r'%(i,t),lambda v,i=i,fn=fn,t=t: Or(eq(p.length(v.P[i]),0),ge(p.attr(v.P[i],('first',fn)),t))))
        return out

def cut_at_len(p,seq,k):
    """the parts of a sequence before and from position k (k must be where two pieces meet)"""
    seq=p.norm(seq); pos=ZERO; k=p.nf(k)
    for i in range(len(seq)+1):
        if pos==k or p.valid(eq(pos,k)): return seq[:i],seq[i:]
        if i<len(seq): pos=p.nf(pos+p.length((seq[i],)))
    return None
def at_len(p,seq,k):
    r=cut_at_len(p,seq,k)
    if r is None:
        # inside a piece: elements that the loop has passed without looking at them
        seq=p.norm(seq); pos=ZERO; k=p.nf(k)
        for pc in seq:
            n=ONE if pc[0]=='u' else p.length((pc,))
            if pc[0]=='v' and pc[2] is None and p.valid(And(lt(pos,k),lt(k,pos+n))): 
                if p.valid(eq(k+1,pos+n)): p.splitlast(pc[1])
                elif p.valid(eq(k,pos+1)): p.splitfirst(pc[1])
                else: p.cutat(pc[1],p.nf(k-pos))
                r=cut_at_len(p,seq,k); break
            pos=p.nf(pos+n)
    if r is None: raise Retry()
    return r
class IndexCursor(Strat):
    """cell m is base + scale * position in a sequence that the loop does not change"""
    def __init__(s,m,seq,base,scale,down): s.m=m; s.S=seq; s.base=base; s.scale=scale; s.down=down; s.cells=(m,); s.neg=(base.const() or 0)<0
    def __repr__(s): return 'index cursor (%s)'%('down' if s.down else 'up')
    def entryview(s,p,v): v.P.append(()); v.R.append(s.S); v.x.append(p.nf(s.base+p.length(s.S)*s.scale) if s.down else p.nf(L(s.base)))
    def enter(s,p,lc):
        A,Bq=cut_seq(p,s.S,'index cursor'); A=p.norm(A); Bq=p.norm(Bq)
        s.P,s.R=(A,Bq) if not s.down else (Bq,A)
        i=p.nf(s.base+p.length(A)*s.scale)
        n=p.cells[p.nf(s.m)].size; p.cells[p.nf(s.m)]=Cell(n,p.fromsigned(i,8*n) if s.neg else i)
        lc.view.P.append(s.P); lc.view.R.append(s.R); lc.view.x.append(i)
        for ch in p.chunks: ch.nf(p)
    def check(s,p,lc,v):
        x=p.nf(p.cells[p.nf(s.m)].val)
        if s.neg: x=p.signed(x,8*p.cells[p.nf(s.m)].size)
        d=p.nf(x-s.base)
        if d.c%s.scale or any(k%s.scale for _,k in d.t): raise Retry()
        A,Bq=at_len(p,s.S,div(d,s.scale))
        P,R=(A,Bq) if not s.down else (Bq,A)
        if not p.valid(lt(p.length(R),p.length(s.R))): raise Retry()
        v.P.append(P); v.R.append(R); v.x.append(x)
class RangeCursor(Strat):
    """cells lo and hi delimit the part of a sequence that is left (hi exclusive, or inclusive if incl)"""
    nviews=2
    def __init__(s,lo,hi,seq,incl): s.lo=lo; s.hi=hi; s.S=seq; s.incl=incl; s.cells=(lo,hi)
    def __repr__(s): return 'range of positions'
    def entryview(s,p,v):
        for i in (0,1): v.P.append(()); v.R.append(s.S); v.x.append(ZERO)
        s.vlo=ZERO; s.vhi=p.nf(p.length(s.S)-s.incl)
    def enter(s,p,lc):
        s.e=(s.vlo,s.vhi)
        A,X=cut_seq(p,s.S,'begin of range'); M,Bq=cut_seq(p,X,'end of range')
        s.A=p.norm(A); s.M=p.norm(M); s.B=p.norm(Bq); n=p.nf(p.length(s.A)+p.length(s.M)-s.incl)
        p.cells[p.nf(s.lo)]=Cell(8,p.length(s.A)); p.cells[p.nf(s.hi)]=Cell(8,p.fromsigned(n,64))
        s.vlo=p.length(s.A); s.vhi=n; lc.view.lo=s.vlo; lc.view.hi=n
        lc.view.P+=[s.A,s.B]; lc.view.R+=[s.M,s.M]; lc.view.x+=[ZERO,ZERO]
        for ch in p.chunks: ch.nf(p)
    def check(s,p,lc,v):
        lo=p.nf(p.cells[p.nf(s.lo)].val); hi=p.signed(p.nf(p.cells[p.nf(s.hi)].val),64)
        A,_=at_len(p,s.S,lo); _,Bq=at_len(p,s.S,p.nf(hi+s.incl))
        a,b=p.length(A),p.length(Bq); n=p.length(s.S)
        if not p.valid(And(le(a+b,n),lt(n-a-b,p.length(s.M)))): raise Retry()
        v.lo=lo; v.hi=hi
        v.P+=[A,Bq]; v.R+=[(),()]; v.x+=[ZERO,ZERO]
    def cands(s,p,lc,mods):
        out=[]
        def first(v,fn): return p.attr(v.P[s.vi+1],('first',fn))
        for fn,t in p.hints.get('rank',[]):
            out.append(('B>%r'%t,lambda v: Or(eq(p.length(v.P[s.vi+1]),0),gt(first(v,fn),t))))
            out.append(('B>=%r'%t,lambda v: Or(eq(p.length(v.P[s.vi+1]),0),ge(first(v,fn),t))))
        lo=lambda v: v.__dict__.get('lo',ZERO); hi=lambda v: v.__dict__.get('hi',s.e[1])
        for r in mods:
            if lc.E[r].size!=4: continue
            for x in mods:
                if lc.E[x].size!=8: continue
                for nm,f in (('lo-1',lambda v: lo(v)-1),('lo',lo),('hi+1',lambda v: hi(v)+1),('hi',hi)):
                    out.append(('%s<0 -> %s==%s'%(r,x,nm),lambda v,r=r,x=x,f=f: Imp(ge(v.c[r],1<<31),eq(v.c[x],f(v)))))
                    out.append(('%s>0 -> %s==%s'%(r,x,nm),lambda v,r=r,x=x,f=f: Imp(And(gt(v.c[r],0),lt(v.c[r],1<<31)),eq(v.c[x],f(v)))))
                for r2 in (0,): out.append(('%s!=0'%r,lambda v,r=r: ne(v.c[r],0)))
        return out
def index_options(p,lc,mods):
    """cursors over the sequences named by the contract"""
    out=[]
    for S in p.hints.get('seqs',[]):
        S=p.norm(S); n=p.length(S)
        if p.isempty(S): continue
        val={m:p.nf(p.cells[p.nf(m)].val) for m in mods if p.nf(m) in p.cells and p.cells[p.nf(m)].size in(4,8)}
        for m,v in val.items():
            if not p.valid(eq(v,0)): continue
            for m2,w in val.items():
                if m2 is m or p.cells[p.nf(m2)].size!=8 or p.cells[p.nf(m)].size!=8: continue
                for incl in (1,0):
                    if p.valid(eq(w,n-incl)): out.append(lambda m=m,m2=m2,incl=incl,S=S: RangeCursor(m,m2,S,incl))
        for m,v in val.items():
            if p.valid(eq(v,0)): out.append(lambda m=m,S=S: IndexCursor(m,S,ZERO,1,False))
            elif p.valid(eq(v,n)): out.append(lambda m=m,S=S: IndexCursor(m,S,ZERO,1,True))
            elif p.valid(eq(v,n-1)): out.append(lambda m=m,S=S: IndexCursor(m,S,C(-1),1,True))
        for b,sc in p.hints.get('bases',[]):
            for m,v in val.items():
                if p.valid(eq(v,b)): out.append(lambda m=m,S=S,b=b,sc=sc: IndexCursor(m,S,L(b),sc,False))
                elif p.valid(eq(v,b+n*sc)): out.append(lambda m=m,S=S,b=b,sc=sc: IndexCursor(m,S,L(b),sc,True))
    return out

class LinkCursor(Strat):
    """cell m holds the address of the link that points to the rest of the list"""
    def __init__(s,m,a,ch,which,preds=None): s.m=m; s.a=a; s.ch=ch; s.which=which; s.preds=preds; s.cells=(m,a)
    def __repr__(s): return 'link cursor%s%s'%('' if s.which is None else ' piece %d'%s.which,' filtering' if s.preds else '')
    def entryview(s,p,v): v.P.append(()); v.R.append(s.ch.seq); v.x.append(p.nf(s.ch.x))
    def enter(s,p,lc):
        c=ListCursor.locate(s,p); k=c.k
        p.addchunk_remove(c); del p.cells[p.nf(s.a)]
        s.S=c.seq; s.y0=c.y; s.own=c.owner; s.px=c.px; s.ly=c.ly
        s.P,s.R,s.end=_piece_split(p,c.seq,s.which)
        s.Q=p.mapseq(s.P,('filt',s.preds)) if s.preds else s.P
        before=list(p.chunks)
        b=p.freshv('link',8,4096,PMAX); h=p.freshv('h',8,0,PMAX)
        p.add_chunk(LinkSeg(k,s.a,b,s.Q,s.own,None,s.px,None if s.px is None else p.freshv('mid',8,0,PMAX)))
        mid=p.chunks[-1].ly
        b=p.nf(b)
        p.add_cell(b,8,h)
        p.add_chunk(LSeg(k,h,s.y0,s.R,s.own,mid,s.ly))
        p.cells[p.nf(s.m)]=Cell(8,p.nf(b)); 
        lc.view.P.append(s.P); lc.view.R.append(s.R); lc.view.x.append(h)
        s.b=b; s.h=h; s.chunks=[c for c in p.chunks if c not in before]
        s.cells=(s.m,s.a,b)
    def check(s,p,lc,v):
        k=s.ch.k; dbl=s.px is not None
        b=p.nf(p.cells[p.nf(s.m)].val)
        Q,last=gather_links(p,k,s.a,b,s.own,'loop',s.px)
        h=p.take_cell(b,8,'loop','link')
        R,l2=gather(p,k,h,s.y0,s.own,'loop',last if dbl else None)
        if dbl: p.oblige(eq(l2,s.ly),'loop','last item')
        if not p.valid(lt(p.length(R),p.length(s.R))): raise Retry()
        if s.preds is None:
            if not p.seq_eq(Q+R,s.S): raise Retry()
            P=Q
        else:
            full=list(p.norm(s.R)); r=[x for x in p.norm(R) if x[0]=='u' or not p.isempty((x,))]
            while r and full and (r[-1]==full[-1]): r.pop(); full.pop()
            if r: raise Retry()
            P=p.norm(tuple(s.P)+tuple(full))
            if not p.seq_eq(Q,p.mapseq(P,('filt',s.preds))): raise Retry()
        covered(p,s,P)
        v.P.append(p.norm(P)); v.R.append(p.norm(R)); v.x.append(p.nf(h))

class LoopExec(Exec):
    # ------------------------------------------------------------ entry
    def loop_enter(s,lc):
        """the state at the loop head stands for the state in which the loop is entered: at least one of its forms is possible"""
        lc.n0=None
        try: s.loop_enter1(lc)
        except PathEnd:
            if lc.n0 is not None: s.uncovered(lc)
            raise
        if lc.n0 is not None and lc.okey not in lc.inst.enterok:
            if s._m(lambda: s.ver.solver.check(s,True)[0]==z3.unsat,'cov'): s.uncovered(lc)
            else: lc.inst.enterok.add(lc.okey)
    def uncovered(s,lc):
        if lc.okey not in lc.inst.enterok: lc.inst.tried[lc.okey]=type('Q',(),dict(facts=s.facts[:lc.n0],nodes=s.nodes[:lc.n0]))
    def loop_enter1(s,lc):
        inst=lc.inst; fr=lc.fr; seen=[k for k,c in s.cells.items() if c.size==8 and k not in lc.snap[0]]
        s.restore(lc.snap); s.fold()
        # slots of tables that the way to the first effect of the loop reads
        seen=[k for k in seen if s.nf(k) not in s.cells and any(getattr(c,'loop_open',False) and c.match(s,s.nf(k),8) for c in s.chunks)]
        if seen: inst.canpeek=True
        lc.pend=None; lc.state='cut'; lc.fresh=True; lc.view=None; lc.strats=[]; lc.reads=(); lc.nondet=False; lc.waits=False
        if inst.passno!=s.ver.passno:
            inst.passno=s.ver.passno; inst.fz=(dict(inst.mod),set(inst.dropped),{k:list(x) for k,x in inst.deltas.items()},set(inst.ghmod),inst.alt,inst.phase)
        fmod,fdrop,fdelt,fgh,falt,fphase=inst.fz
        s.ver.visited.setdefault(lc.key,inst.print(s.ver.passno))
        inst.line=max(inst.__dict__.get('line',0),s.line)
        if fphase==1:
            for f in s.world.fold_hooks: f(s,fmod)
            # a pointer that the loop moves may point into a table: its slot becomes a cell
            for k in fmod:
                c=s.cells.get(s.nf(k))
                if c is None or c.size!=8 or s.nf(c.val) in s.cells: continue
                for ch in s.chunks:
                    if getattr(ch,'loop_open',False):
                        g=ch.match(s,s.nf(c.val),8)
                        if g is not None: g(); break
        if inst.peek:
            for k in seen:
                if s.nf(k) not in s.cells: s.find(s.nf(k),8)
        lc.E={k:Cell(c.size,c.val) for k,c in s.cells.items()}; lc.Ech=list(s.chunks); lc.Etok=list(s.toks); lc.Egh=dict(s.ghost)
        if fphase==1:
            lc.n0=len(s.facts); lc.okey=(s.node,inst.print(s.ver.passno))
            s.cut_middle(lc)
            alts=s.alternatives(lc); 
            inst.nalts=len(alts)
            a=falt if falt<len(alts) else 0
            lc.strats=alts[a]() ; inst.names=[repr(x) for x in lc.strats]
            s.trace.append('loop at line %d: %s'%(lc.lineno,', '.join(inst.names) or 'no cursor'))
            v0=View(s); v0.c={k:c.val for k,c in lc.E.items()}; v0.g=dict(s.ghost)
            for st in lc.strats: st.vi=len(v0.P); st.entryview(s,v0)
            lc.view=v=View(s); lc.v0=v0
            own=set()
            for st in lc.strats:
                st.enter(s,lc)
                for k in st.cells: own.add(s.nf(k))
            for k in list(fmod):
                k2=s.nf(k)
                if k2 in own or k2 not in s.cells: continue
                c=s.cells[k2]; s.cells[k2]=Cell(c.size,s.freshv('h',c.size))
            for g in sorted(fgh): s.ghost[g]=s.freshv('gh:'+g,8)
            v.c={k:c.val for k,c in s.cells.items()}; v.g=dict(s.ghost)
            # entry chunks and cells that the invariant keeps as they are
            lc.F={k:Cell(c.size,c.val) for k,c in s.cells.items()}
            mine=set(id(c) for st in lc.strats for c in st.chunks)
            lc.frame=[copy.copy(c) for c in s.chunks if id(c) not in mine]
            mt=[s.nf(t) for st in lc.strats for t in st.toks]; lc.ftok=[t for t in s.toks if s.nf(t[1]) not in mt]
            lc.cands=[]
            pfx=','.join(inst.names)+'|'
            for nm,f in s.candidates(lc,inst):
                nm=pfx+nm
                if nm in fdrop: continue
                if not s.valid(f(v0)):
                    inst.dropped.add(nm); continue
                lc.cands.append((nm,f))
            for nm,f in lc.cands: s.assume(f(v))
        fr.block=lc.header; fr.idx=0; fr.prev='*'
    def changed(s,lc):
        """entry cells that have a different value now"""
        out=[]
        for k,c in lc.E.items():
            k2=s.nf(k); d=s.cells.get(k2)
            if d is None: out.append(k); continue
            if d.size!=c.size: 
                s.find(k2,c.size); d=s.cells[k2]
            if s.nf(d.val)!=s.nf(c.val) and not s.valid(eq(d.val,c.val)): out.append(k)
        return out
    # ------------------------------------------------------------ back edge
    def progress(s,lc,v):
        """an iteration without any effect, made of deterministic steps only, repeats for ever"""
        inst=lc.inst
        if lc.strats or lc.nondet: return
        for g,x in v.g.items():
            if not s.valid(eq(x,lc.Egh.get(g,ZERO))): return
        used=set()
        for x in lc.reads:
            if isinstance(x,Lin): used|=s.nf(x).deps()
            else: return
        for k in inst.fz[0]:
            d=lc.F.get(k)
            x=v.c.get(k)
            if d is None or x is None: return
            h=s.nf(d.val)
            if h.isatom() and not (h.deps()&used): continue     # overwritten before it is read
            if s.nf(x-d.val)!=ZERO and not s.valid(eq(x,d.val)): return
        s.hardfail('loop','an iteration of the loop at line %d makes progress (a state the loop can reach repeats for ever)'%inst.line)
    def variant(s,lc,v):
        """a loop without a cursor (a cursor moves in every iteration): some difference of values decreases in every iteration
        and is not negative when the iteration begins"""
        inst=lc.inst
        if lc.strats or lc.waits: return True
        key=(tuple(inst.names),inst.alt,frozenset(inst.mod),frozenset(inst.dropped))
        F={s.nf(k):c for k,c in lc.F.items()}; val=[]
        for k in inst.fz[0]:
            d=F.get(s.nf(k)); x=v.c.get(k)
            if d is None or x is None or d.size not in(4,8): continue
            n=8*d.size; a,b=s.nf(d.val),s.nf(x)
            val.append((k,a,b,d.size)); 
            if not s.valid(And(lt(a,1<<(n-1)),lt(b,1<<(n-1)))): val.append((('s',k),s.signed(a,n),s.signed(b,n),d.size))
        val=[x for x in val if x[1]!=x[2] and not s.valid(eq(x[1],x[2]))]
        fixed=[('0',ZERO)]+[('hint%d'%i,s.nf(t)) for i,t in enumerate(s.hints.get('bounds',[])+s.hints.get('lower',[]))]+[('len%d'%i,s.length(S)) for i,S in enumerate(s.hints.get('seqs',[]))]
        for k,c in lc.F.items():
            if k not in inst.fz[0] and c.size in(4,8): fixed.append((k,s.nf(c.val)))
        opts=[]
        for i,(k,a,b,_) in enumerate(val):
            for nm,t in fixed: opts+=[(('+',k,nm),a-t,b-t),(('-',k,nm),t-a,t-b)]
            for j,(k2,a2,b2,_) in enumerate(val):
                if i!=j: opts.append(((k,k2),a-a2,b-b2))
        old=inst.variants.get(key); out=set()
        for nm,a,b in opts:
            if old is not None and nm not in old: continue
            if s.valid(lt(b,a)) and s.valid(ge(a,0)): 
                out.add(nm)
                if old is None and len(out)>=8: break
        inst.variants[key]=out
        return bool(out)
    def loop_back(s,lc):
        s.restore(lc.snap); inst=lc.inst; ver=s.ver
        lc.pend=None
        if inst.fz[5]==0:
            for k in s.changed(lc): 
                inst.mod[k]=1
                d=s.cells.get(s.nf(k))
                if d is not None: s.note_delta(inst,k,s.nf(d.val-lc.E[k].val))
            for g,x in s.ghost.items():
                if not s.valid(eq(x,lc.Egh.get(g,ZERO))): inst.ghmod.add(g)
            inst.seen=True; ver.dirty=True; raise PathEnd()
        inst.reached=True
        v=View(s); ver.inloopcheck=True
        try:
            try:
                own=set()
                newmods=[]
                # frame first: values of cells that no strategy owns
                for st in lc.strats:
                    for k in st.cells: own.add(s.nf(k))
                vals={}
                for k,c in lc.E.items():
                    k2=s.nf(k)
                    d=s.cells.get(k2)
                    if d is None: continue
                    vals[k]=s.nf(d.val)
                    if k in inst.fz[0]: s.note_delta(inst,k,s.nf(d.val-lc.F[k].val) if k in lc.F else None)
                for k in vals:
                    if k not in inst.fz[0] and s.nf(k) not in own and vals[k]!=s.nf(lc.E[k].val) and not s.valid(eq(vals[k],lc.E[k].val)): newmods.append(k)
                if newmods:
                    for k in newmods: inst.mod[k]=1
                    if not inst.committed: inst.alt=0
                    inst.dropped=set(); s.reset_later(lc); raise Restart()
                for st in lc.strats: st.check(s,lc,v)
                for k,c in lc.E.items():
                    k2=s.nf(k)
                    if k2 in own: 
                        s.cells.pop(k2,None); continue
                    d=s.cells.get(k2)
                    if d is None:
                        kk=s.find(k2,c.size,'loop','state at the loop head'); d=s.cells[kk]
                    if d.size!=c.size:
                        s.find(k2,c.size,'loop'); d=s.cells[k2]
                    if k not in inst.fz[0]:
                        if s.nf(d.val)!=s.nf(c.val) and not s.valid(eq(d.val,c.val)): newmods.append(k)
                    vals[k]=s.nf(d.val)
                    del s.cells[k2]
                for g,x in s.ghost.items():
                    if g not in inst.fz[3] and not s.valid(eq(x,lc.Egh.get(g,ZERO))): newmods.append(('gh',g))
                # chunks: what is not owned by a strategy must be there unchanged
                s.framechunks(lc)
                if s.cells: 
                    s.hardfail('loop','the loop leaves memory %r behind'%next(iter(s.cells)))
                if newmods:
                    for k in newmods:
                        if isinstance(k,tuple): inst.ghmod.add(k[1])
                        else: inst.mod[k]=1
                    s.reset_later(lc); raise Restart()
            except Retry as ex:
                if s.ver.verbose:
                    tb=ex.__traceback__
                    while tb.tb_next: tb=tb.tb_next
                    print('   retry',lc.lineno,inst.names,tb.tb_frame.f_code.co_name,tb.tb_lineno,str(ex.args)[:300])
                if s.next_alt(lc): raise Restart()
                ver.inloopcheck=False
                s.hardfail('loop','loop invariant (%s) is preserved by the loop at line %d'%(', '.join(inst.names) or 'state unchanged',inst.line))
        finally: ver.inloopcheck=False
        for k,x in vals.items(): v.c[k]=x
        v.g=dict(s.ghost)
        bad=False
        for nm,f in lc.cands:
            try: ok=s.valid(f(v))
            except KeyError: ok=False
            if not ok: inst.dropped.add(nm); bad=True
        if bad: ver.dirty=True; s.reset_later(lc)
        else:
            s.progress(lc,v)
            if not s.variant(lc,v):
                if s.next_alt(lc): raise Restart()
                s.hardfail('loop','the loop at line %d comes to an end: no value decreases in every iteration'%inst.line)
        ver.note_obl('loop','the invariant of the loop is preserved (%s; %s)'%(', '.join(inst.names),s.frames[-1].f.name),inst.line,True)
        ver.nobl+=1
        raise PathEnd()
    def note_delta(s,inst,k,d):
        if d is None: return
        c=d.const()
        if c is not None and c!=0 and c not in inst.deltas.setdefault(k,[]) and len(inst.deltas[k])<4:
            inst.deltas[k].append(c); s.ver.dirty=True
    def next_alt(s,lc):
        inst=lc.inst
        if inst.committed: return False
        inst.alt+=1; inst.dropped=set(); 
        s.reset_later(lc)
        if inst.alt>=inst.nalts:
            inst.alt=0
            if inst.canpeek and not inst.peek: inst.peek=True
            else: inst.committed=True
        return True
    def reset_later(s,lc):
        """instances created after this one depend on it"""
        L=s.ver.loops; o=lc.inst.order
        for k in [k for k,i in L.items() if i.order>o]: del L[k]
    def framechunks(s,lc):
        for e in lc.frame: e.nf(s); s.consume_same(e)
        for st in lc.strats: st.frame(s,lc)
        for o,a,n in lc.ftok:
            if s.take_tok(None,a) is None: raise Retry()
        if s.toks: raise Retry()
        for c in s.chunks:
            if not s.emptychunk(c): raise Retry()
    def consume_same(s,e):
        """the chunk e of the loop head is there again, unchanged"""
        if s.emptychunk(e): return
        for c in s.chunks:
            if c.__class__ is e.__class__ and c.same(s,e): s.addchunk_remove(c); return
        if isinstance(e,LSeg):
            q,l=gather(s,e.k,e.x,e.y,e.owner,'loop',e.px)
            if not s.seq_eq(q,e.seq): raise Retry()
            if e.px is not None: s.oblige(eq(l,e.ly),'loop','last item')
        elif isinstance(e,Arr):
            q=take_arr(s,e.addr,e.esz,s.length(e.seq),'loop')
            if not s.seq_eq(q,e.seq): raise Retry()
        elif isinstance(e,Raw):
            gather_range(s,e.addr,e.size,'loop')
        elif hasattr(e,'reconsume'): e.reconsume(s)
        else: raise Retry()
    def emptychunk(s,c):
        if getattr(c,'seq',None) is not None: return s.isempty(c.seq)
        if isinstance(c,Raw): return c.size.const()==0
        return False
    # ------------------------------------------------------------ folding
    def fold(s):
        """put explicitly opened nodes back into the list segments they border on"""
        again=True
        while again:
            again=False
            for c in list(s.chunks):
                if not isinstance(c,LSeg): continue
                # successor node explicit
                for o,a,n in s.toks:
                    if n.const()==c.k.size and o==c.owner and has_full_node(s,c.k,a):
                        nx=s.cells[s.nf(a+c.k.next)].val; pv=s.cells[s.nf(a+c.k.prev)].val if c.k.prev is not None else None
                        if c.y==a and (c.px is None or pv==c.ly):
                            s.addchunk_remove(c); e,nx,pv=node_at(s,c.k,a,c.owner,'memory')
                            s.chunks.append(LSeg(c.k,c.x,nx,c.seq+(('u',e),),c.owner,c.px,None if c.px is None else a)); again=True; break
                        if nx==c.x and not s.isempty(c.seq) and (c.px is None or c.px==a):
                            s.addchunk_remove(c); e,nx,pv=node_at(s,c.k,a,c.owner,'memory')
                            s.chunks.append(LSeg(c.k,a,c.y,(('u',e),)+c.seq,c.owner,pv,c.ly)); again=True; break
                if again: break
                for d in s.chunks:
                    if isinstance(d,LSeg) and d is not c and d.k is c.k and c.y==d.x and c.owner==d.owner and (c.px is None or d.px==c.ly) and not s.emptychunk(d) and not s.emptychunk(c):
                        s.addchunk_remove(c); s.addchunk_remove(d)
                        s.chunks.append(LSeg(c.k,c.x,d.y,s.norm(c.seq+d.seq),c.owner,c.px,d.ly)); again=True; break
                if again: break
        for c in s.chunks:
            if isinstance(c,LSeg): 
                for f in c.facts(s): s.assume(f)
    def cut_middle(s,lc):
        """cursors that start inside a list segment: cut the segment there"""
        for m in lc.inst.fz[0]:
            c=s.cells.get(s.nf(m))
            if c is None or c.size!=8: continue
            v=s.nf(c.val)
            for ch in list(s.chunks):
                if not isinstance(ch,LSeg): continue
                for i,pc in enumerate(ch.seq):
                    if i and pc[0]=='u' and s.nf(pc[1][0])==v and not s.isempty(ch.seq[:i]):
                        pre,post=ch.seq[:i],ch.seq[i:]; s.addchunk_remove(ch); mid=None
                        if ch.px is not None: mid=s.nf(s.attr(pre,('last',('fld',0))))
                        s.add_chunk(LSeg(ch.k,ch.x,v,pre,ch.owner,ch.px,mid)); s.add_chunk(LSeg(ch.k,v,ch.y,post,ch.owner,mid,ch.ly)); break
    # ------------------------------------------------------------ guesses
    def alternatives(s,lc):
        inst=lc.inst; mods=list(inst.fz[0])
        groups=[]
        for ch in s.chunks:
            if isinstance(ch,LSeg) and not s.isempty(ch.seq): o=s.list_options(lc,ch,mods)
            elif hasattr(ch,'loop_options'): o=ch.loop_options(s,lc,mods)
            else: o=[]
            if o: groups.append(o)
        o=index_options(s,lc,mods)
        if o: groups.append(o)
        for h in s.world.loop_options: 
            o=h(s,lc,mods)
            if o: groups.append(o)
        def mk(combo):
            def make():
                st=[f() for f in combo if f is not None]
                for h in s.world.strat_hooks: h(s,lc,st)
                return st
            return make
        combos=list(itertools.product(*[g+[None] for g in groups]))
        if s.hints.get('inv'): combos.insert(0,combos.pop())
        # combinations with more cursors first, in the order of the options
        return [mk(c) for c in combos]
    def moving(s,lc):
        st=[type('X',(),{'mode':'free'})]
        for h in s.world.strat_hooks: h(s,lc,st)
        return len(st)>1
    def list_options(s,lc,ch,mods):
        out=[]; cp=lambda: copy.copy(ch)
        vs=[i for i,x in enumerate(ch.seq) if x[0]=='v']
        whichs=[j for j,i in enumerate(vs) if s.isempty(ch.seq[:i])]+([None] if len(ch.seq)>1 or not vs else [])
        preds=[None]+[frozenset([q]) for q in s.hints.get('filter',[])]
        for m in mods:
            k=s.nf(m); c=s.cells.get(k)
            if c is None or c.size!=8: continue
            v=s.nf(c.val)
            if v==ch.x:
                if ch.px is not None:
                    for m2 in mods:
                        c2=s.cells.get(s.nf(m2))
                        if m2 is not m and c2 is not None and c2.size==8 and s.valid(And(gt(s.length(ch.seq),0),eq(c2.val,ch.ly))): out+=[lambda m=m,m2=m2,past=past: BiCursor(m,m2,ch,past) for past in (True,False)]
                for w in whichs:
                    for q in preds[1:]:
                        for a in mods:
                            ca=s.cells.get(s.nf(a))
                            if a is not m and ca is not None and s.nf(ca.val)==ch.x: out.append(lambda m=m,w=w,q=q,a=a: ListCursor(m,cp(),'filter',w,q,a))
                    for mode in (('free','retain') if 'newtable' in s.hints and s.moving(lc) else ('retain','free')): out.append(lambda m=m,w=w,mode=mode: ListCursor(m,cp(),mode,w))
            if ch.px is not None and (v==ch.ly or v!=ch.x and s.valid(And(gt(s.length(ch.seq),0),eq(v,ch.ly)))):
                for mode in ('retain','free'): out.append(lambda m=m,mode=mode: BackCursor(m,cp(),mode))
            a=s.cells.get(v)
            if a is not None and a.size==8 and s.nf(a.val)==ch.x:
                for w in whichs:
                    for q in preds: out.append(lambda m=m,w=w,q=q,v=v: LinkCursor(m,v,cp(),w,q))
        return out
    def candidates(s,lc,inst):
        out=[]; st=lc.strats; own=set(s.nf(k) for x in st for k in x.cells)
        add=lambda n,f: out.append((n,f))
        mods=[k for k in inst.fz[0] if s.nf(k) not in own and s.nf(k) in s.cells]
        hints=s.hints
        lists=[i for i,x in enumerate(lc.v0.P)]; src=[x for x in st for _ in range(x.nviews)]
        cnts=[frozenset([q]) for q in hints.get('filter',[])+hints.get('count',[])]
        for k in mods:
            e=lc.E[k]; v0=s.nf(e.val); nm='%s'%(k,)
            add(nm+'==0',lambda v,k=k: eq(v.c[k],0))
            if e.size==1 : add(nm+'<=1',lambda v,k=k: le(v.c[k],1))
            for d in inst.fz[2].get(k,[]):
                for i in lists: add('%s==v0%+d*len%d'%(nm,d,i),lambda v,k=k,d=d,i=i,v0=v0: eq(v.c[k],v0+s.length(v.P[i])*d))
                for i in lists:
                    for h in cnts: add('%s==v0%+d*cnt%d%s'%(nm,d,i,sorted(h)),lambda v,k=k,d=d,i=i,v0=v0,h=h: eq(v.c[k],v0+s.attr(v.P[i],('cnt',h))*d))
            if e.size==8:
                for i in lists:
                    x=src[i]
                    if hasattr(x,'S'):
                        add('%s==last%d'%(nm,i),lambda v,k=k,i=i: eq(v.c[k],lastaddr(s,v.P[i],ZERO)))
                        add('%s==last%d|v0'%(nm,i),lambda v,k=k,i=i,v0=v0: eq(v.c[k],lastaddr(s,v.P[i],v0)))
                        if getattr(x,'preds',None): 
                            add('%s==flast%d'%(nm,i),lambda v,k=k,i=i,x=x: eq(v.c[k],lastaddr(s,s.mapseq(v.P[i],('filt',x.preds)),ZERO)))
                            add('%s==ftail%d'%(nm,i),lambda v,k=k,i=i,x=x,v0=v0: eq(v.c[k],ite(s.nff(gt(s.length(v.R[i]),0)),v0,lastaddr(s,s.mapseq(v.P[i],('filt',x.preds)),ZERO))))
                        add('%s==cur%d'%(nm,i),lambda v,k=k,i=i: eq(v.c[k],v.x[i]))
                add(nm+'>=v0',lambda v,k=k,v0=v0: ge(v.c[k],v0))
                add(nm+'<=v0',lambda v,k=k,v0=v0: le(v.c[k],v0))
        for k in mods:
            for t in hints.get('bounds',[]): add('%s<=%r'%(k,t),lambda v,k=k,t=t: le(v.c[k],t))
            for t in hints.get('lower',[]): add('%s>=%r'%(k,t),lambda v,k=k,t=t: ge(v.c[k],t))
            for fn,base in hints.get('fold',[]):
                if lc.E[k].size!=4: continue
                for j in mods:
                    if lc.E[j].size!=8: continue
                    add('%s==%s(%s)'%(k,fn,j),lambda v,k=k,j=j,fn=fn: eq(v.c[k],uf(fn,s.nf(v.c[j]))))
                    add('%s==%s(%r+%s)'%(k,fn,base,j),lambda v,k=k,j=j,fn=fn,base=base: eq(v.c[k],uf(fn,s.nf(base+v.c[j]))))
        if hints.get('parallel'):
            for a,b in itertools.combinations(mods,2):
                if lc.E[a].size==8 and lc.E[b].size==8: add('%s ~ %s'%(a,b),lambda v,a=a,b=b,d=s.nf(lc.E[a].val-lc.E[b].val): eq(v.c[a],v.c[b]+d))
        for a,b in itertools.combinations(mods,2):
            if lc.E[a].size==lc.E[b].size: add('%s==%s'%(a,b),lambda v,a=a,b=b: eq(v.c[a],v.c[b]))
        for x in st:
            # what the cursor does not point to when the loop goes on
            for k in x.cells[:1]:
                if s.nf(k) not in s.cells or s.cells[s.nf(k)].size!=8: continue
                add('%s!=0'%(k,),lambda v,k=k: Not(eq(v.c[k],0)))
                for t in hints.get('ne',[]): add('%s!=%r'%(k,t),lambda v,k=k,t=t: Not(eq(v.c[k],t)))
        for i in lists:
            for h in cnts: 
                add('cnt%d%s==0'%(i,sorted(h)),lambda v,i=i,h=h: eq(s.attr(v.P[i],('cnt',h)),0))
            for fn,t in hints.get('rank',[]):
                add('P%d<%r'%(i,t),lambda v,i=i,fn=fn,t=t: Or(eq(s.length(v.P[i]),0),lt(s.attr(v.P[i],('last',fn)),t)))
                add('P%d<=%r'%(i,t),lambda v,i=i,fn=fn,t=t: Or(eq(s.length(v.P[i]),0),le(s.attr(v.P[i],('last',fn)),t)))
        for g in sorted(inst.fz[3]):
            g0=lc.Egh.get(g,ZERO)
            for i in lists:
                for h in cnts: add('gh %s+cnt%d%s'%(g,i,sorted(h)),lambda v,g=g,i=i,h=h,g0=g0: eq(v.g.get(g,ZERO),g0+s.attr(v.P[i],('cnt',h))))
                for h1,h2 in itertools.combinations(cnts,2):
                    add('gh %s+cnt%d%s'%(g,i,sorted(h1|h2)),lambda v,g=g,i=i,h=h1|h2,g0=g0: eq(v.g.get(g,ZERO),g0+s.attr(v.P[i],('cnt',h))))
            add('gh %s==v0'%g,lambda v,g=g,g0=g0: eq(v.g.get(g,ZERO),g0))
        for nm,f in hints.get('inv',[]): add(nm,f)
        for x in st: out+=x.cands(s,lc,mods)
        for h in s.world.cand_hooks: out+=h(s,lc,mods)
        return out
def has_full_node(p,k,a):
    return all(p.nf(a+off) in p.cells for n,off,sz in k.fields) and p.nf(a+k.next) in p.cells and (k.prev is None or p.nf(a+k.prev) in p.cells)
LoopInst.phase=0; LoopInst.canpeek=LoopInst.peek=False
