"""Contracts of rbtree.c (C12, C13, C14, C16).

A tree owns its nodes.  Tree(root,T,...) is a balanced search tree whose elements in order are T; Seg(x,h,P,L,R,...) is
such a tree with a hole: P is the path from x down to the hole h (node, and 1/2 for the hole left/right of it), L and R
are the elements left and right of the hole.  Both carry the number of black nodes on every way down and the colour of
the root, so that no contract can be met by a tree that is out of balance."""
from spec import *
from specs_list import tok_take,hint
from specs_stack import MAC
from world import LOOP_OPTIONS
from specs_pool import own_pool,take_pool,PoolObj
from heap import take_arr,gather_range,cutseq,Arr
from loops import Strat
RANK=('uf','rank',1); KEY=('fld',1); DAT=('fld',2); SORTED=('sorted',RANK,True)
EK=EKind('RBNode',[('addr',8),('key',8),('value',8)],True)
PK=EKind('path',[('addr',8),('dir',8)],True)
PROJ=('proj',0)
class Lay: pass
def lay(p):
    """layout of a node"""
    m=p.world.members(p.mod,'_rbnode'); return m
def node_open(p,e,l,r,b,owner):
    m=lay(p); a=e[0]
    p.add_cell(a+m['key'][0],8,e[1]); p.add_cell(a+m['value'][0],8,e[2]); p.add_cell(a+m['left'][0],8,l); p.add_cell(a+m['right'][0],8,r); p.add_cell(a+m['black'][0],1,b)
    for o,n in pads(m,('key','value','left','right','black')): p.add_chunk(Raw(p.nf(a+o),C(n),'j'))
    p.add_tok(owner,a,m[''][1])
def pads(m,fs):
    x=0; out=[]
    for o,n in sorted(m[f] for f in fs)+[(m[''][1],0)]:
        if o>x: out.append((x,o-x))
        x=o+n
    return out
def node_take(p,a,owner,label):
    """consume the explicit node at a -> (element, left, right, black)"""
    m=lay(p); a=p.nf(a)
    t=lambda f: p.take_cell(a+m[f][0],m[f][1],label,'field '+f)
    k,v,l,r,b=t('key'),t('value'),t('left'),t('right'),t('black')
    for o,n in pads(m,('key','value','left','right','black')): gather_range(p,p.nf(a+o),C(n),label,'padding')
    n=p.take_tok(owner,a,label,'node')
    if n is None: p.hardfail(label,'node at %r is not owned by the tree (released or shared)'%a)
    if not p.valid(ge(n,m[''][1])): p.hardfail(label,'node at %r has the wrong size'%a)
    p.oblige(And(ge(b,0),le(b,1)),label,'the colour of a node is valid')
    return (a,p.nf(k),p.nf(v)),p.nf(l),p.nf(r),p.nf(b)
def explicit(p,x):
    m=lay(p); return any(b==x for o,b,n in p.toks) and p.nf(x+m['left'][0]) in p.cells or p.nf(x+m['right'][0]) in p.cells
def newseq(p,b,k=EK): return (V(p.freshsv(b,k)),)
class Tree(Chunk):
    def __init__(s,root,T,owner,bh,col): s.root=L(root); s.T=tuple(T); s.owner=L(owner); s.bh=L(bh); s.col=L(col)
    def __repr__(s): return 'tree(%r,%r,bh=%r,col=%r)'%(s.root,list(s.T),s.bh,s.col)
    def nf(s,p): s.root=p.nf(s.root); s.T=p.norm(s.T); s.owner=p.nf(s.owner); s.bh=p.nf(s.bh); s.col=p.nf(s.col)
    def span(s): return 40
    def same(s,p,o): return s.root==o.root and s.owner==o.owner and s.bh==o.bh and s.col==o.col and p.seq_eq(s.T,o.T)
    def facts(s,p):
        n=p.length(s.T); z=eq(s.root,0)
        return [Iff(z,eq(n,0)),ge(s.bh,0),ge(s.col,0),le(s.col,1),Imp(z,And(eq(s.bh,0),eq(s.col,1))),Imp(And(Not(z),eq(s.col,1)),ge(s.bh,1)),Imp(Not(z),And(ge(s.root,4096),lt(s.root,PMAX)))]
    def addrs(s,p): return [(s.root,ne(s.root,0))]
    def settle(s,p):
        if s.root.const()==0: 
            p.addchunk_remove(s)
            for pc in s.T:
                if pc[0]=='v' and pc[1] not in p.subst: p.setsv(pc[1],())
    def match(s,p,addr,size):
        d=basediff(addr,s.root)
        if d is None or not 0<=d<lay(p)[''][1] or not s.root.t: return None
        return lambda: s.open(p)
    def open(s,p):
        p.oblige(ne(s.root,0),'memory','the node exists (not NULL)',hard=True)
        p.addchunk_remove(s); p.note_open=None
        T=p.norm(s.T); i=0
        if len(T)>1: i=p.branch(len(T),'root of the tree')
        pc=T[i]
        if pc[0]=='u': p.assume(eq(pc[1][0],s.root)); e=pc[1]; A,B=T[:i],T[i+1:]
        else:
            k=p.freshv('pos',8); p.assume(lt(k,p.length((pc,))))
            b0=pc[1].name.split('!')[0]; a=p.freshsv(b0,EK); b=p.freshsv(b0,EK); e=p.newelem('n',EK)
            p.setsv(pc[1],(V(a),('u',e),V(b))); p.assume(eq(e[0],s.root))
            A,B=T[:i]+(V(a),),(V(b),)+T[i+1:]
        e=tuple(p.nf(x) for x in e); e=(p.nf(s.root),)+e[1:]
        l=p.freshv('left',8,0,PMAX); r=p.freshv('right',8,0,PMAX); cl=p.freshv('cl',1,0,2); cr=p.freshv('cr',1,0,2)
        p.assume(Imp(eq(s.col,0),And(eq(cl,1),eq(cr,1))))
        node_open(p,e,l,r,s.col,s.owner); h=p.nf(s.bh-s.col)
        p.add_chunk(Tree(l,A,s.owner,h,cl)); p.add_chunk(Tree(r,B,s.owner,h,cr))
    def reconsume(s,p):
        T,bh,col=gather_tree(p,s.root,s.owner,'loop')
        if not (p.seq_eq(T,s.T) and p.valid(And(eq(bh,s.bh),eq(col,s.col)))): raise Retry()
class Seg(Chunk):
    """the way from x down to the hole h.  rem: what an iterator at the hole has still to visit of L and R"""
    def __init__(s,x,h,P,L_,R,owner,xbh,xcol,hbh,hred,xred,rem=()):
        s.x=L(x); s.h=L(h); s.P=tuple(P); s.L=tuple(L_); s.R=tuple(R); s.owner=L(owner); s.xbh=L(xbh); s.xcol=L(xcol); s.hbh=L(hbh); s.hred=L(hred); s.xred=L(xred); s.rem=tuple(rem)
    def __repr__(s): return 'way(%r..%r,P=%r,L=%r,R=%r%s,xbh=%r,xcol=%r,hbh=%r,hred=%r)'%(s.x,s.h,list(s.P),list(s.L),list(s.R),' rem=%r'%list(s.rem) if s.rem else '',s.xbh,s.xcol,s.hbh,s.hred)
    def nf(s,p):
        for f in ('x','h','owner','xbh','xcol','hbh','hred','xred'): setattr(s,f,p.nf(getattr(s,f)))
        for f in ('P','L','R','rem'): setattr(s,f,p.norm(getattr(s,f)))
    def span(s): return 40
    def top(s,p): return p.nf(p.attr(s.P,('last',('fld',0))))
    def facts(s,p):
        n=p.length(s.P); z=eq(n,0)
        b=lambda x: And(ge(x,0),le(x,1))
        return [Imp(z,And(eq(s.x,s.h),eq(p.length(s.L),0),eq(p.length(s.R),0),eq(s.xbh,s.hbh),eq(s.hred,s.xred),eq(p.length(s.rem),0))),
            Imp(Not(z),And(eq(s.x,p.attr(s.P,('first',('fld',0)))),Imp(eq(s.xred,0),eq(s.xcol,1)))),le(n,p.length(s.L)+p.length(s.R)),ge(s.hbh,0),ge(s.xbh,s.hbh),b(s.xcol),b(s.hred),b(s.xred),
            Imp(eq(n,1),eq(s.hred,s.xcol))]
    def addrs(s,p): return [(s.top(p),gt(p.length(s.P),0)),(p.nf(p.attr(s.P,('first',('fld',0)))),gt(p.length(s.P),1))]
    def same(s,p,o): return False
    def match(s,p,addr,size):
        if not s.P: return None
        d=basediff(addr,s.top(p))
        if d is None or not 0<=d<lay(p)[''][1] or not addr.t: return None
        return lambda: s.open(p)
    def sem(s,p,addr,size):
        # the last node of the way under another name
        if not s.P or s.P[-1][0]!='u': return False
        t=s.top(p)
        for d in sorted({o for f,(o,n) in lay(p).items() if f}):
            if p.valid(eq(addr,t+d)): p.assume(eq(addr,t+d)); s.open(p); return True
        return False
    def open(s,p):
        """the last node of the way becomes explicit"""
        p.oblige(gt(p.length(s.P),0),'memory','there is a parent',hard=True)
        p.addchunk_remove(s)
        if s.P[-1][0]=='v':
            if s.P[-1][2] is not None: p.hardfail('unsupported','path')
            if len(s.P)>1 and not p.valid(gt(p.length(s.P[-1:]),0)):
                if not p.choose(gt(p.length(s.P[-1:]),0),'last part of the way'):
                    s.P=s.P[:-1]; p.chunks.append(s); return
            p.splitlast(s.P[-1][1]); s.nf(p)
        a,d=s.P[-1][1]; P=s.P[:-1]
        p.assume(And(ge(d,1),le(d,2))); left=p.choose(eq(d,1),'hole on the left')
        b=s.hred; red=p.freshv('hred',1,0,2); k=p.freshv('key',8); v=p.freshv('value',8); e=(p.nf(a),k,v)
        o=p.freshv('other',8,0,PMAX); co=p.freshv('co',1,0,2); T=newseq(p,'T')
        p.assume(Imp(eq(b,0),And(eq(co,1),eq(red,1)))); rem=s.rem
        if left:
            A=cut_unit(p,s.R,e,T,True); L_,R=s.L,A
            if rem: rem=cut_front(p,rem,T)
        else:
            A=cut_unit(p,s.L,e,T,False); L_,R=A,s.R
        n=Seg(s.x,a,P,L_,R,s.owner,s.xbh,s.xcol,p.nf(s.hbh+b),red,s.xred,rem)
        node_open(p,e,s.h if left else o,o if left else s.h,b,s.owner)
        p.add_chunk(Tree(o,p.norm(T),s.owner,s.hbh,co))
        p.add_chunk(n)
        if p.isempty(P): p.assume(eq(p.length(P),0)); 
        p.assume(Imp(eq(p.length(P),0),eq(s.xcol,b)))
    def settle(s,p):
        if p.isempty(s.P): p.addchunk_remove(s); p.assume(eq(s.x,s.h))
    def reconsume(s,p):
        g=gather_seg(p,s.x,s.h,s.owner,'loop')
        if not (p.seq_eq(g.P,s.P) and p.seq_eq(g.L,s.L) and p.seq_eq(g.R,s.R) and p.valid(And(eq(g.xbh,s.xbh) if g.xbh is not None else True,eq(g.hbh,s.hbh)if g.hbh is not None else True))): raise Retry()
def cut_unit(p,S,e,T,front):
    """S = [e]++T++rest (front) or rest++T++[e]; rest is returned"""
    S=p.norm(S)
    if len(S)==1 and S[0][0]=='v':
        r=p.freshsv(S[0][1].name.split('!')[0],EK)
        p.setsv(S[0][1],(('u',e),)+T+(V(r),) if front else (V(r),)+T+(('u',e),)); return p.norm((V(r),))
    # several parts: e is the outermost one
    i=0
    while True:
        S=p.norm(S)
        if not S: p.assume(False); raise PathEnd()
        pc=S[0] if front else S[-1]
        if pc[0]=='u':
            p.assume(And(*[eq(x,y) for x,y in zip(pc[1],e)])); S=S[1:] if front else S[:-1]; break
        if not p.valid(gt(p.length((pc,)),0)) and not p.choose(gt(p.length((pc,)),0),'part'): S=S[1:] if front else S[:-1]; continue
        (p.splitfirst if front else p.splitlast)(pc[1])
    # T is an end part of what is left
    S=p.norm(S); i=p.branch(len(S)+1,'side tree') if S else 0
    if not front: S=S[::-1]
    A=S[:i]; B=S[i:]
    if B and B[0][0]=='v':
        pc=B[0]; b0=pc[1].name.split('!')[0]; x=p.freshsv(b0,EK); y=p.freshsv(b0,EK)
        p.setsv(pc[1],(V(x),V(y)) if front else (V(y),V(x))); A=A+(V(x),); B=(V(y),)+B[1:]
    if not front: A=A[::-1]; B=B[::-1]
    p.setsv(T[0][1],A); return p.norm(B)
def cut_front(p,S,T):
    """S = T ++ rest, T a named sequence"""
    S=p.norm(S)
    if len(S)==1 and S[0][0]=='v' and p.norm(T)==T:
        r=p.freshsv('rem',EK); p.setsv(S[0][1],T+(V(r),)); return (V(r),)
    p.hardfail('unsupported','remaining elements')
def drop_empty(p):
    for c in list(p.chunks):
        if isinstance(c,Seg) and p.isempty(c.P): p.addchunk_remove(c); p.assume(eq(c.x,c.h)); p.assume(eq(c.xbh,c.hbh))
        elif isinstance(c,Tree) and c.root.const()==0: c.settle(p)
def lookup(p,x):
    """what starts at x: a Tree or Seg, 'node', or None"""
    for c in p.chunks:
        if isinstance(c,Seg) and c.x==x: return c
    for c in p.chunks:
        if isinstance(c,Tree) and c.root==x: return c
    return 'node' if explicit(p,x) else None
def resolve(p,x,label):
    """like lookup, up to provable equality; forks where it is not decided"""
    for _ in range(40):
        drop_empty(p); x=p.nf(x)
        if x.const()==0: return x,None
        c=lookup(p,x)
        if c is not None: return x,c
        if p.split_ite(x): continue
        cands=[c.x for c in p.chunks if isinstance(c,Seg)]+[c.root for c in p.chunks if isinstance(c,Tree)]+[a for o,a,n in p.toks if explicit(p,a)]
        if p.valid(eq(x,0)): p.assume(eq(x,0)); return ZERO,None
        hit=False
        for a in cands:
            if p.valid(eq(a,x)): p.assume(eq(a,x)); hit=True; break
        if hit: 
            x=p.nf(x)
            if lookup(p,x) is None: return p.nf(a),lookup(p,p.nf(a))
            continue
        if p.satisfiable(eq(x,0)) and p.choose(eq(x,0),'no child'): return ZERO,None
        for a in cands:
            if p.satisfiable(eq(a,x)) and p.choose(eq(a,x),'child'): hit=True; break
        if hit: continue
        p.hardfail(label,'a link of the tree leads to %r, which is no node of the tree'%x)
def bal(p,f,label,desc):
    if label=='loop': p.oblige(f,label,desc)
    elif label=='pre': p.oblige(f,label,'precondition: '+desc)
    else: p.oblige(f,'balance',desc,noassume=True)
D_BH='every way down a tree has the same number of black nodes'; D_RED='a red node has no red child'
def gather_tree(p,x,owner,label):
    """consume the tree at x -> (elements in order, black height, colour)"""
    x,c=resolve(p,x,label)
    if c is None: return (),ZERO,ONE
    if isinstance(c,Tree):
        p.addchunk_remove(c); p.oblige(eq(c.owner,owner),label,'nodes belong to the tree'); return p.norm(c.T),c.bh,c.col
    if isinstance(c,Seg):
        p.addchunk_remove(c); p.oblige(eq(c.owner,owner),label,'nodes belong to the tree')
        T,bh,col=gather_tree(p,c.h,owner,label); c.nf(p)
        bal(p,eq(bh,c.hbh),label,D_BH); bal(p,Or(eq(col,1),eq(c.hred,1)),label,D_RED)
        return p.norm(c.L+T+c.R),c.xbh,ite(p.nff(eq(p.length(c.P),0)),col,c.xcol)
    e,l,r,b=node_take(p,x,owner,label)
    A,ha,ca=gather_tree(p,l,owner,label); B,hb,cb=gather_tree(p,r,owner,label)
    bal(p,eq(ha,hb),label,D_BH); bal(p,Or(eq(b,1),And(eq(ca,1),eq(cb,1))),label,D_RED)
    e=tuple(p.nf(y) for y in e)
    return p.norm(A+(('u',e),)+B),p.nf(ha+b),b
def reaches(p,x,t,depth=0):
    """does the tree at x lead to the address t?"""
    x=p.nf(x)
    if x==t or p.valid(eq(x,t)): return True
    if x.const()==0 or depth>12: return False
    c=lookup(p,x)
    if isinstance(c,Seg): return reaches(p,c.h,t,depth+1)
    if c=='node':
        m=lay(p)
        for f in ('left','right'):
            d=p.cells.get(p.nf(x+m[f][0]))
            if d is not None and reaches(p,d.val,t,depth+1): return True
    return False
class Way: pass
def gather_seg(p,x,t,owner,label):
    """consume the tree at x except for the tree at t; hbh/xbh are None if the way is empty"""
    x=p.nf(x); t=p.nf(t); g=Way(); g.rem=()
    if x==t or p.valid(eq(x,t)):
        # an empty segment may lie here
        for c in list(p.chunks):
            if isinstance(c,Seg) and c.x==x and p.isempty(c.P): p.addchunk_remove(c)
        if not any(isinstance(c,Seg) and c.x==x for c in p.chunks):
            g.P=g.L=g.R=(); g.xbh=g.hbh=None; g.xcol=g.hred=g.xred=None; return g
    x,c=resolve(p,x,label); t=p.nf(t)
    if isinstance(c,Seg):
        p.addchunk_remove(c); p.oblige(eq(c.owner,owner),label,'nodes belong to the tree')
        if p.nf(c.h)==t or p.valid(eq(c.h,t)):
            c.nf(p); g.P,g.L,g.R,g.rem,g.xbh,g.xcol,g.hbh,g.hred,g.xred=c.P,c.L,c.R,c.rem,c.xbh,c.xcol,c.hbh,c.hred,c.xred; return g
        q=gather_seg(p,c.h,t,owner,label); c.nf(p)
        g.P=p.norm(c.P+q.P); g.L=p.norm(c.L+q.L); g.R=p.norm(q.R+c.R); g.rem=p.norm(q.rem+c.rem); g.xbh=c.xbh; g.hbh=q.hbh; g.hred=q.hred; g.xred=c.xred
        bal(p,eq(q.xbh,c.hbh),label,D_BH); bal(p,Or(eq(q.xcol,1),eq(c.hred,1)),label,D_RED); g.xcol=ite(p.nff(eq(p.length(c.P),0)),q.xcol,c.xcol); return g
    if c!='node': p.hardfail(label,'the way down the tree does not lead to %r'%t)
    m=lay(p); l=p.cells.get(p.nf(x+m['left'][0])); left=l is not None and reaches(p,l.val,t)
    if not left:
        r=p.cells.get(p.nf(x+m['right'][0]))
        if r is None or not reaches(p,r.val,t): p.hardfail(label,'the way down the tree does not lead to %r'%t)
    e,l,r,b=node_take(p,x,owner,label); y,z=(l,r) if left else (r,l)
    T,h,co=gather_tree(p,z,owner,label); q=gather_seg(p,y,t,owner,label)
    e=tuple(p.nf(v) for v in e); u=(('u',e),); b=p.nf(b); T=p.norm(T)
    g.P=p.norm((('u',(e[0],C(1 if left else 2))),)+q.P)
    g.L=p.norm(q.L if left else T+u+q.L); g.R=p.norm(q.R+u+T if left else q.R); g.rem=p.norm(q.rem+T if left else q.rem)
    g.xcol=b; g.xbh=p.nf(h+b); g.xred=ONE
    bal(p,Or(eq(b,1),eq(co,1)),label,D_RED)
    if q.xbh is None: g.hbh=h; g.hred=b
    else:
        g.hbh=q.hbh; g.hred=q.hred; z=eq(p.length(q.P),0)
        bal(p,eq(h,q.xbh),label,D_BH); bal(p,Or(eq(b,1),ite_f(z,eq(q.xred,0),eq(q.xcol,1))),label,D_RED)
    return g
def ite_f(c,a,b): return And(Or(Not(c),a),Or(c,b))
# ---------------------------------------------------------------- the tree object
class O: pass
CONF=('compare_keys','free_key','free_value','pool','pfree')
FIELDS=('compare_keys','free_key','free_value','root','stack','sp','stack_size','pool','count','pfree','pnode')
def layout(cs):
    m=dict(members(cs,'RBTree')); q=members(cs,'_RBTreePair'); o=m['pair'][0]
    m['pfree']=(o+q['free_value'][0],8); m['pnode']=(o+q['node'][0],8); return m
def obj(cs,a): o=O(); o.a=a; o.m=layout(cs); o.nsz=lay(cs.p)[''][1]; return o
def freefns(cs,o):
    p=cs.p; p.ghostq=dict(p.ghostq)
    for f,g in(('free_key','fk'),('free_value','fv')):
        v=getattr(o,f); p.ghostq[g]=p.freshv('q'+g,8,1); p.ghost[g]=ZERO
        p.roles[v]=('free',g,g=='fv')
def config(cs,o):
    p=cs.p; o.compare_keys=p.freshv('compare',8,4096,PMAX); p.roles[o.compare_keys]=('compare','rank')
    o.free_key=p.freshv('freekey',8,0,PMAX); o.free_value=p.freshv('freeval',8,0,PMAX); freefns(cs,o); o.pfree=o.free_value
    o.pool=p.freshv('pool',8,0,PMAX); own_pool(p,o.pool,o.nsz)   # (nothing if there is no pool)
def cells(cs,o,**v):
    p=cs.p
    for f in FIELDS: p.add_cell(o.a+o.m[f][0],o.m[f][1],v[f] if f in v else getattr(o,f))
    for x,n in pads(o.m,FIELDS): p.add_chunk(Raw(p.nf(o.a+x),C(n),'j'))
def stack_new(p,o,content=()):
    o.stack=p.freshv('stack',8,4096,PMAX); o.stack_size=p.freshv('stacksize',8,1); p.assume(lt(o.stack_size*8,PMAX)); p.add_tok(0,o.stack,p.nf(o.stack_size*8))
    n=p.length(content); p.assume(le(n,o.stack_size))
    p.add_chunk(Arr(o.stack,8,p.norm(p.norm(p.mapseq(content,None))+(('j',p.nf(o.stack_size-n)),))))
def stack_take(p,o,label):
    """the stack: consumed -> its content"""
    n=p.take_tok(0,o.stack,label,'the stack')
    if n is None: p.hardfail(label,'the stack of the tree is a live allocation')
    p.oblige(And(ge(o.stack_size,1),ge(n,o.stack_size*8)),label,'the stack has the recorded size, at least one element')
    S=take_arr(p,o.stack,8,o.stack_size,label,'stack'); gather_range(p,p.nf(o.stack+o.stack_size*8),p.nf(n-o.stack_size*8),label,'stack'); return S
def uniq(p,T): return eq(p.attr(T,SORTED),1)
def take(cs,a,key=None):
    """the tree at a"""
    p=cs.p; o=obj(cs,a)
    if not cs.producing: consume(cs,o); return o
    p.add_region(a,o.m[''][1]); config(cs,o)
    o.root=p.freshv('root',8,0,PMAX); o.T=newseq(p,'T'); o.bh=p.freshv('bh',8); n=p.length(o.T); p.assume(le(n*o.nsz,PMAX))
    p.add_chunk(Tree(o.root,o.T,o.pool,o.bh,1)); stack_new(p,o); o.sp=p.freshv('sp',8,0,PMAX); o.pnode=p.freshv('pnode',8,0,PMAX); o.count=n
    cells(cs,o); p.assume(uniq(p,o.T))
    o.q=p.freshv('class',8); 
    hint(cs,count=[('eq',KEY,p.ghostq['fk']),('eq',DAT,p.ghostq['fv'])],rb=(o.a,o.m,o.pool))
    if key is not None: q=uf('rank',key); hint(cs,rank=[(RANK,q)],filter=[('eq',RANK,q)]); cnt(p,o.T,('eq',RANK,q))
    return o
def cnt(p,T,q): return p.attr(T,('cnt',frozenset([q])))
def consume(cs,o,stack=True):
    p=cs.p; c=cs.assume_or_check; lab='shape' if cs.mode=='verify' else 'pre'
    for f in FIELDS: setattr(o,f,p.take_cell(o.a+o.m[f][0],o.m[f][1],lab,'field '+f))
    for x,n in pads(o.m,FIELDS): gather_range(p,p.nf(o.a+x),C(n),lab,'padding')
    o.T,o.bh,o.col=gather_tree(p,o.root,o.pool,lab)
    stack_take(p,o,lab)
    o.pool=p.nf(o.pool)
    pool_take(p,o.pool,lab)
    bal(p,eq(o.col,1),lab,'the root of the tree is black')
    c(eq(o.count,p.length(o.T)),'count','the count is the number of nodes'); c(eq(o.pfree,o.free_value),'config','the pair of the tree has the free function for values')
    c(uniq(p,o.T),'keys','the keys are strictly ascending from left to right')
def pool_take(p,a,lab):
    a=p.nf(a)
    if any(isinstance(c,PoolObj) and c.addr==a for c in p.chunks) or not p.choose(eq(a,0),'no pool'): take_pool(p,a,lab)
def put(cs,o,T,what):
    p=cs.p; n=obj(cs,o.a); consume(cs,n)
    if T is not None: seqpost(cs,n.T,T,'pairs',what)
    cs.assume_or_check(And(*[eq(getattr(n,f),getattr(o,f)) for f in CONF]),'config','the functions and the pool of the tree are unchanged')
    return n
def freed(cs,o,seq,key=True,val=True):
    p=cs.p
    for g,f,fl,on in(('fk','free_key',KEY,key),('fv','free_value',DAT,val)):
        if not on or g not in p.ghostq: continue
        n=p.attr(seq,('cnt',frozenset([('eq',fl,p.ghostq[g])])))
        cs.ghost(g,n if p.valid(ne(getattr(o,f),0)) else ite(p.nff(eq(getattr(o,f),0)),0,n),desc='the %s function is called exactly for what leaves the tree'%f)
def S(n,props='C12',**k): return spec(n,'rbtree.c',props,**k)
def locate(cs,o,key):
    """index of the node of the key in o.T, or None"""
    p=cs.p; q=('eq',RANK,uf('rank',key))
    if not p.choose(gt(cnt(p,o.T,q),0),'key present'): return None
    X=p.norm(o.T); i=0
    while i<len(X):
        pc=X[i]
        if pc[0]=='u':
            if p.choose(p.evalpreds(frozenset([q]),pc[1]),'the key'): o.T=p.norm(o.T); return i
        elif p.choose(gt(cnt(p,(pc,),q),0),'key in this part'):
            k=p.freshv('pos',8); p.assume(lt(k,p.length((pc,)))); e=p.splitat(pc[1],k); p.assume(p.evalpreds(frozenset([q]),e))
            D=p.norm((pc,)); o.T=p.norm(o.T); return i+[j for j,x in enumerate(D) if x[0]=='u'][0]
        i+=1
    p.assume(False); raise PathEnd()
def key_arg(cs,k):
    if cs.producing: cs.p.assume(ne(k,0))
    else: cs.assume_or_check(ne(k,0),'pre','the key is not NULL')
def newtree(cs,a,cmp,fk,fv,pool):
    p=cs.p; o=obj(cs,a); c=cs.assume_or_check
    if cs.producing:
        o.compare_keys,o.free_key,o.free_value,o.pool,o.pfree=cmp,fk,fv,pool,fv; o.root=ZERO; o.T=(); o.count=ZERO; stack_new(p,o); o.sp=p.freshv('sp',8); o.pnode=p.freshv('pnode',8); cells(cs,o)
        p.add_chunk(PoolObj(pool,o.nsz)); return
    consume(cs,o); seqpost(cs,o.T,(),'pairs','a new tree is empty')
    c(And(eq(o.compare_keys,cmp),eq(o.free_key,fk),eq(o.free_value,fv),eq(o.pool,pool)),'config','a new tree has the given functions and pool')
def poolarg(cs,pool):
    p=cs.p
    if cs.producing: own_pool(p,pool,lay(p)[''][1])
    else: pool_take(p,pool,'pre')
@S('rbtree_init')
def _(cs):
    a,cmp,fk,fv,pool=cs.args; p=cs.p; m=layout(cs)
    if cs.producing: p.assume(ge(a,4096)); p.assume(lt(a,PMAX)); p.add_chunk(Raw(a,C(m[''][1]),'j'))
    else: gather_range(p,a,C(m[''][1]),'pre','tree object')
    poolarg(cs,pool)
    yield
    newtree(cs,a,cmp,fk,fv,pool)
@S('rbtree_new')
def _(cs):
    cmp,fk,fv,pool=cs.args; p=cs.p; m=layout(cs); poolarg(cs,pool)
    yield
    a=cs.result(8,'tree',True)
    if cs.producing: p.assume(ge(a,4096))
    newtree(cs,a,cmp,fk,fv,pool); tok_take(cs,a,m[''][1],0,'the new tree')
def nullable(p):
    """does the function that frees a tree accept the empty tree?  decided by verifying it with that contract"""
    w=p.ver.world; k='nullnode',id(p.mod)
    if k not in w.__dict__:
        w.__dict__[k]=True
        import execu
        v=execu.Verifier(p.mod.funcs['_rbtree_destroy_node'],SPECS['_rbtree_destroy_node'],w,budget=60); v.run(); w.__dict__[k]=not v.fails
    return w.__dict__[k]
@S('_rbtree_destroy_node','C16',static=True)
def _(cs):
    a,x=cs.args[:2]; p=cs.p; o=obj(cs,a)
    if cs.producing:
        p.add_region(a,o.m[''][1]); config(cs,o)
        for f in ('root','stack','sp','stack_size','count','pnode'): setattr(o,f,p.freshv(f,8))
        cells(cs,o); o.T=newseq(p,'T'); p.assume(True if nullable(p) else ne(x,0)); p.add_chunk(Tree(x,o.T,o.pool,p.freshv('bh',8),p.freshv('col',1,0,2)))
        hint(cs,count=[('eq',KEY,p.ghostq['fk']),('eq',DAT,p.ghostq['fv'])],freetree=(o.pool,(('fk',o.free_key,KEY),('fv',o.free_value,DAT))))
    else:
        for f in CONF: setattr(o,f,p.cells[p.find(p.nf(a+o.m[f][0]),8,'pre','field '+f)].val)
        cs.assume_or_check(Or(ne(x,0),nullable(p)),'pre','the node is not NULL'); o.T,_,_=gather_tree(p,x,o.pool,'any')
    cs.measure=p.length(o.T)
    yield
    freed(cs,o,o.T)
    if not cs.producing:
        for f in FIELDS: cs.give(a+o.m[f][0],8,getattr(o,f),'config','the tree object is unchanged (%s)'%f)
        pool_take(p,o.pool,'shape')
@S('rbtree_free','C12 C16')
def _(cs):
    a,=cs.args; p=cs.p; o=take(cs,a)
    yield
    freed(cs,o,o.T)
    if cs.producing: p.add_chunk(Raw(a,C(o.m[''][1]),'j'))
    else: gather_range(p,a,C(o.m[''][1]),'shape','the tree object')
    pool_back(cs,o)
def pool_back(cs,o):
    p=cs.p; o.pool=p.nf(o.pool)
    if cs.producing: p.add_chunk(PoolObj(o.pool,o.nsz))
    else: pool_take(p,o.pool,'shape')
@S('rbtree_destroy','C12 C16')
def _(cs):
    a,=cs.args; p=cs.p; o=take(cs,a); tok_take(cs,a,o.m[''][1],0,'the tree')
    yield
    freed(cs,o,o.T); pool_back(cs,o)
@S('rbtree_clear','C12 C16')
def _(cs):
    a,=cs.args; p=cs.p; o=take(cs,a)
    yield
    freed(cs,o,o.T); put(cs,o,(),'a cleared tree is empty')
@S('rbtree_count')
def _(cs):
    a,=cs.args; p=cs.p; o=take(cs,a)
    yield
    put(cs,o,o.T,'a query changes no node'); cs.assume_or_check(eq(cs.result(8,'n'),p.length(o.T)),'ret','the count is the number of nodes')
@S('rbtree_lookup')
def _(cs):
    a,key=cs.args; p=cs.p; key_arg(cs,key); o=take(cs,a,key)
    yield
    r=cs.result(8,'pair',True); i=locate(cs,o,key); n=put(cs,o,o.T,'a lookup changes no node')
    if i is None: cs.assume_or_check(eq(r,0),'ret','NULL for an absent key')
    else:
        cs.assume_or_check(eq(r,o.a+o.m['pair'][0]),'ret','the pair of the tree is returned'); cs.assume_or_check(eq(n.pnode,o.T[i][1][0]),'ret','the pair refers to the node of the key')
@S('rbtree_key_exists')
def _(cs):
    a,key=cs.args; p=cs.p; key_arg(cs,key); o=take(cs,a,key)
    yield
    c=cnt(p,o.T,('eq',RANK,uf('rank',key))); put(cs,o,o.T,'a query changes no node')
    cs.assume_or_check(Iff(cs.result_bool(),gt(c,0)),'ret','true exactly for a present key')
@S('rbtree_set','C12 C13 C16')
def _(cs):
    a,key,val,ow=cs.args; p=cs.p; key_arg(cs,key); o=take(cs,a,key); ow=p.choose(p.boolv(ow),'overwrite key')
    if cs.mode=='call': p.hardfail('unsupported','call of rbtree_set')
    yield
    r=cs.result(4,'result'); i=locate(cs,o,key); X=p.norm(o.T)
    if i is not None:
        e=X[i][1]; cs.assume_or_check(eq(r,1),'ret','set reports that the key was there'); freed(cs,o,(X[i],),key=ow)
        put(cs,o,X[:i]+(('u',(e[0],key if ow else e[1],val)),)+X[i+1:],'the node of the key gets the new value, all other nodes stay'); return
    cs.assume_or_check(eq(r,0),'ret','set reports that the key is new'); n=put(cs,o,None,'')
    Y=p.norm(n.T)
    for j,pc in enumerate(Y):
        if pc[0]=='u' and p.valid(And(eq(pc[1][1],key),eq(pc[1][2],val))) and p.seq_eq(Y[:j]+Y[j+1:],X): j=None; break
    else: j=0
    if j is not None: seqpost(cs,Y,X+(('u',(ZERO,key,val)),),'pairs','exactly the new node is added')
@S('rbtree_remove','C12 C13 C16')
def _(cs):
    a,key=cs.args; p=cs.p; key_arg(cs,key); o=take(cs,a,key)
    if cs.mode=='call': p.hardfail('unsupported','call of rbtree_remove')
    yield
    i=locate(cs,o,key); X=p.norm(o.T); c=cs.assume_or_check
    if i is None: c(Not(cs.result_bool()),'ret','false for an absent key'); put(cs,o,X,'removing an absent key changes nothing'); return
    c(cs.result_bool(),'ret','true for a present key'); freed(cs,o,(X[i],)); n=put(cs,o,None,'')
    # nodes may change places: keys and values are compared
    W=X[:i]+X[i+1:]
    pairpost(cs,n.T,W,'exactly the node of the key is removed')
def pairpost(cs,A,B,what):
    """the same keys and values in the same order (the node of an item may be another one)"""
    p=cs.p; A=[x for x in p.norm(A)]; B=[x for x in p.norm(B)]
    def same(x,y): return x==y or x[0]=='u' and y[0]=='u' and p.valid(And(eq(x[1][1],y[1][1]),eq(x[1][2],y[1][2])))
    while A or B:
        if A and B and same(A[0],B[0]): A.pop(0); B.pop(0)
        elif A and A[0][0]!='u' and p.isempty((A[0],)): A.pop(0)
        elif B and B[0][0]!='u' and p.isempty((B[0],)): B.pop(0)
        elif A and B and same(A[-1],B[-1]): A.pop(); B.pop()
        else: break
    seqpost(cs,tuple(A),tuple(B),'pairs',what)
# ---------------------------------------------------------------- loops that walk down
def stack_frag(p,stk):
    """is the stack there?"""
    return any(a==p.nf(stk) for o,a,n in p.toks)
class TreeCursor(Strat):
    """cell m walks down the tree from its value at the start; the way is kept on the stack of the tree if the loop pushes"""
    def __init__(s,m,x,owner,push): s.m=m; s.x=x; s.own=owner; s.push=push; s.cells=(m,)
    def __repr__(s): return 'tree cursor'+(' with stack' if s.push else '')
    def entryview(s,p,v):
        v.P.append(()); v.R.append(()); v.x.append(s.x); v.left=v.right=()
    def enter(s,p,lc):
        a,m,_=p.hints['rb']; s.adr={f:p.nf(a+m[f][0]) for f in ('stack','sp','stack_size')}; keys=set(p.cells)
        if s.push:
            o=O(); val=lambda f: p.nf(p.cells[p.find(s.adr[f],8)].val)
            o.stack,o.sp,o.stack_size=val('stack'),val('sp'),val('stack_size'); C0=stack_take(p,o,'loop')
            if p.choose(eq(o.sp,0),'stack is empty'): Q=()
            else:
                k=p.nf(o.sp-o.stack)
                Q,_=cutseq(p,C0,p.nf(div(k,8)+1))
                p.oblige(eq(o.sp,o.stack+p.length(Q)*8-8),'memory','the stack pointer is aligned')
            s.incl=bool(Q) and Q[-1][0]=='u' and p.valid(eq(Q[-1][1][0],s.x)); s.Q=p.norm(Q[:-1] if s.incl else Q)
        T,bh,col=gather_tree(p,s.x,s.own,'loop'); s.T0=T; s.cells=(s.m,)+tuple(keys-set(p.cells)); before=list(p.chunks)
        P=newseq(p,'P',PK); L_=newseq(p,'L'); R=newseq(p,'R'); W=newseq(p,'S'); cur=p.freshv('cur',8,0,PMAX); hbh=p.freshv('hbh',8); hred=p.freshv('hred',1,0,2); c2=p.freshv('col',1,0,2)
        fits(p,T,(L_,W,R)); p.assume(Or(eq(c2,1),eq(hred,1)))
        p.add_chunk(Seg(s.x,cur,P,L_,R,s.own,bh,col,hbh,hred,p.nf(1-col))); p.add_chunk(Tree(cur,W,s.own,hbh,c2)); p.assume(Imp(eq(p.length(P),0),eq(c2,col)))
        s.bh,s.col=bh,col
        s.S=p.norm(W); s.T=p.norm(L_+W+R); p.cells[p.nf(s.m)]=Cell(8,p.nf(cur)); lc.view.left=L_; lc.view.right=R
        if s.push:
            o=O(); PP=p.norm(s.Q+p.mapseq(P,PROJ))+((('u',(cur,)),) if s.incl else ()); stack_new(p,o,PP); n=p.length(PP)
            o.sp=p.nf(o.stack+n*8-8)
            if not s.incl and not any(pc[0]=='u' for pc in s.Q): o.sp=ite(p.nff(eq(n,0)),0,o.sp)
            for f in s.adr: p.cells[s.adr[f]]=Cell(8,getattr(o,f))
            s.toks=(o.stack,); s.cells=s.cells+tuple(s.adr.values())
            if s.incl: p.assume(ne(cur,0))
        lc.view.P.append(L_); lc.view.R.append(W); lc.view.x.append(cur); s.chunks=[c for c in p.chunks if c not in before]
    def check(s,p,lc,v):
        cur=p.nf(p.cells[p.nf(s.m)].val)
        if s.push:
            o=O(); val=lambda f: p.nf(p.cells[p.find(s.adr[f],8)].val)
            o.stack,o.sp,o.stack_size=val('stack'),val('sp'),val('stack_size')
        g=gather_seg(p,s.x,cur,s.own,'loop'); W,h,c=gather_tree(p,cur,s.own,'loop')
        if not p.seq_eq(g.L+W+g.R,s.T): raise Retry()
        if g.hbh is not None: p.oblige(And(eq(h,g.hbh),Or(eq(c,1),eq(g.hred,1)),Or(eq(p.length(g.P),0),And(eq(g.xbh,s.bh),eq(g.xcol,s.col)))),'loop',D_BH)
        if not p.valid(lt(p.length(W),p.length(s.S))): raise Retry()
        if s.push:
            C1=stack_take(p,o,'loop'); PP=p.norm(s.Q+p.mapseq(g.P,PROJ))+((('u',(cur,)),) if s.incl else ())
            n=p.length(PP); top,_=cutseq(p,C1,n)
            if not p.seq_eq(top,PP): raise Retry()
            p.oblige(Or(And(eq(n,0),eq(o.sp,0)),And(gt(n,0),eq(o.sp,o.stack+n*8-8))),'loop','the stack pointer refers to the last node of the way')
            if s.incl: p.oblige(ne(cur,0),'loop','node on the stack')
        v.P.append(g.L); v.R.append(W); v.x.append(cur); v.left=g.L; v.right=g.R
    def cands(s,p,lc,mods):
        out=[('left empty',lambda v: eq(p.length(v.left),0)),('right empty',lambda v: eq(p.length(v.right),0)),('at a node',lambda v: ne(v.x[s.vi],0))]
        for fn,t in p.hints.get('rank',[]):
            out.append(('left<%r'%t,lambda v,fn=fn,t=t: Or(eq(p.length(v.left),0),lt(p.attr(v.left,('last',fn)),t))))
            out.append(('right>%r'%t,lambda v,fn=fn,t=t: Or(eq(p.length(v.right),0),gt(p.attr(v.right,('first',fn)),t))))
        return out
def fits(p,T,parts):
    """T = the concatenation of the (fresh) parts"""
    T=p.norm(T)
    if len(T)==1 and T[0][0]=='v': p.setsv(T[0][1],tuple(x for q in parts for x in q)); return
    if not T:
        for q in parts: p.setsv(q[0][1],())
        return
    # cut in two places
    rest=T
    for j,q in enumerate(parts[:-1]):
        rest=p.norm(rest); i=p.branch(len(rest)+1,'cut') if rest else 0
        A=rest[:i]; B=rest[i:]
        if B and B[0][0]=='v':
            pc=B[0]; b0=pc[1].name.split('!')[0]; x=p.freshsv(b0,pc[1].kind); y=p.freshsv(b0,pc[1].kind); p.setsv(pc[1],(V(x),V(y))); A=A+(V(x),); B=(V(y),)+B[1:]
        p.setsv(q[0][1],A); rest=B
    p.setsv(parts[-1][0][1],p.norm(rest))
def tree_options(p,lc,mods):
    h=p.hints.get('rb')
    if h is None: return []
    a,m,own=h; sp=p.nf(a+m['sp'][0]); push=any(p.nf(k)==sp for k in mods); out=[]
    for k in mods:
        c=p.cells.get(p.nf(k))
        if c is None or c.size!=8: continue
        x=p.nf(c.val); l=lookup(p,x)
        if l is None or p.nf(k) in (sp,p.nf(a+m['stack'][0])): continue
        out.append(lambda k=k,x=x: TreeCursor(k,x,p.nf(own),push))
    return out
LOOP_OPTIONS.append(tree_options)
class FreeTree(Strat):
    """cell m is the root of what is left of a tree that is given back from its smallest entry on"""
    def __init__(s,m,x,owner): s.m=m; s.x=x; s.own=owner; s.cells=(m,)
    def __repr__(s): return 'rest of a tree'
    def entryview(s,p,v): v.P.append(()); v.R.append(()); v.x.append(s.x)
    def enter(s,p,lc):
        keys=set(p.cells); T,_,_=gather_tree(p,s.x,s.own,'loop'); s.cells=(s.m,)+tuple(keys-set(p.cells)); before=list(p.chunks)
        P=newseq(p,'P'); W=newseq(p,'S'); cur=p.freshv('cur',8,0,PMAX); fits(p,T,(P,W)); p.add_chunk(Tree(cur,W,s.own,p.freshv('bh',8),p.freshv('col',1,0,2)))
        s.P=p.norm(P); s.R=p.norm(W); p.cells[p.nf(s.m)]=Cell(8,p.nf(cur)); lc.view.P.append(s.P); lc.view.R.append(s.R); lc.view.x.append(cur); s.chunks=[c for c in p.chunks if c not in before]
    def check(s,p,lc,v):
        cur=p.nf(p.cells[p.nf(s.m)].val); W,_,_=gather_tree(p,cur,s.own,'any')
        full=list(p.norm(s.R)); r=[x for x in p.norm(W) if x[0]=='u' or not p.isempty((x,))]
        while r and full and r[-1]==full[-1]: r.pop(); full.pop()
        while full and not r and full[-1][0]!='u' and p.isempty((full[-1],)): full.pop()
        if r or not p.valid(lt(p.length(W),p.length(s.R))): raise Retry()
        v.P.append(p.norm(tuple(s.P)+tuple(full))); v.R.append(p.norm(W)); v.x.append(cur)
    def cands(s,p,lc,mods):
        out=[]
        for g,f,fl in p.hints['freetree'][1]:
            if g in p.ghostq: out.append(('freed '+g,lambda v,g=g,f=f,fl=fl: eq(v.g.get(g,ZERO),lc.Egh.get(g,ZERO)+ite(p.nff(eq(f,0)),0,cnt(p,v.P[s.vi],('eq',fl,p.ghostq[g]))))))
        return out
def free_options(p,lc,mods):
    out=[]
    if p.hints.get('freetree') is None: return out
    for k in mods:
        c=p.cells.get(p.nf(k))
        if c is None or c.size!=8: continue
        x=p.nf(c.val)
        if lookup(p,x) is not None: out.append(lambda k=k,x=x: FreeTree(k,x,p.nf(p.hints['freetree'][0])))
    return out
LOOP_OPTIONS.append(free_options)
# ---------------------------------------------------------------- rebalancing
def ways(cs,o,node,red):
    """a tree with a hole at node and the stack that leads there"""
    p=cs.p
    o.P=newseq(p,'P',PK); o.L=newseq(p,'L'); o.R=newseq(p,'R'); o.x=p.freshv('root',8,0,PMAX); o.hbh=p.freshv('hbh',8)
    p.add_chunk(Seg(o.x,node,o.P,o.L,o.R,o.pool,p.freshv('bh',8),p.freshv('xcol',1,0,2),o.hbh,p.freshv('hred',1,0,2),ZERO))
    stack_new(p,o,p.norm(p.mapseq(o.P,PROJ))+(('u',(node,)),)); o.sp=p.nf(o.stack+p.length(o.P)*8)
    o.root=o.x; o.count=p.freshv('count',8); o.pnode=p.freshv('pnode',8)
def way_in(cs,o,node):
    """call: the way to node and the stack are consumed"""
    p=cs.p
    for f in FIELDS: setattr(o,f,p.take_cell(o.a+o.m[f][0],o.m[f][1],'pre','field '+f))
    g=gather_seg(p,o.root,node,o.pool,'pre'); S=stack_take(p,o,'pre')
    top,_=cutseq(p,S,p.length(g.P)+1); seqpost(cs,top,p.norm(p.mapseq(g.P,PROJ))+(('u',(node,)),),'pre','the stack holds the way from the root to the node')
    p.oblige(eq(o.sp,o.stack+p.length(g.P)*8),'pre','the stack pointer refers to the node')
    if g.xcol is not None: p.oblige(Or(eq(p.length(g.P),0),eq(g.xcol,1)),'pre','the root of the tree is black')
    return g
def peek_node(cs,o):
    """the node on top of the stack"""
    p=cs.p; sp=p.cells[p.find(p.nf(o.a+o.m['sp'][0]),8,'pre','stack pointer')].val
    return p.nf(p.load(sp,8))
def conf_cells(cs,o): 
    p=cs.p; config(cs,o)
def same_conf(cs,o,extra=()):
    p=cs.p
    for f in CONF+tuple(extra): cs.give(o.a+o.m[f][0],o.m[f][1],getattr(o,f),'config','the tree object keeps its %s'%f)
    for x,n in pads(o.m,FIELDS): gather_range(p,p.nf(o.a+x),C(n),'shape','padding')
    pool_take(p,o.pool,'shape')
@S('_rbtree_insert_case1','C12 C13',static=True)
def _(cs):
    a=cs.args[0]; p=cs.p; o=obj(cs,a)
    if cs.producing:
        p.add_region(a,o.m[''][1]); config(cs,o); node=p.freshv('node',8,4096,PMAX); ways(cs,o,node,True)
        o.S=newseq(p,'S'); p.add_chunk(Tree(node,o.S,o.pool,o.hbh,0)); cells(cs,o); hint(cs,rb=(o.a,o.m,o.pool))
    else:
        node=peek_node(cs,o); g=way_in(cs,o,node); o.L,o.R=g.L,g.R; o.S,h,col=gather_tree(p,node,o.pool,'pre')
        p.oblige(eq(col,0),'pre','the inserted node is red')
        if g.hbh is not None: p.oblige(eq(h,g.hbh),'pre',D_BH)
    cs.measure=p.length(o.P if cs.producing else g.P)
    o.W=lambda: p.norm(o.L+o.S+o.R)
    yield
    if cs.producing:
        o.root=p.freshv('root',8,4096,PMAX); p.add_chunk(Tree(o.root,o.W(),o.pool,p.freshv('bh',8),1)); stack_new(p,o); o.sp=p.freshv('sp',8)
        for f in FIELDS: p.add_cell(o.a+o.m[f][0],o.m[f][1],getattr(o,f))
        return
    same_conf(cs,o,('count','pnode'))
    for f in ('root','stack','sp','stack_size'): setattr(o,f,p.take_cell(o.a+o.m[f][0],8,'shape','field '+f))
    T,h,col=gather_tree(p,o.root,o.pool,'shape'); stack_take(p,o,'shape'); bal(p,eq(col,1),'shape','the root of the tree is black')
    seqpost(cs,T,o.W(),'pairs','rebalancing changes no node')
@S('_rbtree_remove_case1','C12 C13',static=True)
def _(cs):
    a=cs.args[0]; p=cs.p; o=obj(cs,a)
    if cs.producing:
        p.add_region(a,o.m[''][1]); config(cs,o); node=p.freshv('node',8,4096,PMAX); ways(cs,o,node,False); p.assume(ge(o.hbh,1)); p.add_region(node,o.nsz); cells(cs,o); hint(cs,rb=(o.a,o.m,o.pool)); o.red=ONE
    else:
        node=peek_node(cs,o); g=way_in(cs,o,node); o.P,o.L,o.R,o.hbh=g.P,g.L,g.R,g.hbh
        if o.hbh is None: o.hbh=p.freshv('hbh',8); p.assume(ge(o.hbh,1))
        else: p.oblige(ge(o.hbh,1),'pre','the way to the node has a black node more than is left below it')
    n=cs.measure=p.length(o.P); top=p.attr(o.P,('last',('fld',0)))
    yield
    if cs.producing:
        P=newseq(p,'P',PK); p.assume(Iff(eq(p.length(P),0),eq(n,0))); p.assume(Imp(gt(n,0),eq(p.attr(P,('last',('fld',0))),top))); o.root=p.freshv('root',8,4096,PMAX); red=p.freshv('hred',1,0,2); p.assume(Imp(gt(n,0),eq(red,1)))
        p.add_chunk(Seg(o.root,node,P,o.L,o.R,o.pool,p.freshv('bh',8),p.freshv('xcol',1,0,2),p.nf(o.hbh-1),red,ZERO)); stack_new(p,o); o.sp=p.freshv('sp',8)
        for f in FIELDS: p.add_cell(o.a+o.m[f][0],o.m[f][1],getattr(o,f))
        return
    same_conf(cs,o,('count','pnode'))
    for f in ('root','stack','sp','stack_size'): setattr(o,f,p.take_cell(o.a+o.m[f][0],8,'shape','field '+f))
    g=gather_seg(p,o.root,node,o.pool,'shape'); stack_take(p,o,'shape')
    seqpost(cs,g.L,o.L,'pairs','rebalancing changes no node'); seqpost(cs,g.R,o.R,'pairs','rebalancing changes no node')
    p.oblige(Iff(eq(p.length(g.P),0),eq(n,0)),'shape','the node is the root exactly if it was')
    if not p.valid(eq(n,0)):
        p.oblige(Or(eq(n,0),eq(p.attr(g.P,('last',('fld',0))),top)),'shape','the node keeps its parent')
        bal(p,Or(eq(n,0),eq(g.hbh,o.hbh-1)),'shape',D_BH); bal(p,Or(eq(n,0),eq(g.hred,1)),'shape','the parent of the removed node is black in the end')
        bal(p,Or(eq(n,0),eq(g.xcol,1)),'shape','the root of the tree is black')
# ---------------------------------------------------------------- entries
def entry(cs):
    """a node of some tree, without the rest of the tree"""
    p=cs.p; o=O(); o.e=p.newelem('e',EK); o.pool=p.freshv('pool',8,0,PMAX); o.l=p.freshv('left',8,0,PMAX); o.r=p.freshv('right',8,0,PMAX); o.b=p.freshv('black',1,0,2)
    p.assume(ge(o.e[0],4096)); p.assume(lt(o.e[0],PMAX)); p.add_region(o.e[0],lay(p)[''][1]); node_open(p,o.e,o.l,o.r,o.b,o.pool); return o
def entry_put(cs,o,e,what):
    p=cs.p; e2,l,r,b=node_take(p,o.e[0],o.pool,'shape'); c=cs.assume_or_check
    c(And(eq(e2[1],e[1]),eq(e2[2],e[2])),'pairs',what); c(And(eq(l,o.l),eq(r,o.r),eq(b,o.b)),'shape','the links of the node are unchanged')
def pair(cs,pr):
    p=cs.p; q=members(cs,'_RBTreePair')
    if not cs.producing: p.hardfail('unsupported','call of a pair function')
    o=entry(cs); o.q=q; o.pr=pr
    p.add_region(pr,q[''][1]); o.free_value=p.freshv('freeval',8,0,PMAX); o.free_key=ZERO; freefns(cs,o)
    p.add_cell(pr+q['free_value'][0],8,o.free_value); p.add_cell(pr+q['node'][0],8,o.e[0]); return o
def pair_put(cs,o,e,what):
    cs.give(o.pr+o.q['free_value'][0],8,o.free_value,'config','the free function of the pair is unchanged'); cs.give(o.pr+o.q['node'][0],8,o.e[0],'shape','the pair still refers to its node')
    entry_put(cs,o,e,what)
def getter(i,what):
    def f(cs):
        x,=cs.args; p=cs.p; o=pair(cs,x)
        yield
        cs.assume_or_check(eq(cs.result(8,'x'),o.e[i]),'ret','the %s of the entry is returned'%what); pair_put(cs,o,o.e,'a query changes no entry')
    return f
for n,i,w in(('rbtree_pair_get_key',1,'key'),('rbtree_pair_get_value',2,'value')): S(n)(getter(i,w))
for n,i,w in(('vf_rbtree_pair_key',1,'key'),('vf_rbtree_pair_value',2,'value')): spec(n,MAC,'C12')(getter(i,w))
@S('rbtree_pair_set_value','C12 C16')
def _(cs):
    pr,val=cs.args; p=cs.p; o=pair(cs,pr)
    yield
    freed(cs,o,(('u',o.e),),key=False); pair_put(cs,o,(o.e[0],o.e[1],val),'exactly the value of the entry changes')
# ---------------------------------------------------------------- iteration
# An iterator is fresh (no stack pointer), in progress, or finished.  In progress, the stack holds the way K from the root
# down to the current node, each node with 1 or 2 for its left or right child, and the current node on top with state 0.
# Rem is what is still to come: the trees below the current node and, for each node of the way whose left child was taken,
# its right tree (Seg.rem).  At the head of the loop in iter_next the top may have any state.
IF=('tree','stack','sp','stack_size','finished')
def itlay(p): return p.world.members(p.mod,'RBTreeIter'),p.world.members(p.mod,'RBTreeIterStackItem')
class JItems(Chunk):
    """n stack items with any content"""
    def __init__(s,addr,n): s.addr=L(addr); s.n=L(n)
    def __repr__(s): return 'items(%r,%r)'%(s.addr,s.n)
    def nf(s,p): s.addr=p.nf(s.addr); s.n=p.nf(s.n)
    def span(s): return 16
    def same(s,p,o): return s.addr==o.addr and s.n==o.n
    def facts(s,p): return [ge(s.n,0)]
    def match(s,p,addr,size):
        d=basediff(addr,s.addr)
        if d is None or not 0<=d<itlay(p)[1][''][1]: return None
        return lambda: s.open(p)
    def open(s,p):
        m=itlay(p)[1]; z=m[''][1]; p.oblige(gt(s.n,0),'memory','there is room for an item on the stack of the iterator',hard=True)
        p.addchunk_remove(s); p.add_chunk(JItems(s.addr+z,s.n-1)); item_cells(p,s.addr,p.freshv('junk',8),p.freshv('junk',4))
    def settle(s,p):
        if s.n.const()==0: p.addchunk_remove(s)
    def reconsume(s,p): items_take(p,s.addr,p.nf(s.addr+s.n*itlay(p)[1][''][1]),'loop')
class IStk(Chunk):
    """the items of the way P"""
    def __init__(s,addr,P): s.addr=L(addr); s.P=tuple(P)
    def __repr__(s): return 'way items(%r,%r)'%(s.addr,list(s.P))
    def nf(s,p): s.addr=p.nf(s.addr); s.P=p.norm(s.P)
    def span(s): return 16
    def same(s,p,o): return s.addr==o.addr and p.seq_eq(s.P,o.P)
    def facts(s,p): return []
    def match(s,p,addr,size):
        z=itlay(p)[1][''][1]; d=basediff(addr,p.nf(s.addr+p.length(s.P)*z-z))
        if d is None or not 0<=d<z: return None
        return lambda: s.open(p)
    def open(s,p):
        z=itlay(p)[1][''][1]; p.oblige(gt(p.length(s.P),0),'memory','there is an item below',hard=True); p.addchunk_remove(s); s.P=p.norm(s.P)
        if s.P[-1][0]=='v':
            if len(s.P)>1 and not p.valid(gt(p.length(s.P[-1:]),0)):
                if not p.choose(gt(p.length(s.P[-1:]),0),'last part of the way'): s.P=s.P[:-1]; p.chunks.append(s); return
            p.splitlast(s.P[-1][1]); s.nf(p)
        (a,d),P=s.P[-1][1],s.P[:-1]
        p.assume(And(ge(d,1),le(d,2),ge(a,4096),lt(a,PMAX))); p.add_chunk(IStk(s.addr,P)); item_cells(p,p.nf(s.addr+p.length(P)*z),a,d)
    def settle(s,p):
        if p.isempty(s.P): p.addchunk_remove(s)
    def reconsume(s,p):
        pos=s.addr; P=way_items(p,s.addr,p.nf(s.addr+p.length(s.P)*itlay(p)[1][''][1]),'loop')
        if not p.seq_eq(P,s.P): raise Retry()
def item_cells(p,a,node,state):
    m=itlay(p)[1]; a=p.nf(a); p.add_cell(p.nf(a+m['node'][0]),8,node); p.add_cell(p.nf(a+m['state'][0]),4,state)
    for o,n in pads(m,('node','state')): p.add_chunk(Raw(p.nf(a+o),C(n),'j'))
def item_take(p,a,label):
    m=itlay(p)[1]; a=p.nf(a); v=p.take_cell(a+m['node'][0],8,label,'node of the stack item'),p.take_cell(a+m['state'][0],4,label,'state of the stack item')
    for o,n in pads(m,('node','state')): gather_range(p,p.nf(a+o),C(n),label,'padding')
    return p.nf(v[0]),p.nf(v[1])
def way_items(p,a,end,label):
    """consume the items from a to end -> the way they describe"""
    z=itlay(p)[1][''][1]; P=(); a=p.nf(a)
    for _ in range(60):
        end=p.nf(end); a=p.nf(a)
        if p.valid(ge(a,end)): break
        c=next((c for c in p.chunks if isinstance(c,IStk) and c.addr==a),None)
        if c is not None: p.addchunk_remove(c); P=P+c.P; a=p.nf(a+p.length(c.P)*z); continue
        if p.nf(a) not in p.cells and p.satisfiable(le(end,a)) and p.choose(le(end,a),'end of the items'): break
        P=P+(('u',item_take(p,a,label)),); a=p.nf(a+z)
    p.oblige(eq(a,end),label,'the stack of the iterator consists of items')
    return p.norm(P)
def items_take(p,a,end,label):
    """consume the memory from a to end"""
    z=itlay(p)[1][''][1]; a=p.nf(a)
    for _ in range(60):
        end=p.nf(end); a=p.nf(a)
        if p.valid(ge(a,end)): break
        c=next((c for c in p.chunks if isinstance(c,(IStk,JItems,Raw)) and c.addr==a),None)
        if c is None and a not in p.cells: c=next((c for c in p.chunks if isinstance(c,(IStk,JItems)) and p.valid(eq(c.addr,a))),None)
        if isinstance(c,Raw): gather_range(p,a,p.nf(end-a),label,'stack of the iterator'); return
        if c is not None: p.addchunk_remove(c); a=p.nf(a+(c.n if isinstance(c,JItems) else p.length(c.P))*z); continue
        if p.nf(a) not in p.cells and p.satisfiable(le(end,a)) and p.choose(le(end,a),'end of the stack'): break
        gather_range(p,a,C(z),label,'stack of the iterator'); a=p.nf(a+z)
def kway(p): return newseq(p,'K',PK)
def open_tree(cs,o):
    """the tree with the current node explicit"""
    p=cs.p; o.K=kway(p); sq=lambda b: newseq(p,b); o.L,o.A,o.B,o.R,o.rem=sq('L'),sq('A'),sq('B'),sq('R'),sq('rem')
    p.chunks=[c for c in p.chunks if not (isinstance(c,Tree) and c.root==p.nf(o.root))]
    o.e=p.newelem('e',EK); p.setsv(o.T[0][1],o.L+o.A+(('u',o.e),)+o.B+o.R); o.T=p.norm(o.T)
    show(p,o,o.root,o.pool,o.bh,ONE)
def show(p,o,root,own,bh,col):
    hbh=p.freshv('hbh',8); hred=p.freshv('hred',1,0,2); b=p.freshv('black',1,0,2); cl=p.freshv('cl',1,0,2); cr=p.freshv('cr',1,0,2); l=p.freshv('left',8,0,PMAX); r=p.freshv('right',8,0,PMAX)
    p.add_chunk(Seg(root,o.e[0],o.K,o.L,o.R,own,bh,col,p.nf(hbh+b),hred,p.nf(1-L(col)),o.rem)); n=p.length(o.K)
    node_open(p,o.e,l,r,b,own); p.add_chunk(Tree(l,o.A,own,hbh,cl)); p.add_chunk(Tree(r,o.B,own,hbh,cr))
    p.assume(And(Or(eq(b,1),hred_ok(hred)),Or(eq(b,1),And(eq(cl,1),eq(cr,1))),Imp(eq(n,0),eq(b,col))))
    p.assume(And(ge(o.e[0],4096),lt(o.e[0],PMAX)))
def hred_ok(h): return eq(h,1)
def iter_new(cs,it,pos,o,tree):
    """the iterator: pos 0 fresh, 1 in progress, 2 finished"""
    p=cs.p; m,im=itlay(p); z=im[''][1]; v={'tree':tree,'finished':C(1 if pos==2 else 0),'stack_size':p.freshv('itsize',8)}
    if pos==2: v['stack']=p.freshv('itstack',8,0,PMAX); v['sp']=p.freshv('itsp',8)
    else: v['stack']=p.freshv('itstack',8,4096,PMAX); v['sp']=ZERO if pos==0 else p.nf(v['stack']+p.length(o.K)*z); p.assume(gt(p.length(o.T),0)); p.assume(ge(v['stack_size'],p.length(o.T)+1))
    p.assume(lt(v['stack_size']*z,PMAX)); iter_mem(cs,it,v)
    if pos<2: p.add_tok(0,v['stack'],p.nf(v['stack_size']*z))
    if pos==1:
        p.add_chunk(IStk(v['stack'],o.K)); item_cells(p,v['sp'],o.e[0],ZERO); p.add_chunk(JItems(p.nf(v['sp']+z),p.nf(v['stack_size']-p.length(o.K)-1)))
    elif pos==0: p.add_chunk(JItems(v['stack'],v['stack_size']))
    return v
def iter_mem(cs,it,v):
    p=cs.p; m,im=itlay(p)
    for f in IF: p.add_cell(it+m[f][0],m[f][1],v[f])
    for x,n in pads(m,IF): p.add_chunk(Raw(p.nf(it+x),C(n),'j'))
class It: pass
def iter_take(cs,it,label='shape'):
    p=cs.p; m,im=itlay(p); r=It(); c=cs.assume_or_check
    for f in IF: setattr(r,f,p.nf(p.take_cell(it+m[f][0],m[f][1],label,'field %s of the iterator'%f)))
    for x,n in pads(m,IF): gather_range(p,p.nf(it+x),C(n),label,'padding of the iterator')
    return r
def mem_take(p,r,label):
    """the stack of the iterator"""
    z=itlay(p)[1][''][1]; n=p.take_tok(0,r.stack,label,'the stack')
    if n is None: p.hardfail(label,'the stack of the iterator is a live allocation')
    p.oblige(And(ge(n,r.stack_size*z),ge(r.stack_size,1)),label,'the stack of the iterator has the recorded size'); return n
def seqtrans(p,S):
    """S and what it is known to be equal to"""
    return [S]+[p.norm(y) for x,y in p.seqeqs if p.seq_eq(x,S)]
def iter_put(cs,it,o,Rem,what):
    """verify: the iterator is at a node that was still to come (or has finished), and what is still to come is the rest"""
    p=cs.p; c=cs.assume_or_check; z=itlay(p)[1][''][1]; r=iter_take(cs,it); c(eq(r.tree,o.a),'iter','the iterator still belongs to its tree')
    return r
def tree_fields(cs,o):
    p=cs.p; n=obj(cs,o.a)
    return p.nf(p.cells[p.find(p.nf(o.a+n.m['root'][0]),8,'shape','root of the tree')].val)
@S('rbtree_iter_next','C14')
def _(cs):
    it,=cs.args; p=cs.p; m,im=itlay(p); z=im[''][1]; c=cs.assume_or_check
    if cs.mode=='call': p.hardfail('unsupported','call of rbtree_iter_next')
    p.add_region(it,m[''][1]); a=p.freshv('tree',8,4096,PMAX); o=take(cs,a); pos=p.branch(3,'position')
    if pos==1: open_tree(cs,o)
    v=iter_new(cs,it,pos,o,a); Rem=o.T if pos==0 else o.A+o.B+o.rem if pos==1 else ()
    hint(cs,it=(p.nf(it+m['sp'][0]),p.nf(it+m['stack'][0]),p.nf(it+m['stack_size'][0]),p.nf(a+o.m['root'][0]),o.pool))
    yield
    ret=cs.result_bool(); r=iter_take(cs,it); c(eq(r.tree,o.a),'iter','the iterator still belongs to its tree'); Rem=p.norm(Rem)
    if pos==2:
        c(Not(ret),'iter','a finished iterator keeps reporting the end'); c(And(ne(r.finished,0),eq(r.stack,v['stack']),eq(r.stack_size,v['stack_size'])),'iter','a finished iterator stays finished'); put_tree(cs,o); return
    t=p.choose(ret,'next entry') if not isinstance(ret,bool) else ret
    if not t:
        p.oblige(False if not any(p.isempty(q) for q in seqtrans(p,Rem)) else True,'iter','the end is reported only when all entries have been visited')
        c(ne(r.finished,0),'iter','the iterator has finished'); mem_take(p,r,'shape'); items_take(p,r.stack,p.nf(r.stack+r.stack_size*z),'shape'); put_tree(cs,o); return
    c(eq(r.finished,0),'iter','the iterator has not finished'); mem_take(p,r,'shape')
    c(ne(r.sp,0),'iter','the iterator stands at an entry')
    node,st=item_take(p,r.sp,'shape'); p.oblige(And(ne(node,0),eq(st,0)),'iter','the current entry has just been reached')
    if p.nf(node).const()==0: raise PathEnd()
    K=way_items(p,r.stack,r.sp,'shape'); items_take(p,p.nf(r.sp+z),p.nf(r.stack+r.stack_size*z),'shape')
    root=tree_fields(cs,o); peel(p,node); g=gather_seg(p,root,node,o.pool,'shape'); e,l,rr,b=node_take(p,node,o.pool,'shape'); e=tuple(p.nf(x) for x in e)
    A,ha,ca=gather_tree(p,l,o.pool,'shape'); B,hb,cb=gather_tree(p,rr,o.pool,'shape')
    p.oblige(p.seq_eq(K,g.P),'iter','the stack holds the way from the root to the current entry')
    now=p.norm(A+B+g.rem); ok=False
    for Q in seqtrans(p,Rem):
        X=p.norm(Q); i=[k for k,x in enumerate(X) if x[0]=='u' and x[1][0]==e[0]]
        if i and p.seq_eq(X[:i[0]]+X[i[0]+1:],now): ok=True; break
    p.oblige(ok,'iter','the current entry was still to come, and all others that were still to come are to come still')
    T=p.norm(g.L+A+(('u',e),)+B+g.R); p.oblige(any(p.seq_eq(T,Q) for Q in seqtrans(p,o.T)),'pairs','iterating changes no entry')
    bal(p,And(eq(ha,hb),True if g.hbh is None else eq(p.nf(ha+b),g.hbh),True if g.xbh is None else eq(g.xbh,o.bh)),'shape',D_BH)
    n=obj(cs,o.a)
    for f in FIELDS: setattr(n,f,p.take_cell(o.a+o.m[f][0],o.m[f][1],'shape','field '+f))
    for x,k in pads(o.m,FIELDS): gather_range(p,p.nf(o.a+x),C(k),'shape','padding')
    stack_take(p,n,'shape'); pool_take(p,o.pool,'shape')
    c(And(*[eq(getattr(n,f),getattr(o,f)) for f in CONF+('root','count')]),'config','iterating changes no field of the tree')
    c(ge(r.stack_size,p.length(o.T)+1),'iter','the stack of the iterator can hold the longest way and one item more')
def peel(p,node):
    """the node becomes explicit"""
    p.find(p.nf(node+lay(p)['key'][0]),8,'shape','current node')
def put_tree(cs,o):
    p=cs.p; n=obj(cs,o.a); consume(cs,n); p.oblige(any(p.seq_eq(n.T,Q) for Q in seqtrans(p,o.T)),'pairs','iterating changes no entry')
    cs.assume_or_check(And(*[eq(getattr(n,f),getattr(o,f)) for f in CONF]),'config','the functions and the pool of the tree are unchanged')
class IterWalk(Strat):
    """the loop of iter_next: the top of the stack is a node with any state"""
    def __init__(s,h): s.sp,s.stack,s.size,s.root,s.own=h; s.cells=(s.sp,)
    def __repr__(s): return 'walk of an iterator'
    def grab(s,p):
        z=itlay(p)[1][''][1]; val=lambda k: p.nf(p.cells[p.find(k,8)].val); sp,st,n=val(s.sp),val(s.stack),val(s.size); o=O()
        node,o.st=item_take(p,sp,'loop')
        if p.valid(eq(node,0)): raise Retry()
        o.K=way_items(p,st,sp,'loop'); items_take(p,p.nf(sp+z),p.nf(st+n*z),'loop'); root=val(s.root); peel(p,node)
        g=gather_seg(p,root,node,s.own,'loop'); e,l,r,b=node_take(p,node,s.own,'loop'); o.e=tuple(p.nf(x) for x in e)
        o.A,ha,ca=gather_tree(p,l,s.own,'loop'); o.B,hb,cb=gather_tree(p,r,s.own,'loop'); o.g=g; o.h=p.nf(ha+b); o.b=b
        p.oblige(And(eq(ha,hb),Or(eq(b,1),And(eq(ca,1),eq(cb,1)))),'loop',D_BH)
        if g.hbh is not None: p.oblige(And(eq(o.h,g.hbh),Or(eq(b,1),eq(g.hred,1))),'loop',D_BH)
        if not p.seq_eq(o.K,g.P): raise Retry()
        o.T=p.norm(g.L+o.A+(('u',o.e),)+o.B+g.R); return o
    def rem(s,p,o,rem):
        if p.valid(eq(o.st,0)): return p.norm(o.A+o.B+rem)
        if p.valid(eq(o.st,1)): return p.norm(o.B+rem)
        if p.valid(eq(o.st,2)): return p.norm(rem)
        raise Retry()
    def enter(s,p,lc):
        keys=set(p.cells); z=itlay(p)[1][''][1]; o=s.grab(p); s.T0=o.T; s.R0=s.rem(p,o,o.g.rem); g=o.g
        s.bh=ite(p.nff(eq(p.length(o.K),0)),o.h,g.xbh) if g.xbh is not None else o.h; s.col=ite(p.nff(eq(p.length(o.K),0)),o.b,g.xcol) if g.xcol is not None else o.b
        s.cells=(s.sp,)+tuple(keys-set(p.cells)); before=list(p.chunks); n=O(); sq=lambda b: newseq(p,b)
        n.K=kway(p); n.L,n.A,n.B,n.R,n.rem=sq('L'),sq('A'),sq('B'),sq('R'),sq('rem'); n.e=p.newelem('e',EK); n.st=C(p.branch(3,'state of the iterator'))
        T=p.norm(n.L+n.A+(('u',n.e),)+n.B+n.R); R=s.rem(p,n,n.rem)
        p.seqeqs=p.seqeqs+((s.T0,T),(s.R0,R)); p.assume(And(eq(p.length(T),p.length(s.T0)),eq(p.length(R),p.length(s.R0)),eq(p.attr(T,SORTED),p.attr(s.T0,SORTED))))
        root=p.nf(p.cells[p.find(s.root,8)].val); val=lambda k: p.nf(p.cells[p.find(k,8)].val); st,sz=val(s.stack),val(s.size)
        show(p,n,root,s.own,s.bh,s.col); sp=p.nf(st+p.length(n.K)*z); p.add_chunk(IStk(st,n.K)); item_cells(p,sp,n.e[0],n.st); p.add_chunk(JItems(p.nf(sp+z),p.nf(sz-p.length(n.K)-1)))
        p.cells[s.sp]=Cell(8,sp); s.T,s.R=T,R; s.n=n; s.toks=(p.nf(n.e[0]),); s.chunks=[c for c in p.chunks if c not in before]
        s.extra=tuple(set(p.cells)-keys); s.cells=s.cells+s.extra
    def check(s,p,lc,v):
        o=s.grab(p); g=o.g; R=s.rem(p,o,g.rem)
        if not p.seq_eq(o.T,s.T) or not p.seq_eq(R,s.R): raise Retry()
        if g.xbh is not None: p.oblige(Or(eq(p.length(o.K),0),And(eq(g.xbh,s.bh),eq(g.xcol,s.col))),'loop',D_BH)
        p.oblige(Imp(eq(p.length(o.K),0),And(eq(o.h,s.bh),eq(o.b,s.col))),'loop',D_BH)
        # the way gets shorter, or the state at its end moves on
        p.oblige(lt(p.length(o.K)*3-o.st,p.length(s.n.K)*3-s.n.st),'loop','the iterator makes progress')
def iter_options(p,lc,mods):
    h=p.hints.get('it')
    if h is None: return []
    # the field of the iterator, or a variable that starts with its value
    v=p.cells.get(p.nf(h[0])); out=[]
    for k in sorted(mods,key=lambda k: p.nf(k)!=h[0]):
        c=p.cells.get(p.nf(k))
        if p.nf(k)==h[0] or v is not None and c is not None and c.size==8 and p.nf(c.val)==p.nf(v.val): out.append(lambda k=p.nf(k): IterWalk((k,)+tuple(h[1:])))
    return out
LOOP_OPTIONS.append(iter_options)
def any_stack(cs,it,o=None):
    """an iterator in any state, only its stack matters -> fields"""
    p=cs.p; m,im=itlay(p); z=im[''][1]; p.add_region(it,m[''][1]); v={f:p.freshv('it'+f,m[f][1]) for f in IF}
    p.assume(lt(v['stack_size']*z,PMAX)); p.assume(lt(v['stack'],PMAX))
    if p.choose(eq(v['stack'],0),'iterator without stack'): p.assume(le(v['stack_size'],1))
    else:
        p.assume(ge(v['stack'],4096)); p.assume(ge(v['stack_size'],1)); n=p.nf(v['stack_size']*z); p.add_tok(0,v['stack'],n); p.add_chunk(Raw(v['stack'],n,'j'))
    iter_mem(cs,it,v); return v
def iter_start(cs,it,o):
    """verify: the iterator stands before the first entry of the tree"""
    p=cs.p; c=cs.assume_or_check; r=iter_take(cs,it); n=p.length(o.T); c(eq(r.tree,o.a),'iter','the iterator belongs to the tree')
    c(eq(r.sp,0),'iter','the iterator stands before the first entry'); c(Iff(ne(r.finished,0),eq(n,0)),'iter','the iterator has finished exactly if there is no entry')
    if p.choose(eq(r.stack,0),'iterator without stack'):
        c(eq(n,0),'iter','an iterator that is to visit entries has a stack'); c(le(r.stack_size,1),'iter','no stack is recorded'); return
    k=mem_take(p,r,'shape'); gather_range(p,r.stack,k,'shape','stack of the iterator'); c(Or(eq(n,0),ge(r.stack_size,n+1)),'iter','the stack of the iterator can hold the longest way and one item more')
@S('rbtree_iter_init','C14')
def _(cs):
    a,it=cs.args; p=cs.p; m,im=itlay(p)
    if cs.mode=='call': p.hardfail('unsupported','call of rbtree_iter_init')
    p.assume(ge(it,4096)); p.assume(lt(it,PMAX)); p.add_chunk(Raw(it,C(m[''][1]),'j')); o=take(cs,a)
    yield
    put(cs,o,o.T,'iterating changes no entry'); iter_start(cs,it,o)
@S('rbtree_iter_reuse','C14')
def _(cs):
    a,it=cs.args; p=cs.p
    if cs.mode=='call': p.hardfail('unsupported','call of rbtree_iter_reuse')
    o=take(cs,a); any_stack(cs,it)
    yield
    put(cs,o,o.T,'iterating changes no entry'); iter_start(cs,it,o)
@S('rbtree_iter_free','C14')
def _(cs):
    it,=cs.args; p=cs.p; m,im=itlay(p)
    if cs.mode=='call': p.hardfail('unsupported','call of rbtree_iter_free')
    any_stack(cs,it)
    yield
    gather_range(p,it,C(m[''][1]),'shape','the iterator object')
def cursor(cs,it,fresh):
    p=cs.p; m,im=itlay(p)
    if not cs.producing: p.hardfail('unsupported','call of an iterator function')
    o=entry(cs); o.it=it; p.add_region(it,m[''][1]); o.fresh=fresh and p.choose(p.freshb('fresh') if hasattr(p,'freshb') else eq(p.freshv('fresh',1,0,2),1),'no entry yet')
    k=p.freshv('way',8); o.v={'tree':p.freshv('tree',8,4096,PMAX),'stack':p.freshv('itstack',8,4096,PMAX),'stack_size':p.freshv('itsize',8),'finished':p.freshv('finished',1,0,2)}
    if o.fresh: o.v['sp']=ZERO
    else: 
        o.v['sp']=p.freshv('itsp',8,4096,PMAX); o.v['finished']=ZERO; p.add_region(o.v['sp'],im[''][1]); item_cells(p,o.v['sp'],o.e[0],ZERO)
    iter_mem(cs,it,o.v); return o
def cursor_put(cs,o,e,what):
    p=cs.p; r=iter_take(cs,o.it); cs.assume_or_check(And(*[eq(getattr(r,f),o.v[f]) for f in IF]),'iter','the iterator does not move')
    if not o.fresh: n,st=item_take(p,o.v['sp'],'shape'); cs.assume_or_check(And(eq(n,o.e[0]),eq(st,0)),'iter','the iterator does not move')
    entry_put(cs,o,e,what)
def igetter(i,what,fresh):
    def f(cs):
        x,=cs.args; p=cs.p; o=cursor(cs,x,fresh)
        yield
        cs.assume_or_check(eq(cs.result(8,'x'),0 if o.fresh else o.e[i]),'ret','the %s of the entry is returned (NULL before the first)'%what); cursor_put(cs,o,o.e,'a query changes no entry')
    return f
for n,i,w in(('rbtree_iter_get_key',1,'key'),('rbtree_iter_get_value',2,'value')): S(n,'C14')(igetter(i,w,True))
for n,i,w in(('vf_rbtree_iter_key',1,'key'),('vf_rbtree_iter_value',2,'value')): spec(n,MAC,'C14')(igetter(i,w,False))
