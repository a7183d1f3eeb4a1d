"""Contracts of pool.c (C17).

The pool owns, for every block, the allocation and the part of it that was never handed out; for every block of
released pointers the allocation and the memory of each released item.  The memory of items in use is not the pool's:
what alloc returns must be memory that the pool gives up, so it cannot overlap an item in use."""
from spec import *
from specs_list import tok_take,hint
ITEM=ElemKind(('item',8)); ITEM.node=True
class Items(Chunk):
    """item memory, one item of the pool's size for each address in the sequence"""
    def __init__(s,size,seq): s.size=L(size); s.seq=tuple(seq)
    def __repr__(s): return 'items(%r)'%list(s.seq)
    def nf(s,p): s.size=p.nf(s.size); s.seq=p.norm(s.seq)
    def same(s,p,o): return s.size==o.size and p.seq_eq(s.seq,o.seq)
    def span(s): return 0
    def match(s,p,addr,size):
        for i,pc in enumerate(s.seq):
            if pc[0]=='u' and basediff(addr,pc[1][0])==0: return lambda: s.open(p,i)
        return None
    def sem(s,p,addr,size):
        for i,pc in enumerate(s.seq):
            if pc[0]=='u' and p.valid(eq(addr,pc[1][0])): p.assume(eq(addr,pc[1][0])); s.open(p,i); return True
        return False
    def open(s,p,i):
        a=s.seq[i][1][0]; p.addchunk_remove(s)
        for q in (s.seq[:i],s.seq[i+1:]):
            if q: p.add_chunk(Items(s.size,q))
        p.assume(ge(a,4096)); p.assume(lt(a+s.size,PMAX)); p.add_chunk(Raw(a,s.size,'j'))
class Geo: pass
def lemma(p,o):
    """multiplication is monotone: the products that matter for an offset o"""
    g=p.geo
    for k in (o,p.nf(o+1)):
        p.assume(Imp(le(k,g.bsz),le(g.isz*k,g.isz*g.bsz)))
    p.assume(Imp(ge(o,0),ge(g.isz*o,0)))
class BlockRes:
    def __init__(s,full): s.full=full
    def open(s,p,e):
        g=p.geo; a,items,off=e
        p.assume(ge(items,4096)); p.assume(lt(items+g.isz*g.bsz,PMAX)); p.assume(le(off,g.bsz)); p.assume(ge(off,0)); lemma(p,off)
        p.add_tok(0,items,g.isz*g.bsz)
        o=ZERO if s.full else off
        p.add_chunk(Raw(items+g.isz*o,g.isz*g.bsz-g.isz*o,'j'))
    def close(s,p,e,label):
        g=p.geo; a,items,off=e
        n=p.take_tok(0,items,label,'memory of a block')
        if n is None: p.hardfail(label,'the memory of a block at %r is not owned by the pool'%items)
        p.oblige(ge(n,g.isz*g.bsz),label,'a block has room for all its items')
        p.oblige(And(ge(off,0),le(off,g.bsz)),label,'the offset of a block is at most the block size')
        lemma(p,off)
        gather_range(p,items+g.isz*off,g.isz*g.bsz-g.isz*off,label,'unused part of a block')
class PtrRes:
    def __init__(s,full): s.full=full
    def open(s,p,e):
        g=p.geo; a,items,off=e
        p.assume(ge(items,4096)); p.assume(lt(items+g.bsz*8,PMAX)); p.assume(And(gt(off,0),le(off,g.bsz)))
        p.add_tok(0,items,g.bsz*8)
        if s.full: p.add_chunk(Raw(items,g.bsz*8,'j')); return
        X=(V(p.freshsv('X',ITEM)),); p.assume(eq(p.length(X),off))
        p.add_chunk(Arr(items,8,p.norm(X+(('j',p.nf(g.bsz-off)),)))); p.add_chunk(Items(g.isz,p.norm(X)))
    def close(s,p,e,label):
        g=p.geo; a,items,off=e
        n=p.take_tok(0,items,label,'array of released items')
        if n is None: p.hardfail(label,'the array of released items at %r is not owned by the pool'%items)
        p.oblige(ge(n,g.bsz*8),label,'a block of released items has room for all of them')
        p.oblige(And(gt(off,0),le(off,g.bsz)),label,'a block of released items holds between one item and the block size')
        q=take_arr(p,items,8,g.bsz,label,'array of released items')
        X,_=cutseq(p,q,off)
        for pc in p.norm(X):
            if p.isempty((pc,)): continue
            if pc[0]=='u':
                p.oblige(ge(pc[1][0],4096),label,'a released item is not NULL')
                gather_range(p,pc[1][0],g.isz,label,'memory of a released item'); continue
            hit=False
            for c in list(p.chunks):
                if isinstance(c,Items) and pc in c.seq:
                    i=c.seq.index(pc); p.addchunk_remove(c); hit=True
                    for r in (c.seq[:i],c.seq[i+1:]):
                        if r: p.add_chunk(Items(c.size,r))
                    break
            if not hit: p.hardfail(label,'released items that the pool does not hold')
_K={}
def kind(cs,which,full):
    st='_MemoryBlock' if which=='block' else '_MemoryPtrBlock'; m=members(cs,st)
    key=(st,full)+tuple(sorted((k,v) for k,v in m.items()))
    if key not in _K:
        k=NodeKind(st,m[''][1],[('items',m['items'][0],8),('offset',m['offset'][0],8)],m['next'][0]); k.res=(BlockRes if which=='block' else PtrRes)(full); _K[key]=k
    return _K[key]
OFF=('sum',('fld',2),frozenset())
def layout(cs): return members(cs,'MemoryPool')
def take(cs,a,full=False):
    """the pool at a"""
    p=cs.p; m=layout(cs); o=LObj(); o.m=m; o.a=a; pd=m['padding'][0]; mp=members(cs,'Pool'); o.kb=kind(cs,'block',full); o.kf=kind(cs,'ptr',full); o.full=full
    g=p.geo=Geo(); g.isz=p.freshv('isz',8,1); g.bsz=p.freshv('bsz',8,1); p.assume(lt(g.isz*g.bsz,PMAX)); p.assume(lt(g.bsz*8,PMAX))
    p.assume(And(ge(g.isz*g.bsz,g.isz),ge(g.isz*g.bsz,g.bsz)))
    o.g=g; o.B=(V(p.freshsv('B',o.kb.ek)),); o.F=(V(p.freshsv('F',o.kf.ek)),)
    p.add_region(a,m[''][1])
    o.fa=p.freshv('fa',8); o.ff=p.freshv('ff',8); o.fns=(p.nf(a+pd+mp['alloc'][0]),p.nf(a+pd+mp['free'][0]))
    p.add_cell(o.fns[0],8,o.fa); p.add_cell(o.fns[1],8,o.ff)
    p.add_cell(a+m['item_size'][0],8,g.isz); p.add_cell(a+m['block_size'][0],8,g.bsz)
    p.assume(gt(p.length(o.B),0))
    for f,k,S in (('block',o.kb,o.B),('free_block',o.kf,o.F)):
        x=p.freshv(f,8,0,PMAX); p.add_cell(a+m[f][0],8,x); p.add_chunk(LSeg(k,x,0,S,0)); p.assume(Imp(eq(p.length(S),0),eq(x,0)))
    return o
def put(cs,o):
    p=cs.p; a=o.a; m=o.m
    for x,v in zip(o.fns,(o.fa,o.ff)): cs.give(x,8,v,'config','the functions of the pool are unchanged')
    cs.give(a+m['item_size'][0],8,o.g.isz,'config','the item size is unchanged'); cs.give(a+m['block_size'][0],8,o.g.bsz,'config','the block size is unchanged')
    r=[]
    for f,k in (('free_block',o.kf),('block',o.kb)):
        x=p.take_cell(a+m[f][0],8,'shape',f); S,_=gather(p,k,x,0,0,'shape'); r.append(S)
    return r[1],r[0]
def P(n,**k): return spec(n,'pool.c','C17',**k)
@P('memory_pool.alloc',static=True)
def _(cs):
    a,=cs.args; p=cs.p; o=take(cs,a); nF=p.length(o.F); sF=p.attr(o.F,OFF); sB=p.attr(o.B,OFF); hd=p.attr(o.B,('first',('fld',2))); nB=p.length(o.B)
    yield
    r=cs.ret
    p.oblige(ge(r,4096),'ret','alloc returns an item')
    gather_range(p,r,o.g.isz,'content','the item handed out is whole memory that is not in use')
    B,F=put(cs,o)
    if p.choose(gt(nF,0),'released items'):
        seqpost(cs,B,o.B,'seq','no new memory is used while there are released items')
        p.oblige(eq(p.attr(F,OFF),sF-1),'count','one released item is used')
    else:
        seqpost(cs,F,(),'seq','no released items appear')
        p.oblige(eq(p.attr(B,OFF),sB+1),'count','exactly one item is taken from the blocks')
        p.oblige(Imp(lt(hd,o.g.bsz),eq(p.length(B),nB)),'count','no new block while the current block has unused items')
@P('memory_pool.free',static=True)
def _(cs):
    a,item=cs.args; p=cs.p; o=take(cs,a); sF=p.attr(o.F,OFF)
    p.assume(ge(item,4096)); p.assume(lt(item+o.g.isz,PMAX)); p.add_chunk(Raw(item,o.g.isz,'j')); p.owner_facts(item,True,C(1))
    yield
    B,F=put(cs,o)
    seqpost(cs,B,o.B,'seq','the blocks are unchanged')
    p.oblige(eq(p.attr(F,OFF),sF+1),'count','the released item becomes available')
class PoolObj(Chunk):
    """a pool that belongs to its user"""
    def __init__(s,addr,size): s.addr=L(addr); s.size=L(size)
    def __repr__(s): return 'pool(%r)'%s.addr
    def nf(s,p): s.addr=p.nf(s.addr)
    def same(s,p,o): return s.addr==o.addr and s.size==o.size
def own_pool(p,a,isz):
    p.add_pool(a); p.poolsize=isz; p.add_chunk(PoolObj(a,isz))
def take_pool(p,a,label='pre'):
    for c in p.chunks:
        if isinstance(c,PoolObj) and (c.addr==p.nf(a) or p.valid(eq(c.addr,a))): p.addchunk_remove(c); return c
    p.hardfail(label,'%r is a pool that belongs to the caller'%a)
@P('memory_pool_new')
def _(cs):
    isz,bsz=cs.args; p=cs.p
    if cs.mode=='verify':
        p.assume(gt(isz,1)); p.assume(gt(bsz,1)); p.assume(lt(isz*bsz,1<<64)); p.assume(lt(bsz*8,1<<64)); p.assume(And(ge(isz*bsz,isz),ge(isz*bsz,bsz)))
        g=p.geo=Geo(); g.isz=isz; g.bsz=bsz; lemma(p,ZERO)
    else:
        for n,x in (('item',isz),('block',bsz)): cs.assume_or_check(gt(x,1),'pre','the %s size is greater than one'%n)
        cs.assume_or_check(lt(isz*bsz,1<<64),'pre','block size times item size does not overflow')
    yield
    a=cs.result(8,'pool',True)
    if cs.mode=='call':
        p.assume(ge(a,4096)); own_pool(p,a,isz.const()); return
    o=LObj(); o.m=layout(cs); o.a=a; o.g=p.geo; o.kb=kind(cs,'block',False); o.kf=kind(cs,'ptr',False); pd=o.m['padding'][0]; mp=members(cs,'Pool')
    o.fns=(p.nf(a+pd+mp['alloc'][0]),p.nf(a+pd+mp['free'][0]))
    for x,nm in zip(o.fns,('alloc','free')):
        k=p.find(x,8,'shape','function of the pool'); v=p.nf(p.cells[k].val); at=v.atom()
        if at is None or not at.name.startswith('fn:'): p.hardfail('ret','the %s function of a new pool is set'%nm)
        p.ver.calls.add('memory_pool.%s=%s'%(nm,at.name[3:])); 
        if nm=='alloc': o.fa=v
        else: o.ff=v
    B,F=put(cs,o)
    p.oblige(gt(p.length(B),0),'shape','a new pool has a block')
    p.oblige(eq(p.attr(B,OFF),0),'count','no item of a new pool is in use'); seqpost(cs,F,(),'seq','a new pool has no released items')
    tok_take(cs,a,o.m[''][1],0,'the new pool')
@P('memory_pool_destroy')
def _(cs):
    a,=cs.args; p=cs.p
    if cs.mode=='verify':
        o=take(cs,a,True); tok_take(cs,a,o.m[''][1],0,'the pool')
    else:
        c=take_pool(p,a); a=p.nf(a)
        # all items go back to the pool
        for ch in list(p.chunks):
            if getattr(ch,'owner',None) is not None and p.nf(ch.owner)==a: p.addchunk_remove(ch)
        for t in list(p.toks):
            if t[0]==a: p.toks.remove(t); gather_range(p,t[1],t[2],'pre','item of the pool')
        for ch in list(p.chunks):
            if hasattr(ch,'pool_gone'): ch.pool_gone(p,a)
    yield
