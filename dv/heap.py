"""Array chunks, gathering (folding) of chunks, copying."""
from engine import *

class Arr(Chunk):
    """array of esz-byte elements; unit pieces hold 1-tuples"""
    def __init__(s,addr,esz,seq): s.addr=L(addr); s.esz=esz; s.seq=tuple(seq)
    def __repr__(s): return 'arr(%r,%d,%r)'%(s.addr,s.esz,list(s.seq))
    def nf(s,p): s.addr=p.nf(s.addr); s.seq=p.norm(s.seq)
    def same(s,p,o): return s.addr==o.addr and s.esz==o.esz and p.seq_eq(s.seq,o.seq)
    def span(s): return 0
    def facts(s,p): return []
    def inside(s,p,addr,size):
        d=addr-s.addr
        if d.c%s.esz or any(k%s.esz for _,k in d.t):
            return None
        if size!=s.esz: return None
        return div(d,s.esz)
    def match(s,p,addr,size):
        if s.addr.t and not set(a for a,_ in s.addr.t)&set(a for a,_ in addr.t): return None
        i=s.inside(p,addr,size)
        if i is None: return None
        n=p.length(s.seq)
        if i.const() is not None and i.const()<0: return None
        if p.valid(And(ge(i,0),lt(i,n))): return lambda: s.open(p,i)
        return None
    def sem(s,p,addr,size):
        if s.addr.t and not set(a for a,_ in s.addr.t)&set(a for a,_ in addr.t): return False
        i=s.inside(p,addr,size)
        if i is None: return False
        n=p.length(s.seq)
        f=And(ge(i,0),lt(i,n))
        if p.satisfiable(f):
            if p.choose(f,'array bounds'):
                s.open(p,i); return True
        return False
    def locate(s,p,i):
        """index of the piece containing position i and the offset inside"""
        pos=ZERO
        for k,pc in enumerate(s.seq):
            n=ONE if pc[0]=='u' else p.length((pc,))
            if p.valid(And(le(pos,i),lt(i,pos+n))): return k,p.nf(i-pos)
            pos=p.nf(pos+n)
        # undecided: branch
        pos=ZERO
        for k,pc in enumerate(s.seq):
            n=ONE if pc[0]=='u' else p.length((pc,))
            if k==len(s.seq)-1 or p.choose(lt(i,pos+n),'piece'): return k,p.nf(i-pos)
            pos=p.nf(pos+n)
    def isolate(s,p,i):
        """make position i a piece boundary-delimited unit; returns piece index"""
        for _ in range(20):
            k,o=s.locate(p,i); pc=s.seq[k]
            if pc[0]=='u': return k
            if pc[0]=='v':
                if pc[2] is not None and pc[2][0]!='proj': p.hardfail('shape','cannot open a filtered sequence')
                p.splitat(pc[1],o); s.nf(p)
            else:
                n=pc[1]; val=ZERO if pc[0]=='z' else p.freshv('junk',s.esz)
                s.seq=p.norm(s.seq[:k]+((pc[0],o),('u',(val,)),(pc[0],n-o-1))+s.seq[k+1:])
    def open(s,p,i):
        k=s.isolate(p,i)
        pre=s.seq[:k]; post=s.seq[k+1:]; v=s.seq[k][1][0]
        p.addchunk_remove(s)
        a=p.nf(s.addr+i*s.esz)
        if pre: p.add_chunk(Arr(s.addr,s.esz,pre))
        p.add_cell(a,s.esz,v)
        if post: p.add_chunk(Arr(a+s.esz,s.esz,post))

def cutseq(p,seq,k):
    """split an array-level sequence at position k -> (pre,post)"""
    seq=list(p.norm(seq)); pre=[]; pos=ZERO; k=p.nf(k)
    for _ in range(200):
        if p.valid(eq(pos,k)): return tuple(pre),tuple(seq)
        if not seq: p.hardfail('memory','range reaches beyond the array')
        pc=seq[0]; n=ONE if pc[0]=='u' else p.length((pc,))
        if p.choose(ge(k,pos+n),'cut'): pre.append(pc); seq.pop(0); pos=p.nf(pos+n); continue
        # strictly inside (k<pos+n, k>pos possible)
        if p.choose(le(k,pos),'cut'): return tuple(pre),tuple(seq)
        o=p.nf(k-pos)
        if pc[0]=='v':
            p.cutat(pc[1],o); q=list(p.norm((pc,)))
            seq[0:1]=q
            pre=list(p.norm(pre)); seq=list(p.norm(seq))
        else:
            seq[0:1]=[(pc[0],o),(pc[0],p.nf(n-o))]
    raise Exception('cutseq')

def fragment_at(p,pos):
    """remove and return the memory fragment starting at pos: ('cell',size,val) ('raw',n,fill) ('arr',esz,seq)"""
    pos=p.nf(pos)
    c=p.cells.get(pos)
    if c is not None:
        del p.cells[pos]; return ('cell',c.size,c.val)
    for ch in p.chunks:
        if isinstance(ch,Raw) and ch.addr==pos: p.addchunk_remove(ch); return ('raw',ch.size,ch.fill)
        if isinstance(ch,Arr) and ch.addr==pos: p.addchunk_remove(ch); return ('arr',ch.esz,ch.seq)
        if hasattr(ch,'asarr') and ch.addr==pos: p.addchunk_remove(ch); return ch.asarr(p)
    for ch in p.chunks:
        if isinstance(ch,(Raw,Arr)) and p.valid(eq(ch.addr,pos)):
            if isinstance(ch,Arr) and p.isempty(ch.seq): continue
            p.addchunk_remove(ch)
            return ('raw',ch.size,ch.fill) if isinstance(ch,Raw) else ('arr',ch.esz,ch.seq)
    for k in list(p.cells):
        if k.t and pos.t and p.valid(eq(k,pos)):
            c=p.cells.pop(k); return ('cell',c.size,c.val)
    return None

def gather_range(p,addr,nbytes,label='memory',what='range'):
    """remove the memory [addr,addr+nbytes) and return its fragments in order"""
    addr=p.nf(L(addr)); nbytes=p.nf(L(nbytes)); pos=addr; end=p.nf(addr+nbytes); out=[]
    for _ in range(300):
        if pos==end or p.valid(eq(pos,end)): return out
        fr=fragment_at(p,pos)
        if fr is None:
            # inside a larger object? open the cell/array there
            done=False
            for ch in p.chunks:
                if isinstance(ch,Arr):
                    i=ch.inside(p,pos,ch.esz)
                    if i is None or (ch.addr.t and not set(a for a,_ in ch.addr.t)&set(a for a,_ in pos.t)): continue
                    n=p.length(ch.seq)
                    if p.valid(And(ge(i,0),lt(i,n))):
                        a,b=cutseq(p,ch.seq,i); p.addchunk_remove(ch)
                        if a: p.add_chunk(Arr(ch.addr,ch.esz,a))
                        p.add_chunk(Arr(pos,ch.esz,b)); done=True; break
                if isinstance(ch,Raw) and ch.size.const() is not None:
                    d=basediff(pos,ch.addr)
                    if d is not None and 0<d<ch.size.const():
                        p.addchunk_remove(ch); p.chunks.append(Raw(ch.addr,C(d),ch.fill)); p.chunks.append(Raw(pos,ch.size-d,ch.fill)); done=True; break
            if done: continue
            if p.choose(le(end,pos),'range end'): return out
            # may be inside an array only on this path
            for ch in list(p.chunks):
                if isinstance(ch,Arr):
                    i=ch.inside(p,pos,ch.esz)
                    if i is None or (ch.addr.t and not set(a for a,_ in ch.addr.t)&set(a for a,_ in pos.t)): continue
                    n=p.length(ch.seq)
                    if p.satisfiable(And(ge(i,0),lt(i,n))): p.choose(And(ge(i,0),lt(i,n)),'range start'); done=True; break
                elif isinstance(ch,Raw) and ch.size.const() is None and set(a for a,_ in ch.addr.t)&set(a for a,_ in pos.t):
                    f=And(gt(pos,ch.addr),lt(pos,ch.addr+ch.size))
                    if p.satisfiable(f):
                        done=True
                        if p.choose(f,'range start'):
                            p.addchunk_remove(ch); d=p.nf(pos-ch.addr)
                            p.chunks.append(Raw(ch.addr,d,ch.fill)); p.chunks.append(Raw(pos,p.nf(ch.size-d),ch.fill))
                        break
            if done: continue
            p.find(pos,1,label,what)   # reports the failure (or opens a chunk)
            continue
        if fr[0]=='cell':
            n=C(fr[1])
        elif fr[0]=='raw': n=fr[1]
        else:
            seq=p.norm(fr[2]); fr=('arr',fr[1],seq); n=p.length(seq)*fr[1]
        npos=p.nf(pos+n)
        if (npos-end).const() is None or (npos-end).const()>0:
            if not p.choose(le(npos,end),'fragment end'):
                # cut the fragment
                keep=p.nf(end-pos)
                if fr[0]=='arr':
                    k=div(keep,fr[1])
                    if k*fr[1]!=keep: p.hardfail(label,'partial element')
                    a,b=cutseq(p,fr[2],k)
                    out.append(('arr',fr[1],a)); 
                    if b: p.add_chunk(Arr(end,fr[1],b))
                elif fr[0]=='raw':
                    out.append(('raw',keep,fr[2])); p.chunks.append(Raw(end,p.nf(n-keep),fr[2])) if n.const() is not None and keep.const() is not None else p.add_chunk(Arr(end,1,((fr[2],p.nf(n-keep)),)))
                elif fr[0]=='cell' and p.choose(eq(pos,end),'range end'): p.cells[pos]=Cell(fr[1],fr[2])   # nothing is left of the range
                else: p.hardfail(label,'range ends inside a field')
                return out
        out.append(fr); pos=npos
    raise Exception('gather_range')

def frags_to_seq(p,frs,esz):
    """array-level sequence of esz-byte elements, or None"""
    out=[]
    for fr in frs:
        if fr[0]=='cell':
            if fr[1]!=esz: return None
            out.append(('u',(fr[2],)))
        elif fr[0]=='raw':
            n=div(fr[1],esz)
            if n*esz!=fr[1] and not p.valid(eq(n*esz,fr[1])): return None
            out.append((fr[2],n))
        else:
            if fr[1]!=esz:
                if all(x[0] in 'jz' for x in fr[2]):
                    for x in fr[2]:
                        b=x[1]*fr[1]; n=div(b,esz)
                        if n*esz!=b and not p.valid(eq(n*esz,b)): return None
                        out.append((x[0],n))
                    continue
                return None
            out+=list(fr[2])
    return p.norm(tuple(out))
def frag_esz(frs):
    for f in frs:
        if f[0]=='arr' and not all(x[0] in 'jz' for x in f[2]): return f[1]
    for f in frs:
        if f[0]=='cell': return f[1]
    for f in frs:
        if f[0]=='arr': return f[1]
    return 1
def put_frags(p,addr,frs):
    pos=p.nf(addr)
    for f in frs:
        if f[0]=='cell': p.add_cell(pos,f[1],f[2]); pos=p.nf(pos+f[1])
        elif f[0]=='raw': p.chunks.append(Raw(pos,f[1],f[2])); pos=p.nf(pos+f[1])
        else:
            s=p.norm(f[2]); p.add_chunk(Arr(pos,f[1],s)); pos=p.nf(pos+p.length(s)*f[1])
def take_arr(p,addr,esz,n,label='shape',what='array'):
    """consume n elements at addr, return the array-level sequence"""
    frs=gather_range(p,addr,p.nf(L(n)*esz),label,what)
    s=frags_to_seq(p,frs,esz)
    if s is None: p.hardfail(label,what+': unexpected element layout')
    return s

# ---------------------------------------------------------------- list gathering
def node_at(p,k,a,owner,label):
    """consume the explicit node at address a (syntactically present) -> (elem,next,prev)"""
    e=[a]
    for (n,off,sz) in k.fields:
        e.append(p.take_cell(a+off,sz,label,'field '+n))
    nx=p.take_cell(a+k.next,8,label,'next link'); pv=None
    if k.prev is not None: pv=p.take_cell(a+k.prev,8,label,'previous link')
    for off,sz in k.pads: gather_range(p,a+off,C(sz),label,'padding')
    n=p.take_tok(owner,a,label,'node')
    if n is None: p.hardfail(label,'node at %r is not owned by the container (released or shared)'%a)
    if n.const()!=k.size and not p.valid(ge(n,k.size)): p.hardfail(label,'node at %r has the wrong size'%a)
    if k.res is not None: k.res.close(p,tuple(p.nf(x) for x in e),label)
    return tuple(e),nx,pv

def has_node(p,k,a):
    for (n,off,sz) in k.fields:
        if p.nf(a+off) in p.cells: return True
    for o,b,n in p.toks:
        if b==a and n.const()==k.size: return True
    return p.nf(a+k.next) in p.cells and not any(isinstance(c,LinkSeg) and c.b==p.nf(a+k.next) for c in p.chunks)

def gather(p,k,x,y,owner,label='shape',px=None,stop_ly=None):
    """consume the list segment from x to y; returns (seq, last address).  For doubly linked kinds the back links are
    checked against the actual predecessors."""
    x=p.nf(x); y=p.nf(L(y)); seq=[]; last=p.nf(px) if px is not None else None
    for _ in range(60):
        x=p.nf(x); y=p.nf(y)
        if last is not None: last=p.nf(last)
        if x==y: return p.norm(tuple(seq)),last
        # explicit node
        if has_node(p,k,x):
            e,nx,pv=node_at(p,k,x,owner,label)
            if k.prev is not None and px is not None: p.oblige(eq(pv,last),label,'previous link of a node names its predecessor')
            seq.append(('u',e)); last=x; x=nx; continue
        ch=None
        for c in p.chunks:
            if isinstance(c,LSeg) and c.k is k and c.x==x: ch=c; break
        if ch is None:
            for c in p.chunks:
                if isinstance(c,LinkSeg) and c.k is k and p.nf(c.b) in p.cells:
                    # chain of links not yet converted
                    c.convert(p); ch='again'; break
            if ch=='again': continue
        if ch is not None:
            # does the target lie inside this chunk?
            if ch.y!=y and not p.isempty(ch.seq):
                cut=None
                for i in range(1,len(ch.seq)):
                    st=p.attr(ch.seq[i:],('first',('fld',0)))
                    st=ite(p.nff(gt(p.length(ch.seq[i:]),0)),st,ch.y)
                    if p.valid(eq(st,y)): cut=i; break
                if cut is not None:
                    pre,post=ch.seq[:cut],ch.seq[cut:]
                    p.addchunk_remove(ch)
                    m=None
                    if k.prev is not None:
                        m=p.nf(p.attr(pre,('last',('fld',0))))
                        m=ite(p.nff(gt(p.length(pre),0)),m,ch.px)
                    p.add_chunk(LSeg(k,ch.x,y,pre,ch.owner,ch.px,m)); p.add_chunk(LSeg(k,y,ch.y,post,ch.owner,m,ch.ly))
                    continue
            p.addchunk_remove(ch)
            p.oblige(eq(ch.owner,owner),label,'nodes belong to the container')
            if k.prev is not None and px is not None:
                p.oblige(Or(eq(p.length(ch.seq),0),eq(ch.px,last)),label,'previous link of a node names its predecessor')
            seq+=list(ch.seq)
            if k.prev is not None: last=ite(p.nff(gt(p.length(ch.seq),0)),ch.ly,last)
            x=ch.y; continue
        # semantic: a node or chunk at an equal address, or the end
        found=False
        cands=[c.x for c in p.chunks if isinstance(c,LSeg) and c.k is k]+[a for o,a,n in p.toks if has_node(p,k,a)]
        if p.valid(eq(x,y)): p.assume(eq(x,y)); continue
        for a in cands:
            if p.valid(eq(a,x)): p.assume(eq(a,x)); found=True; break
        if found: continue
        # the segment may start in the middle of a chunk
        for c in list(p.chunks):
            if isinstance(c,LSeg) and c.k is k:
                for i in range(1,len(c.seq)):
                    st=p.attr(c.seq[i:],('first',('fld',0)))
                    st=ite(p.nff(gt(p.length(c.seq[i:]),0)),st,c.y)
                    if p.valid(eq(st,x)):
                        pre,post=c.seq[:i],c.seq[i:]
                        p.addchunk_remove(c)
                        m=None
                        if k.prev is not None:
                            m=ite(p.nff(gt(p.length(pre),0)),p.nf(p.attr(pre,('last',('fld',0)))),c.px)
                        p.add_chunk(LSeg(k,c.x,x,pre,c.owner,c.px,m)); p.add_chunk(LSeg(k,x,c.y,post,c.owner,m,c.ly))
                        found=True; break
                if found: break
        if found: continue
        if p.satisfiable(eq(x,y)) and p.choose(eq(x,y),'list ends'): continue
        for a in cands:
            if p.satisfiable(eq(a,x)) and p.choose(eq(a,x),'list continues'): found=True; break
        if found: continue
        p.hardfail(label,'the chain of nodes breaks at %r (expected to reach %r)'%(x,y))
    p.hardfail(label,'list gathering does not end')

def gather_links(p,k,a,b,owner,label='shape',px=None):
    """consume the chain of links from link cell a up to (not including) link cell b -> (seq,last)"""
    a=p.nf(a); b=p.nf(b); seq=[]; last=px
    for _ in range(40):
        a=p.nf(a); b=p.nf(b)
        if a==b: return p.norm(tuple(seq)),last
        ch=None
        for c in p.chunks:
            if isinstance(c,LinkSeg) and c.k is k and c.a==a: ch=c
        if ch is not None:
            p.addchunk_remove(ch); seq+=list(ch.seq); 
            if px is not None: last=ite(p.nff(gt(p.length(ch.seq),0)),ch.ly,last)
            a=ch.b; continue
        if a in p.cells:
            x=p.cells[a].val
            if p.nf(x+k.next)==b and has_node2(p,k,x):
                # last node: its next cell stays
                del p.cells[a]
                nx=p.cells.pop(b)
                p.add_cell(b,8,nx.val)
                e,n2,pv=node_at(p,k,x,owner,label)
                p.add_cell(b,8,n2)
                if px is not None: p.oblige(eq(pv,last),label,'previous link of a node names its predecessor')
                seq.append(('u',e)); last=x; a=b; continue
            if has_node(p,k,x):
                del p.cells[a]
                e,n2,pv=node_at(p,k,x,owner,label)
                if px is not None: p.oblige(eq(pv,last),label,'previous link of a node names its predecessor')
                p.add_cell(x+k.next,8,n2); seq.append(('u',e)); last=x; a=p.nf(x+k.next); continue
            # an lseg starting there: view as links
            lc=None
            for c in p.chunks:
                if isinstance(c,LSeg) and c.k is k and c.x==x: lc=c
            if lc is not None:
                lc.open_first(p); continue
        if p.valid(eq(a,b)): p.assume(eq(a,b)); continue
        p.hardfail(label,'the chain of links breaks at %r'%a)
    p.hardfail(label,'link gathering does not end')
def has_node2(p,k,a): return any(b==a and n.const()==k.size for o,b,n in p.toks) or any(p.nf(a+off) in p.cells for n,off,sz in k.fields)

def release(p,addr,owner,label,what):
    """free(): the whole object must be owned, unaliased and intact"""
    n=p.take_tok(owner,addr,label,what)
    if n is None: p.hardfail(label,'%s of %r, which is not a live allocation owned here'%(what,addr))
    gather_range(p,addr,n,label,'memory being released')
    return n

def copy_mem(p,dst,src,n,overlap_ok,label='memory'):
    n=p.nf(n)
    if n.const()==0 or p.valid(eq(n,0)): return
    at=p.nf(src).atom(); g=at.name[5:] if at is not None and at.name.startswith('glob:') else None
    if g is not None and g in p.mod.globs and n.const()==p.mod.sizeof(p.mod.globs[g][0]):
        frs=p.globfrags(g)
        if frs is not None: gather_range(p,dst,n,label,'target of copy'); put_frags(p,dst,frs); return
    frs=gather_range(p,src,n,label,'source of copy')
    if not overlap_ok:
        gather_range(p,dst,n,label,'target of copy'); put_frags(p,src,frs)
    else:
        put_frags(p,src,frs); gather_range(p,dst,n,label,'target of copy')
    put_frags(p,dst,frs)
def set_mem(p,dst,n,val,label='memory'):
    n=p.nf(n)
    if n.const()==0: return
    frs=gather_range(p,dst,n,label,'target of memset')
    if val.const()==0:
        for f in frs:
            if f[0]=='cell': p.add_cell(dst,f[1],0); dst=p.nf(dst+f[1])
            elif f[0]=='raw': p.chunks.append(Raw(dst,f[1],'z')); dst=p.nf(dst+f[1])
            else:
                m=p.length(f[2]); p.add_chunk(Arr(dst,f[1],(('z',m),))); dst=p.nf(dst+m*f[1])
    else:
        p.add_chunk(Arr(dst,1,(('j',n),)))
