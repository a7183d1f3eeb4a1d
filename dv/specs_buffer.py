"""Contracts of buffer.c (C18, C19)."""
from spec import *
from specs_list import hint,tok_take
from heap import take_arr,gather_range,cutseq
LIMIT=(1<<63)-2
NLP=frozenset([('eq',('fld',0),C(10))])
class B: pass
def S(n,props): return spec(n,'buffer.c',props)
def buf_take(cs,a,ro=False):
    """the buffer at a: fields, content D, spare bytes"""
    p=cs.p; m=members(cs,'Buffer'); b=B(); b.a=a; b.m=m
    lab='shape' if cs.mode=='verify' else 'pre'
    if cs.producing:
        p.add_region(a,m[''][1])
        b.max=p.freshv('max',8,1,LIMIT+1); b.valid=p.freshv('valid',1,0,2)
        b.D=(V(p.freshsv('D',BYTE)),); b.len=p.length(b.D); b.msize=p.freshv('msize',8,1,PMAX); b.data=p.freshv('data',8,4096,PMAX)
        p.assume(le(b.len,b.max)); p.assume(le(b.len,b.msize))
        if not p.choose(eq(b.valid,0),'buffer is invalid'): p.assume(eq(b.valid,1))
        b.valid=p.nf(b.valid)
        buf_produce(cs,b)
    else:
        buf_consume(cs,b)
    return b
def buf_produce(cs,b):
    p=cs.p; m=b.m
    for f in('data','max_size','len','msize','valid'):
        off,sz=m[f]; p.add_cell(b.a+off,sz,{'data':b.data,'max_size':b.max,'len':b.len,'msize':b.msize,'valid':b.valid}[f])
    gap=m[''][1]-(m['valid'][0]+m['valid'][1])
    if gap: p.add_chunk(Raw(b.a+m['valid'][0]+m['valid'][1],C(gap),'j'))
    p.add_tok(0,b.data,b.msize); p.add_chunk(Arr(b.data,1,p.norm(b.D+(('j',p.nf(b.msize-b.len)),))))
def buf_consume(cs,b):
    p=cs.p; m=b.m; lab='shape' if cs.mode=='verify' else 'pre'; c=cs.assume_or_check
    t=lambda f: p.take_cell(b.a+m[f][0],m[f][1],lab,'buffer field '+f)
    b.data=t('data'); b.max=t('max_size'); b.len=t('len'); b.msize=t('msize'); b.valid=t('valid')
    gap=m[''][1]-(m['valid'][0]+m['valid'][1])
    if gap: gather_range(p,b.a+m['valid'][0]+m['valid'][1],C(gap),lab,'buffer')
    c(And(ge(b.max,1),le(b.max,LIMIT),ge(b.msize,1),le(b.valid,1)),'shape','the fields of the buffer are in range')
    c(le(b.len,b.max),'shape','the length never exceeds the maximum size'); c(le(b.len,b.msize),'shape','the length never exceeds the allocated size')
    n=p.take_tok(0,b.data,'leak',"the buffer's memory")
    if n is None: p.hardfail('leak',"the buffer's memory is a live allocation")
    c(eq(n,b.msize),'shape','the recorded allocation size is the real one')
    b.D=take_arr(p,b.data,1,b.len,lab,'content of the buffer')
    gather_range(p,p.nf(b.data+b.len),p.nf(b.msize-b.len),lab,'spare memory of the buffer')
def buf_put(cs,b,D,valid,what,anycontent=False):
    """the buffer now holds D"""
    p=cs.p
    if cs.producing:
        n=B(); n.__dict__.update(b.__dict__); n.D=D; n.len=p.length(D); n.valid=L(valid); n.msize=p.freshv('msize',8,1,PMAX); n.data=p.freshv('data',8,4096,PMAX)
        p.assume(le(n.len,n.msize)); buf_produce(cs,n); return n
    n=B(); n.a=b.a; n.m=b.m; buf_consume(cs,n)
    if not anycontent: seqpost(cs,n.D,D,'content',what)
    cs.assume_or_check(eq(n.max,b.max),'config','the maximum size is unchanged')
    cs.assume_or_check(eq(n.valid,valid),'valid','the buffer is valid exactly when it should be')
    return n
@S('buffer_new','C18')
def _(cs):
    mx,=cs.args; p=cs.p; m=members(cs,'Buffer'); pre_max(cs,mx)
    yield
    a=cs.result(8,'buf',True)
    if cs.producing: p.assume(ge(a,4096))
    b=B(); b.a=a; b.m=m; b.max=mx; buf_put(cs,b,(),ONE,'a new buffer is empty'); tok_take(cs,a,m[''][1],0,'the new buffer')
def pre_max(cs,mx):
    f=And(ge(mx,1),le(mx,LIMIT))
    if cs.producing: cs.p.assume(f)
    else: cs.assume_or_check(f,'pre','maximum size in range')
@S('buffer_init','C18')
def _(cs):
    a,mx=cs.args; p=cs.p; m=members(cs,'Buffer'); pre_max(cs,mx)
    if cs.producing: p.assume(ge(a,4096)); p.assume(lt(a,PMAX)); p.add_chunk(Raw(a,C(m[''][1]),'j'))
    else: gather_range(p,a,C(m[''][1]),'pre','buffer object')
    yield
    b=B(); b.a=a; b.m=m; b.max=mx; buf_put(cs,b,(),ONE,'a new buffer is empty')
@S('buffer_free','C18')
def _(cs):
    a,=cs.args; p=cs.p; b=buf_take(cs,a)
    yield
    if cs.producing: p.add_chunk(Raw(a,C(b.m[''][1]),'j'))
    else: gather_range(p,a,C(b.m[''][1]),'shape','the buffer object')
@S('buffer_destroy','C18')
def _(cs):
    a,=cs.args; p=cs.p; b=buf_take(cs,a); tok_take(cs,a,b.m[''][1],0,'the buffer')
    yield
@S('buffer_clear','C18')
def _(cs):
    a,=cs.args; b=buf_take(cs,a)
    yield
    buf_put(cs,b,(),ONE,'a cleared buffer is valid and empty')
@S('buffer_len','C18')
def _(cs):
    a,=cs.args; p=cs.p; b=buf_take(cs,a)
    yield
    buf_put(cs,b,b.D,b.valid,'a query changes nothing')
    cs.assume_or_check(eq(cs.result(8,'n'),ite(p.nff(eq(b.valid,0)),0,b.len)),'ret','the number of bytes, zero for an invalid buffer')
@S('buffer_is_valid','C18')
def _(cs):
    a,=cs.args; p=cs.p; b=buf_take(cs,a)
    yield
    buf_put(cs,b,b.D,b.valid,'a query changes nothing')
    cs.assume_or_check(Iff(cs.result_bool(),eq(b.valid,1)),'ret','whether the buffer is valid')
@S('buffer_is_empty','C18')
def _(cs):
    a,=cs.args; p=cs.p; b=buf_take(cs,a)
    yield
    buf_put(cs,b,b.D,b.valid,'a query changes nothing')
    r=cs.result_bool()
    cs.assume_or_check(Imp(eq(b.valid,1),Iff(r,eq(b.len,0))),'ret','a valid buffer is empty exactly when it holds no byte')
def fill_post(cs,b,G,ok,n):
    """after writing G"""
    p=cs.p; g=n
    if p.choose(eq(b.valid,0),'invalid before'):
        buf_put(cs,b,b.D,ZERO,'a write to an invalid buffer changes nothing',anycontent=True); cs.assume_or_check(Not(ok),'ret','a write to an invalid buffer fails')
    elif p.choose(le(b.len+g,b.max),'fits'):
        buf_put(cs,b,b.D+G,ONE,'the buffer holds the old content followed by the written bytes'); cs.assume_or_check(ok,'ret','a write that fits succeeds')
    else:
        buf_put(cs,b,b.D,ZERO,'a write that does not fit makes the buffer invalid',anycontent=True); cs.assume_or_check(Not(ok),'ret','a write that does not fit fails')
@S('buffer_fill','C18')
def _(cs):
    # the source is only touched if the buffer is valid and has room: a caller may announce any length
    a,src,n=cs.args; p=cs.p; b=buf_take(cs,a); G=None
    fits=And(eq(b.valid,1),le(b.len+n,b.max))
    if cs.producing:
        if p.choose(fits,'fits'):
            G=(V(p.freshsv('G',BYTE)),); p.assume(eq(p.length(G),n)); p.add_region(src,n); p.add_chunk(Arr(src,1,G)); G=p.norm(G)
        else: p.assume(ge(src,1))
        hint(cs,lower=[],bounds=[])
    else:
        cs.assume_or_check(ge(src,1),'pre','source bytes')
        if p.choose(fits,'fits'):
            fr=gather_range(p,src,n,'pre','source bytes'); G=frags_to_seq(p,fr,1)
            if G is None: p.hardfail('unsupported','source of buffer_fill')
    yield
    if G is not None:
        if cs.producing: p.add_chunk(Arr(src,1,G))
        else:
            G2=take_arr(p,src,1,n,'shape','source bytes'); seqpost(cs,G2,G,'content','the source is unchanged')
    fill_post(cs,b,G,cs.result_bool(),n)
@S('buffer_fill_from_fd','C18')
def _(cs):
    a,fd,n=cs.args; p=cs.p; b=buf_take(cs,a)
    f=And(ge(n,1),le(n,b.max),lt(n,PMAX),lt(fd,1<<31))
    if cs.producing: p.assume(f); p.io=[]
    else: cs.assume_or_check(f,'pre','count in range')
    yield
    r=cs.result(8,'n'); M=1<<64
    if cs.mode=='call': p.hardfail('unsupported','call of buffer_fill_from_fd')
    if p.choose(eq(b.valid,0),'invalid before'):
        buf_put(cs,b,b.D,ZERO,'',anycontent=True)
        cs.assume_or_check(Or(eq(r,0),eq(r,M-1)),'ret','no bytes are appended to an invalid buffer')
        return
    if len(p.io)!=1: p.hardfail('ret','the file descriptor is read exactly once')
    got,G,f0,ask=p.io[0]
    cs.assume_or_check(And(eq(f0,fd),eq(ask,n)),'ret','the given descriptor is read, up to the given number of bytes')
    if p.choose(eq(got,M-1),'read failed'):
        buf_put(cs,b,b.D,ONE,'a failed read changes nothing'); cs.assume_or_check(eq(r,M-1),'ret','-1 if the read failed'); return
    G=p.norm(G)
    if p.choose(le(b.len+got,b.max),'fits'):
        buf_put(cs,b,b.D+G,ONE,'exactly the bytes that the read delivered are appended'); cs.assume_or_check(eq(r,got),'ret','the number of bytes read is returned')
    else:
        buf_put(cs,b,b.D,ZERO,'',anycontent=True); cs.assume_or_check(eq(r,M-1),'ret','-1 if the bytes did not fit')
# ---------------------------------------------------------------- reading
def target(cs,dst,ln):
    """*dst is NULL with *len 0, or memory from malloc of at least *len bytes"""
    p=cs.p; t=B(); t.dst=dst; t.ln=ln
    if cs.producing:
        p.add_region(dst,8); p.add_region(ln,8)
        t.p=p.freshv('target',8,0,PMAX); t.n=p.freshv('tlen',8,0,PMAX)
        p.add_cell(dst,8,t.p); p.add_cell(ln,8,t.n)
        if p.choose(eq(t.p,0),'no target yet'): p.assume(eq(t.n,0)); t.size=None
        else:
            t.size=p.freshv('tsize',8,0,PMAX); p.assume(ge(t.p,4096)); p.assume(le(t.n,t.size)); t.T=(V(p.freshsv('T',BYTE)),); p.assume(eq(p.length(t.T),t.size)); t.T=p.norm(t.T)
            p.add_tok(0,t.p,t.size); p.add_chunk(Arr(t.p,1,t.T))
    else: p.hardfail('unsupported','call of a buffer read')
    return t
def target_put(cs,t,content):
    """content None: unchanged; else the target starts with content and a terminator"""
    p=cs.p; c=cs.assume_or_check
    q=p.take_cell(t.dst,8,'shape','target'); n=p.take_cell(t.ln,8,'shape','target length')
    if content is None:
        c(And(eq(q,t.p),eq(n,t.n)),'target','without a result the target is left as it was')
        if t.size is None: return
        m=p.take_tok(0,q,'target','target')
        if m is None: p.hardfail('target','the target is still allocated')
        seqpost(cs,take_arr(p,q,1,t.size,'target','target'),t.T,'target','without a result the target is left as it was'); return
    m=p.take_tok(0,q,'target','target')
    if m is None: p.hardfail('target','the target is a live allocation')
    c(le(n,m),'target','the reported length never exceeds what the target can hold')
    k=p.length(content)
    if not p.oblige(le(k+1,m),'target','the target holds the bytes and the terminator'): pass
    seqpost(cs,take_arr(p,q,1,k+1,'target','target'),content+(('u',(ZERO,)),),'content','the target holds exactly the bytes, zero-terminated')
    gather_range(p,p.nf(q+k+1),p.nf(m-k-1),'target','rest of the target')
def split_nl(p,D):
    """D contains a newline: D = A ++ newline ++ B with no newline in A"""
    D=p.norm(D); A=()
    for pc in D:
        if pc[0]=='u':
            if p.choose(eq(pc[1][0],10),'newline'): break
        else:
            if p.choose(gt(p.attr((pc,),('cnt',NLP)),0),'newline here'):
                if not(pc[0]=='v' and pc[2] is None): p.hardfail('unsupported','newline')
                k=p.freshv('nl',8); p.assume(lt(k,p.length((pc,)))); a0=len(p.norm(A)); 
                e=p.splitat(pc[1],k); p.assume(eq(e[0],10)); D2=p.norm((pc,))
                i=[j for j,x in enumerate(D2) if x[0]=='u'][0]
                A=p.norm(A)+D2[:i]; p.assume(eq(p.attr(A,('cnt',NLP)),0)); break
        A=A+(pc,)
    A=p.norm(A); D=p.norm(D)
    return A,D[len(A)+1:]
@S('buffer_read_line','C19')
def _(cs):
    a,dst,ln=cs.args; p=cs.p; b=buf_take(cs,a); t=target(cs,dst,ln)
    if cs.producing: hint(cs,seqs=[b.D],bases=[(b.data,1)],count=[('eq',('fld',0),C(10))])
    yield
    r=cs.result_bool(); c=cs.assume_or_check
    if p.choose(eq(b.valid,0),'invalid'):
        c(Not(r),'ret','no line is read from an invalid buffer'); target_put(cs,t,None); buf_put(cs,b,b.D,b.valid,'',anycontent=True); return
    if not p.choose(gt(p.attr(b.D,('cnt',NLP)),0),'there is a newline'):
        c(Not(r),'ret','without a newline the result is false'); target_put(cs,t,None); buf_put(cs,b,b.D,b.valid,'without a newline nothing changes'); return
    c(r,'ret','with a newline the result is true')
    A,R=split_nl(p,b.D)
    target_put(cs,t,A); buf_put(cs,b,R,ONE,'exactly the line and its newline are removed')
@S('buffer_flush','C19')
def _(cs):
    a,dst,ln=cs.args; p=cs.p; b=buf_take(cs,a); t=target(cs,dst,ln)
    yield
    r=cs.result_bool()
    full=And(eq(b.valid,1),gt(b.len,0))
    cs.assume_or_check(Iff(r,full),'ret','true exactly when a valid buffer has content')
    target_put(cs,t,b.D if p.choose(full,'content') else None)
    buf_put(cs,b,b.D,b.valid,'the buffer is left as it is')
@S('buffer_to_string','C19')
def _(cs):
    a,=cs.args; p=cs.p; b=buf_take(cs,a)
    yield
    r=cs.result(8,'str',True)
    if cs.mode=='call': p.hardfail('unsupported','call of buffer_to_string')
    buf_put(cs,b,b.D,b.valid,'the buffer is left as it is')
    if p.choose(And(eq(b.valid,1),gt(b.len,0)),'content'):
        n=p.take_tok(0,r,'target','the string')
        if n is None: p.hardfail('target','the result is a live allocation')
        p.oblige(ge(n,b.len+1),'target','the string holds the bytes and the terminator')
        seqpost(cs,take_arr(p,r,1,p.nf(b.len+1),'target','string'),b.D+(('u',(ZERO,)),),'content','the string is the whole content, zero-terminated')
        gather_range(p,p.nf(r+b.len+1),p.nf(n-b.len-1),'target','string')
    else: cs.assume_or_check(eq(r,0),'ret','NULL when there is no content')
