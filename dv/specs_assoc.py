"""Contracts of assocarray.c (C15, C16)."""
from spec import *
from specs_list import hint,tok_take,find_unit,diff
from specs_stack import MAC
from heap import take_arr,gather_range
PAIR=ElemKind(('key',8),('value',8))
K0=('fld',0); V0=('fld',1)
class O: pass
def S(n,props='C15',unit='assocarray.c'): return spec(n,unit,props)
def mem(cs):
    m=dict(members(cs,'_AssocArray')); q=members(cs,'_AssocArrayPair'); o=m['pair'][0]
    m['p_array']=(o+q['array'][0],8); m['p_offset']=(o+q['offset'][0],8); return m
FIELDS=('compare_keys','keys','values','free_key','free_value','size','count','p_array','p_offset')
MAXSIZE=((1<<63)-1)//8
def freefns(cs,o):
    p=cs.p; p.ghostq=dict(p.ghostq)
    for f,g in(('free_key','fk'),('free_value','fv')):
        v=getattr(o,f); p.ghostq[g]=p.freshv('q'+g,8,1); p.ghost[g]=ZERO
        p.choose(eq(v,0),'no '+f); v=p.nf(v); setattr(o,f,v)
        if v.const()!=0: p.roles[v]=('free',g,g=='fv')
def take(cs,a,Sq=None):
    p=cs.p; o=O(); o.a=a; o.m=mem(cs)
    if cs.producing:
        p.add_region(a,o.m[''][1])
        o.S=Sq if Sq is not None else (V(p.freshsv('S',PAIR)),)
        o.compare=p.freshv('compare',8,4096,PMAX); p.roles[o.compare]=('compare','rank')
        o.free_key=p.freshv('freekey',8,0,PMAX); o.free_value=p.freshv('freeval',8,0,PMAX); freefns(cs,o)
        o.off=p.freshv('poff',8)
        produce(cs,o)
        hint(cs,seqs=[o.S],bases=[(o.keys,8),(o.values,8)],count=[('eq',K0,p.ghostq['fk']),('eq',V0,p.ghostq['fv'])])
    else: consume(cs,o)
    return o
RK=('uf','rank',0)
def srt(p,S): return eq(p.attr(S,('sorted',RK,True)),1)
def produce(cs,o):
    p=cs.p; m=o.m; n=p.length(o.S)
    o.keys=p.freshv('keys',8,4096,PMAX); o.values=p.freshv('values',8,4096,PMAX); o.size=p.freshv('size',8,8,MAXSIZE+1)
    p.assume(le(n,o.size)); p.assume(lt(o.size*8,PMAX)); p.assume(srt(p,o.S))
    vals=dict(compare_keys=o.compare,keys=o.keys,values=o.values,free_key=o.free_key,free_value=o.free_value,size=o.size,count=n,p_array=o.a,p_offset=o.off)
    for f in FIELDS: p.add_cell(o.a+m[f][0],8,vals[f])
    for i,x in((0,o.keys),(1,o.values)):
        p.add_tok(0,x,p.nf(o.size*8)); p.add_chunk(Arr(x,8,p.norm(p.mapseq(o.S,('proj',i))+(('j',p.nf(o.size-n)),))))
def zipseq(p,a,b):
    a=list(p.norm(a)); b=list(p.norm(b)); out=[]
    while a and b:
        x,y=a[0],b[0]
        if x[0]=='u' and y[0]=='u': out.append(('u',(x[1][0],y[1][0])))
        elif x[0]=='v' and y[0]=='v' and x[1] is y[1] and x[2]==('proj',0) and y[2]==('proj',1): out.append(('v',x[1],None))
        elif x[0]!='u' and p.isempty((x,)): a.pop(0); continue
        elif y[0]!='u' and p.isempty((y,)): b.pop(0); continue
        else: return None
        a.pop(0); b.pop(0)
    for x in a+b:
        if not(x[0]!='u' and p.isempty((x,))): return None
    return tuple(out)
def consume(cs,o):
    p=cs.p; m=o.m; c=cs.assume_or_check; lab='shape' if cs.mode=='verify' else 'pre'
    t=lambda f: p.take_cell(o.a+m[f][0],8,lab,'array field '+f)
    o.compare,o.keys,o.values,o.free_key,o.free_value,o.size,n,pa,o.off=[t(f) for f in FIELDS]
    c(eq(pa,o.a),'shape','the pair of the array refers to the array'); c(And(ge(o.size,1),le(n,o.size)),'shape','the count is within the size')
    for x,w in((o.keys,'keys'),(o.values,'values')):
        k=p.take_tok(0,x,'leak','the memory of the '+w)
        if k is None: p.hardfail('leak','the memory of the %s is a live allocation'%w)
        c(ge(k,o.size*8),'shape','the memory of the %s has the recorded size'%w)
        q=take_arr(p,x,8,n,lab,w); gather_range(p,p.nf(x+n*8),p.nf(k-n*8),lab,'spare '+w)
        setattr(o,'Q'+w,q)
    o.S=zipseq(p,o.Qkeys,o.Qvalues)
    if o.S is None:
        p.ver.nobl+=1
        p.hardfail('pairs','keys and values stay paired: %r / %r'%(o.Qkeys,o.Qvalues))
    c(srt(p,o.S),'sorted','the keys are strictly ascending')
def put(cs,o,S,what,off=None):
    p=cs.p
    if cs.producing:
        n=O(); n.__dict__.update(o.__dict__); n.S=S; n.off=off if off is not None else p.freshv('poff',8); produce(cs,n); return n
    n=O(); n.a=o.a; n.m=o.m; consume(cs,n)
    if S is not None: seqpost(cs,n.S,S,'pairs',what)
    cs.assume_or_check(And(eq(n.compare,o.compare),eq(n.free_key,o.free_key),eq(n.free_value,o.free_value)),'config','the functions of the array are unchanged')
    return n
def kpred(p,o,key):
    r=p.role_of(o.compare); assert r
    return frozenset([('eq',('uf',r[1],0),uf(r[1],key))])
def locate(cs,o,key):
    """the key is in the array: A, pair, B with S = A ++ pair ++ B; otherwise A, None, B (A below, B above)"""
    p=cs.p; q=kpred(p,o,key); t=uf('rank',key)
    if p.choose(gt(p.attr(o.S,('cnt',q)),0),'key present'):
        A=()
        for pc in p.norm(o.S):
            if pc[0]=='u':
                if p.choose(p.evalpreds(q,pc[1]),'the key'): break
            elif p.choose(gt(p.attr((pc,),('cnt',q)),0),'key in this part'):
                k=p.freshv('pos',8); p.assume(lt(k,p.length((pc,)))); e=p.splitat(pc[1],k); p.assume(p.evalpreds(q,e))
                D=p.norm((pc,)); j=[i for i,x in enumerate(D) if x[0]=='u'][0]; A=p.norm(A)+D[:j]; break
            A=A+(pc,)
        A=p.norm(A); Sx=p.norm(o.S); o.S=Sx; return A,Sx[len(A)][1],Sx[len(A)+1:]
    return None,None,None
def freed(cs,o,seq,key=True,val=True):
    p=cs.p
    for g,f,fl,on in(('fk','free_key',K0,key),('fv','free_value',V0,val)):
        if not on or p.nf(getattr(o,f)).const()==0 or g not in p.ghostq: continue
        cs.ghost(g,p.attr(seq,('cnt',frozenset([('eq',fl,p.ghostq[g])]))),desc='the %s functions are called exactly for what leaves the array'%f)
def key_arg(cs,k):
    if cs.producing: cs.p.assume(ne(k,0))
    else: cs.assume_or_check(ne(k,0),'pre','the key is not NULL')
def rank_hint(cs,o,key):
    hint(cs,rank=[(RK,uf('rank',key))])
def empty_array(cs,a,cmp,fk,fv):
    p=cs.p; o=O(); o.a=a; o.m=mem(cs); o.compare=cmp; o.free_key=fk; o.free_value=fv; o.off=ZERO
    put(cs,o,(),'a new array is empty')
@S('assoc_array_init')
def _(cs):
    a,cmp,fk,fv=cs.args; p=cs.p; m=mem(cs)
    if cs.producing: p.assume(ge(a,4096)); p.assume(lt(a,PMAX)); p.add_chunk(Raw(a,C(m[''][1]),'j'))
    else: gather_range(p,a,C(m[''][1]),'pre','array object')
    yield
    empty_array(cs,a,cmp,fk,fv)
@S('assoc_array_new')
def _(cs):
    cmp,fk,fv=cs.args; p=cs.p; m=mem(cs)
    yield
    a=cs.result(8,'array',True)
    if cs.producing: p.assume(ge(a,4096))
    empty_array(cs,a,cmp,fk,fv); tok_take(cs,a,m[''][1],0,'the new array')
@S('assoc_array_free','C15 C16')
def _(cs):
    a,=cs.args; p=cs.p; o=take(cs,a)
    yield
    freed(cs,o,o.S)
    if cs.producing: p.add_chunk(Raw(a,C(o.m[''][1]),'j'))
    else: gather_range(p,a,C(o.m[''][1]),'shape','the array object')
@S('assoc_array_destroy','C15 C16')
def _(cs):
    a,=cs.args; p=cs.p; o=take(cs,a); tok_take(cs,a,o.m[''][1],0,'the array')
    yield
    freed(cs,o,o.S)
@S('assoc_array_clear','C15 C16')
def _(cs):
    a,=cs.args; p=cs.p; o=take(cs,a)
    yield
    freed(cs,o,o.S); put(cs,o,(),'a cleared array is empty')
@S('assoc_array_set','C15 C16')
def _(cs):
    a,key,val,ow=cs.args; p=cs.p; key_arg(cs,key); o=take(cs,a); rank_hint(cs,o,key); ow=p.choose(p.boolv(ow),'overwrite key')
    if cs.mode=='call': p.hardfail('unsupported','call of assoc_array_set')
    if cs.producing: p.assume(lt(p.length(o.S)*16,PMAX))   # address space: the array can still grow
    yield
    r=cs.result(4,'result'); A,e,Bq=locate(cs,o,key)
    if e is not None:
        cs.assume_or_check(eq(r,1),'ret','set reports that the key was there')
        freed(cs,o,(('u',e),),key=ow)
        put(cs,o,A+(('u',(key if ow else e[0],val)),)+Bq,'the pair of the key gets the new value, all other pairs stay')
    else:
        cs.assume_or_check(eq(r,0),'ret','set reports that the key is new')
        n=put(cs,o,None,''); pre,x,y,post=diff(p,o.S,n.S)
        if not x and len(y)==1 and y[0][0]=='u':
            cs.assume_or_check(And(eq(y[0][1][0],key),eq(y[0][1][1],val)),'pairs','the new pair holds the given key and value')
        else: seqpost(cs,n.S,o.S+(('u',(key,val)),),'pairs','exactly the new pair is added')
@S('assoc_array_remove','C15 C16')
def _(cs):
    a,key=cs.args; p=cs.p; key_arg(cs,key); o=take(cs,a); rank_hint(cs,o,key)
    if cs.mode=='call': p.hardfail('unsupported','call of assoc_array_remove')
    yield
    A,e,Bq=locate(cs,o,key)
    if e is None: put(cs,o,o.S,'removing an absent key changes nothing')
    else: freed(cs,o,(('u',e),)); put(cs,o,A+Bq,'exactly the pair of the key is removed')
@S('assoc_array_lookup')
def _(cs):
    a,key=cs.args; p=cs.p; key_arg(cs,key); o=take(cs,a); rank_hint(cs,o,key)
    yield
    r=cs.result(8,'pair',True); A,e,Bq=locate(cs,o,key)
    if e is None:
        put(cs,o,o.S,'a lookup changes no pair'); cs.assume_or_check(eq(r,0),'ret','NULL for an absent key')
    else:
        n=put(cs,o,o.S,'a lookup changes no pair',off=p.length(A))
        cs.assume_or_check(eq(r,o.a+o.m['pair'][0]),'ret','the pair of the array is returned'); cs.assume_or_check(eq(n.off,p.length(A)),'ret','the pair refers to the entry of the key')
@S('assoc_array_key_exists')
def _(cs):
    a,key=cs.args; p=cs.p; key_arg(cs,key); o=take(cs,a); rank_hint(cs,o,key)
    yield
    put(cs,o,o.S,'a query changes no pair')
    cs.assume_or_check(Iff(cs.result_bool(),gt(p.attr(o.S,('cnt',kpred(p,o,key))),0)),'ret','true exactly for a present key')
@S('assoc_array_count')
def _(cs):
    a,=cs.args; p=cs.p; o=take(cs,a)
    yield
    put(cs,o,o.S,'a query changes no pair'); cs.assume_or_check(eq(cs.result(8,'n'),p.length(o.S)),'ret','the count is the number of pairs')
@S('assoc_array_size')
def _(cs):
    a,=cs.args; p=cs.p; o=take(cs,a)
    yield
    n=put(cs,o,o.S,'a query changes no pair'); cs.assume_or_check(ge(cs.result(8,'n'),p.length(o.S)),'ret','the size is at least the number of pairs')
# ---------------------------------------------------------------- pairs and iterators
def cursor(cs,pr,end=False):
    """pr is the pair of an array or a separate one and refers to an entry of the array (or, for end, may stand before the first or behind the last)"""
    p=cs.p; q=members(cs,'_AssocArrayPair')
    if not cs.producing: p.hardfail('unsupported','call of a pair function')
    A=(V(p.freshsv('A',PAIR)),); Bq=(V(p.freshsv('B',PAIR)),)
    e=p.newelem('e',PAIR); Sq=A+(('u',e),)+Bq
    if end:
        # positions: before entry e, or behind the last entry
        Sq=A+Bq
    a=p.freshv('array',8,4096,PMAX); o=take(cs,a,Sq); o.A=A; o.e=e; o.B=Bq; o.q=q; o.pr=pr
    pos=p.length(A); o.sep=True
    if not end and p.fork(None,'the pair of the array itself'):
        p.assume(eq(pr,a+o.m['pair'][0])); k=p.nf(a+o.m['p_offset'][0]); p.cells[k]=Cell(8,pos); o.off=pos; o.sep=False
    else:
        p.add_region(pr,q[''][1]); p.add_cell(pr+q['array'][0],8,a)
        p.add_cell(pr+q['offset'][0],8,pos if not end else p.fromsigned(pos-1,64))
    return o
def cursor_put(cs,o,S,what,pos):
    p=cs.p; c=cs.assume_or_check
    if o.sep:
        x=p.take_cell(o.pr+o.q['array'][0],8,'shape','pair'); y=p.take_cell(o.pr+o.q['offset'][0],8,'shape','pair')
        c(eq(x,o.a),'shape','the pair still refers to its array'); c(eq(y,pos),'iter','the position of the pair is right')
    n=put(cs,o,S,what)
    if not o.sep: c(eq(n.off,pos),'iter','the position of the pair is right')
def getter(i,what):
    def f(cs):
        pr,=cs.args; p=cs.p; o=cursor(cs,pr)
        yield
        cs.assume_or_check(eq(cs.result(8,'x'),o.e[i]),'ret','the %s of the entry is returned'%what)
        cursor_put(cs,o,o.S,'a query changes no pair',p.length(o.A))
    return f
for n,i,w in(('pair_get_key',0,'key'),('pair_get_value',1,'value'),('iter_get_key',0,'key'),('iter_get_value',1,'value')): spec('assoc_array_'+n,'assocarray.c','C15')(getter(i,w))
for n,i,w in(('pair_key',0,'key'),('pair_value',1,'value'),('iter_key',0,'key'),('iter_value',1,'value')): spec('vf_assoc_'+n,MAC,'C15')(getter(i,w))
@S('assoc_array_pair_set_value','C15 C16')
def _(cs):
    pr,val=cs.args; p=cs.p; o=cursor(cs,pr)
    yield
    freed(cs,o,(('u',o.e),),key=False)
    cursor_put(cs,o,o.A+(('u',(o.e[0],val)),)+o.B,'exactly the value of the entry changes',p.length(o.A))
@S('assoc_array_iter_init')
def _(cs):
    a,it=cs.args; p=cs.p; o=take(cs,a); q=members(cs,'_AssocArrayPair')
    if cs.producing: p.assume(ge(it,4096)); p.assume(lt(it,PMAX)); p.add_chunk(Raw(it,C(q[''][1]),'j'))
    else: gather_range(p,it,C(q[''][1]),'pre','iterator object')
    yield
    cs.give(it+q['array'][0],8,a,'iter','the iterator refers to the array'); cs.give(it+q['offset'][0],8,C((1<<64)-1),'iter','the iterator stands before the first entry')
    put(cs,o,o.S,'a query changes no pair')
@S('assoc_array_iter_next')
def _(cs):
    it,=cs.args; p=cs.p; o=cursor(cs,it,end=True)
    yield
    # |A| entries have been passed: the next one is the first of B
    cs.assume_or_check(Iff(cs.result_bool(),gt(p.length(o.B),0)),'iter','there is a next entry exactly if not all have been visited')
    cursor_put(cs,o,o.S,'iterating changes no pair',p.length(o.A))
