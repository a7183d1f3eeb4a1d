"""Contracts of slist.c and list.c (C01..C05)."""
from spec import *

def tok_take(cs,addr,size,owner=0,what='object'):
    p=cs.p
    if cs.producing: p.add_tok(owner,p.nf(addr),size)
    else:
        n=p.take_tok(owner,addr,'leak' if cs.mode=='verify' else 'pre',what)
        if n is None: p.hardfail('leak' if cs.mode=='verify' else 'pre','%s is a live allocation'%what)
        cs.assume_or_check(eq(n,size),'shape','%s has its full size'%what)
def hint(cs,**kw):
    if cs.mode=='verify': cs.p.hints=dict(cs.p.hints,**kw)
def new_list(cs,l,doubly,compare,free,pool,what):
    """post: an empty list with the given configuration at l"""
    p=cs.p; o=LObj(); o.addr=l; o.doubly=doubly; o.k=list_kind(cs,doubly); o.m=members(cs,'List' if doubly else 'SList'); o.compare=compare; o.free=free; o.pool=pool; o.owner=pool
    if cs.producing: list_produce(cs,o,())
    else:
        n=LObj(); n.__dict__.update(o.__dict__); list_consume(cs,n)
        seqpost(cs,n.S,(),'seq','a new list is empty')
        cs.assume_or_check(And(eq(n.compare,compare),eq(n.free,free),eq(n.pool,pool)),'config','a new list has the given functions and pool')
def find_unit(p,seq,addr):
    """position of the item with that address in a sequence, or None"""
    seq=p.norm(seq); addr=p.nf(addr)
    for i,pc in enumerate(seq):
        if pc[0]=='u' and p.nf(pc[1][0])==addr: return i
    for i,pc in enumerate(seq):
        if pc[0]=='u' and p.valid(eq(pc[1][0],addr)): return i
    return None
def item_in(cs,o,item):
    """split the list at an item that belongs to it -> (before, element, after)"""
    p=cs.p
    if cs.producing and cs.mode=='verify': raise Exception
    i=find_unit(p,o.S,item)
    if i is None: p.hardfail('pre','precondition of %s: the item belongs to the list'%cs.name)
    return o.S[:i],o.S[i][1],o.S[i+1:]
def list_with_item(cs,l,item,doubly):
    p=cs.p; k=list_kind(cs,doubly)
    if cs.producing:
        A=(V(p.freshsv('A',k.ek)),); B=(V(p.freshsv('B',k.ek)),); e=p.newelem('item',k.ek)
        p.assume(eq(e[0],item)); e=tuple(p.nf(x) for x in e)
        o=list_take(cs,l,doubly,A+(('u',e),)+B); return o,A,e,B
    o=list_take(cs,l,doubly); A,e,B=item_in(cs,o,item); return o,A,e,B
def diff(p,a,b):
    """strip common prefix and suffix"""
    a=list(p.norm(a)); b=list(p.norm(b)); pre=[]; post=[]
    def same(x,y): return x==y or (x[0]=='u' and y[0]=='u' and p.valid(And(*[eq(i,j) for i,j in zip(x[1],y[1])])))
    def empt(x): return x[0]!='u' and p.isempty((x,))
    while True:
        if a and b and same(a[0],b[0]): pre.append(a.pop(0)); b.pop(0)
        elif a and empt(a[0]): a.pop(0)
        elif b and empt(b[0]): b.pop(0)
        else: break
    while True:
        if a and b and same(a[-1],b[-1]): post.insert(0,a.pop()); b.pop()
        elif a and empt(a[-1]): a.pop()
        elif b and empt(b[-1]): b.pop()
        else: break
    return tuple(pre),tuple(a),tuple(b),tuple(post)

def define(prefix,unit,doubly,P1):
    sn='List' if doubly else 'SList'
    S=lambda n,props,**kw: spec(prefix+n,unit,props,**kw)
    MEM='memory,leak,shape,pre,loop,timeout,unsupported'
    @S('init',P1)
    def _(cs):
        l,cmp,fr,pool=cs.args; p=cs.p; m=members(cs,sn)
        if cs.producing:
            p.assume(ge(l,4096)); p.assume(lt(l,PMAX))
            p.add_chunk(Raw(l,C(m[''][1]),'j'))
        else: gather_range(p,l,C(m[''][1]),'pre','list object')
        yield
        new_list(cs,l,doubly,cmp,fr,pool,'init')
    @S('new',P1)
    def _(cs):
        cmp,fr,pool=cs.args; m=members(cs,sn)
        yield
        l=cs.result(8,'list',True)
        if cs.producing: cs.p.assume(ge(l,4096))
        new_list(cs,l,doubly,cmp,fr,pool,'new'); tok_take(cs,l,m[''][1],0,'the new list')
    @S('append',P1)
    def _(cs):
        l,data=cs.args; o=list_take(cs,l,doubly)
        yield
        list_put(cs,o,o.S+(fresh_elem(cs,o,data),))
    @S('prepend',P1)
    def _(cs):
        l,data=cs.args; o=list_take(cs,l,doubly)
        yield
        list_put(cs,o,(fresh_elem(cs,o,data),)+o.S)
    @S('pop',P1+' C05')
    def _(cs):
        l,=cs.args; p=cs.p; o=list_take(cs,l,doubly)
        yield
        if p.choose(eq(p.length(o.S),0),'empty'):
            list_put(cs,o,()); r=cs.result(8,'data')
            cs.assume_or_check(eq(r,0),'ret','pop of an empty list returns NULL')
        else:
            e,rest=firstof(p,o.S)
            list_put(cs,o,rest); r=cs.result(8,'data')
            cs.assume_or_check(eq(r,e[1]),'ret','pop returns the data of the first item')
    @S('insert_sorted','C03')
    def _(cs):
        l,data=cs.args; p=cs.p; o=list_take(cs,l,doubly)
        fn=('uf',rank_of(cs,o.compare) or 'rank',1)
        s0=p.attr(o.S,('sorted',fn,False))
        t=uf(fn[1],data)
        if cs.mode=='verify': p.choose(eq(s0,1),'sorted before')
        hint(cs,rank=[(fn,t)])
        yield
        if cs.mode=='call':
            k=p.freshv('pos',8); 
            if len(o.S)==1 and o.S[0][0]=='v' and o.S[0][2] is None: p.assume(le(k,p.length(o.S))); p.cutat(o.S[0][1],k); q=p.norm(o.S)
            elif not o.S: q=((),())
            else: p.hardfail('unsupported','sorted insertion into a composite list')
            e=fresh_elem(cs,o,data); S2=(q[0],e,q[1]) if o.S else (e,)
            list_produce(cs,o,S2)
            p.assume(Imp(eq(s0,1),eq(p.attr(S2,('sorted',fn,False)),1)))
            return
        r=cs.result(8,'item',True)
        n=LObj(); n.addr=o.addr; n.doubly=doubly; n.k=o.k; n.m=o.m
        list_consume(cs,n)
        i=find_unit(p,n.S,r)
        seqpost(cs,n.S[:i]+n.S[i+1:] if i is not None else n.S+(('j',ONE),),o.S,'seq','insertion adds exactly the returned item and keeps the others in order')
        if i is not None: cs.assume_or_check(eq(n.S[i][1][1],data),'seq','the new item holds the given data')
        cs.assume_or_check(And(eq(n.compare,o.compare),eq(n.free,o.free),eq(n.pool,o.pool)),'config','the functions and the pool of the list are unchanged')
        cs.assume_or_check(Imp(eq(s0,1),eq(p.attr(n.S,('sorted',fn,False)),1)),'sorted','a sorted list is sorted after the insertion')
    @S('remove',P1+' C05')
    def _(cs):
        l,item=cs.args; p=cs.p
        o,A,e,B=list_with_item(cs,l,item,doubly)
        hint(cs,count=[('eq',DATA,p.ghostq['free'])] if cs.mode=='verify' else [],ne=[item])
        yield
        cs.ghost('free',freed_delta(cs,o,(('u',e),)))
        list_put(cs,o,A+B)
    @S('remove_by_data',P1+' C05')
    def _(cs):
        l,data,al=cs.args; p=cs.p
        o=list_take(cs,l,doubly); mp=matchpred(cs,o,data)
        hint(cs,filter=[mp],count=[('eq',DATA,p.ghostq['free'])])
        al=p.choose(p.boolv(al),'remove all')
        if cs.mode=='call': p.hardfail('unsupported','call of remove_by_data')
        yield
        fs=frozenset([mp]); q=('eq',DATA,p.ghostq['free'])
        n=LObj(); n.addr=o.addr; n.doubly=doubly; n.k=o.k; n.m=o.m
        if al:
            cs.ghost('free',ZERO if o.free.const()==0 else p.attr(o.S,('cnt',frozenset([mp,q]))))
            list_put(cs,o,p.mapseq(p.norm(o.S),('filt',fs)),'exactly the items whose data matches are gone')
        else:
            list_consume(cs,n)
            pre,a,b,post=diff(p,o.S,n.S)
            c=lambda s: p.attr(s,('cnt',fs))
            if not a and not b:
                cs.assume_or_check(eq(c(o.S),0),'seq','nothing is removed only if nothing matches')
            elif len(a)==1 and a[0][0]=='u' and not b:
                cs.assume_or_check(And(p.nff(p.evalpreds(fs,a[0][1])),eq(c(pre),0)),'seq','the first matching item is removed')
                cs.ghost('free',freed_delta(cs,o,a))
            else: seqpost(cs,n.S,o.S,'seq','at most one item is removed and the others stay')
            cs.assume_or_check(And(eq(n.compare,o.compare),eq(n.free,o.free),eq(n.pool,o.pool)),'config','the functions and the pool of the list are unchanged')
    @S('clear',P1+' C05')
    def _(cs):
        l,=cs.args; p=cs.p; o=list_take(cs,l,doubly)
        if cs.mode=='verify': hint(cs,count=[('eq',DATA,p.ghostq['free'])])
        yield
        cs.ghost('free',freed_delta(cs,o,o.S))
        list_put(cs,o,(),'a cleared list is empty')
    @S('free','C05')
    def _(cs):
        l,=cs.args; p=cs.p; o=list_take(cs,l,doubly)
        if cs.mode=='verify': hint(cs,count=[('eq',DATA,p.ghostq['free'])])
        yield
        cs.ghost('free',freed_delta(cs,o,o.S))
        m=o.m
        for f in('head','tail','count'):
            if cs.producing: p.add_cell(l+m[f][0],8,p.freshv('dead',8,0,PMAX if f!='count' else None))
            else: p.take_cell(l+m[f][0],8,'shape','list')
        for f in('compare','free','pool'): cs.give(l+m[f][0],8,getattr(o,f),'config','list function')
    @S('destroy','C05')
    def _(cs):
        l,=cs.args; p=cs.p; o=list_take(cs,l,doubly); tok_take(cs,l,o.m[''][1],0,'the list')
        yield
        cs.ghost('free',freed_delta(cs,o,o.S))
    @S('find','C04')
    def _(cs):
        l,off,data=cs.args; p=cs.p
        if p.choose(eq(off,0),'no offset'):
            o=list_take(cs,l,doubly); A=(); rest=o.S
        else:
            o,A,e,B=list_with_item(cs,l,off,doubly); rest=(('u',e),)+B
        mp=matchpred(cs,o,data); fs=frozenset([mp]); hint(cs,filter=[mp],suffix=[rest])
        yield
        r=cs.result(8,'found',True)
        if cs.mode=='call':
            find_produce(cs,o,A,rest,r,fs); return
        n=list_put(cs,o,o.S,'a search does not change the list')
        if p.choose(eq(r,0),'nothing found'):
            cs.assume_or_check(eq(p.attr(rest,('cnt',fs)),0),'ret','nothing is returned only if no item at or after the start matches')
        else:
            i=find_unit(p,rest,r)
            if i is None:
                if p.oblige(False,'ret','the returned item lies at or after the start',hard=True): pass
            rest=p.norm(rest)
            cs.assume_or_check(p.evalpreds(fs,rest[i][1]),'ret','the data of the returned item matches')
            if not doubly: cs.assume_or_check(eq(p.attr(rest[:i],('cnt',fs)),0),'ret','the returned item is the first match')
    @S('contains','C04')
    def _(cs):
        l,data=cs.args; p=cs.p; o=list_take(cs,l,doubly)
        mp=matchpred(cs,o,data); fs=frozenset([mp]); hint(cs,filter=[mp])
        yield
        r=cs.result_bool()
        list_put(cs,o,o.S,'a search does not change the list')
        cs.assume_or_check(Iff(r,gt(p.attr(o.S,('cnt',fs)),0)),'ret','the answer is whether a match exists')
    @S('count',P1)
    def _(cs):
        l,=cs.args; p=cs.p; o=list_take(cs,l,doubly)
        yield
        list_put(cs,o,o.S,'a query does not change the list')
        cs.assume_or_check(eq(cs.result(8,'n'),p.length(o.S)),'ret','the count is the number of items')
    @S('head',P1)
    def _(cs):
        l,=cs.args; p=cs.p; o=list_take(cs,l,doubly)
        yield
        list_put(cs,o,o.S,'a query does not change the list')
        cs.assume_or_check(eq(cs.result(8,'h',True),ite(p.nff(gt(p.length(o.S),0)),p.attr(o.S,('first',('fld',0))),0)),'ret','the head is the first item, or none')
    if doubly:
        @S('tail',P1)
        def _(cs):
            l,=cs.args; p=cs.p; o=list_take(cs,l,doubly)
            yield
            list_put(cs,o,o.S,'a query does not change the list')
            cs.assume_or_check(eq(cs.result(8,'h',True),lastaddr(p,o.S,ZERO)),'ret','the tail is the last item, or none')
    @S('empty',P1)
    def _(cs):
        l,=cs.args; p=cs.p; o=list_take(cs,l,doubly)
        yield
        list_put(cs,o,o.S,'a query does not change the list')
        cs.assume_or_check(Iff(cs.result_bool(),eq(p.length(o.S),0)),'ret','empty exactly when there is no item')
    @S('item_free_data','C05')
    def _(cs):
        l,item=cs.args; p=cs.p
        o,A,e,B=list_with_item(cs,l,item,doubly)
        yield
        cs.ghost('free',freed_delta(cs,o,(('u',e),)))
        list_put(cs,o,A+(('u',(e[0],ZERO)),)+B,'the data of the item is NULL and nothing else changes')
def firstof(p,S):
    """S is nonempty: first element and rest"""
    S=p.norm(S)
    while S[0][0]=='v':
        if p.choose(gt(p.length(S[:1]),0),'first piece'): p.splitfirst(S[0][1]); S=p.norm(S)
        else: S=S[1:]
    return S[0][1],S[1:]
def find_produce(cs,o,A,rest,r,fs):
    p=cs.p
    if not p.fork(None,'search finds something'):
        p.assume(eq(r,0)); p.assume(eq(p.attr(rest,('cnt',fs)),0)); list_produce(cs,o,o.S); return
    rest=p.norm(rest); i=p.branch(len(rest),'where')
    if i>=len(rest): raise PathEnd()
    if rest[i][0]=='v':
        k=p.freshv('k',8); p.assume(lt(k,p.length(rest[i:i+1]))); e=p.splitat(rest[i][1],k)
    else: e=rest[i][1]
    p.assume(eq(r,e[0])); p.assume(p.evalpreds(fs,e))
    rest=p.norm(rest); j=find_unit(p,rest,r)
    if not o.doubly: p.assume(eq(p.attr(rest[:j],('cnt',fs)),0))
    list_produce(cs,o,p.norm(o.S))
define('slist_','slist.c',False,'C01')
define('list_','list.c',True,'C02')
