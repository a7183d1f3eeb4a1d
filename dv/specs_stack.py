"""Contracts of stack.c, stack.h and queue.h (C06).  A stack and a queue are singly linked lists: the contracts say
what each operation does to the sequence."""
from spec import *
from specs_list import tok_take,new_list,firstof,hint
MAC=os.path.join(os.path.dirname(os.path.abspath(__file__)),'c','macros.c')
def out_cell(cs,a,what='the result'):
    """*a is memory of the caller, 8 bytes"""
    p=cs.p
    if cs.producing: 
        p.assume(ge(a,4096)); p.assume(lt(a,PMAX)); p.add_cell(a,8,p.freshv('out',8)); return None
    return p.take_cell(a,8,'shape' if cs.phase else 'pre',what)
def define(name,unit,f): spec(name,unit,'C06')(f)
def pop(cs):
    st,out=cs.args; p=cs.p; o=list_take(cs,st); old=out_cell_take(cs,out)
    yield
    r=cs.result_bool(); n=p.length(o.S)
    cs.assume_or_check(Iff(r,gt(n,0)),'ret','pop succeeds exactly when there is an item')
    if p.choose(eq(n,0),'empty'):
        list_put(cs,o,()); cs.give(out,8,ZERO,'ret','an unsuccessful pop stores NULL')
    else:
        e,rest=firstof(p,o.S)
        list_put(cs,o,rest,'pop removes exactly the first item'); cs.give(out,8,e[1],'ret','pop stores the data of the first item')
def out_cell_take(cs,a):
    p=cs.p
    if cs.producing:
        v=p.freshv('out',8); p.assume(ge(a,4096)); p.assume(lt(a,PMAX)); p.add_region(a,8); p.add_cell(a,8,v); return v
    return p.take_cell(a,8,'pre','result cell')
def head(cs):
    st,out=cs.args; p=cs.p; o=list_take(cs,st); old=out_cell_take(cs,out)
    yield
    r=cs.result_bool(); n=p.length(o.S)
    cs.assume_or_check(Iff(r,gt(n,0)),'ret','head succeeds exactly when there is an item')
    list_put(cs,o,o.S,'a query does not change the sequence')
    if p.choose(eq(n,0),'empty'): cs.give(out,8,old,'ret','nothing is stored without an item') if False else out_any(cs,out)
    else: cs.give(out,8,firstof(p,o.S)[0][1],'ret','head stores the data of the first item')
def out_any(cs,out):
    p=cs.p
    if cs.producing: p.add_cell(out,8,p.freshv('out',8))
    else: p.take_cell(out,8,'shape','result cell')
define('stack_pop','stack.c',pop); define('stack_head','stack.c',head)
define('vf_queue_pop',MAC,pop); define('vf_queue_head',MAC,head)
def init(cs):
    l,cmp,fr,pool=cs.args; m=members(cs,'SList'); p=cs.p
    if cs.producing: p.assume(ge(l,4096)); p.assume(lt(l,PMAX)); p.add_chunk(Raw(l,C(m[''][1]),'j'))
    else: gather_range(p,l,C(m[''][1]),'pre','list object')
    yield
    new_list(cs,l,False,cmp,fr,pool,'init')
def new(cs):
    cmp,fr,pool=cs.args; m=members(cs,'SList')
    yield
    l=cs.result(8,'list',True)
    if cs.producing: cs.p.assume(ge(l,4096))
    new_list(cs,l,False,cmp,fr,pool,'new'); tok_take(cs,l,m[''][1],0,'the new list')
def push(front):
    def f(cs):
        l,data=cs.args; p=cs.p; o=list_take(cs,l)
        yield
        if cs.mode=='verify':
            n=LObj(); n.addr=o.addr; n.doubly=False; n.k=o.k; n.m=o.m
            list_consume(cs,n); S=p.norm(n.S)
            ok=S and (S[0] if front else S[-1])[0]=='u'
            if not ok: seqpost(cs,S,o.S+(('u',(data,data)),),'seq','a push adds one item'); return
            u=S[0] if front else S[-1]
            seqpost(cs,S[1:] if front else S[:-1],o.S,'seq','a push adds one item at the %s and keeps the others'%('front' if front else 'back'))
            cs.assume_or_check(eq(u[1][1],data),'seq','the item holds the pushed data')
            cs.assume_or_check(And(eq(n.compare,o.compare),eq(n.free,o.free),eq(n.pool,o.pool)),'config','the functions and the pool are unchanged')
    return f
def clear(cs):
    l,=cs.args; p=cs.p; o=list_take(cs,l)
    if cs.mode=='verify' and 'free' in p.ghostq: hint(cs,count=[('eq',DATA,p.ghostq['free'])])
    yield
    cs.ghost('free',freed_delta(cs,o,o.S)); list_put(cs,o,(),'a cleared container is empty')
def free_(cs):
    l,=cs.args; p=cs.p; o=list_take(cs,l); m=o.m
    if cs.mode=='verify' and 'free' in p.ghostq: hint(cs,count=[('eq',DATA,p.ghostq['free'])])
    yield
    cs.ghost('free',freed_delta(cs,o,o.S))
    for f in('head','tail','count'): p.take_cell(l+m[f][0],8,'shape','list')
    for f in('compare','free','pool'): cs.give(l+m[f][0],8,getattr(o,f),'config','list function')
def destroy(cs):
    l,=cs.args; p=cs.p; o=list_take(cs,l); tok_take(cs,l,o.m[''][1],0,'the list')
    if cs.mode=='verify' and 'free' in p.ghostq: hint(cs,count=[('eq',DATA,p.ghostq['free'])])
    yield
    cs.ghost('free',freed_delta(cs,o,o.S))
def count(cs):
    l,=cs.args; p=cs.p; o=list_take(cs,l)
    yield
    list_put(cs,o,o.S,'a query does not change the sequence')
    cs.assume_or_check(eq(cs.result(8,'n'),p.length(o.S)),'ret','the count is the number of items')
for c in('stack','queue'):
    for n,f in(('new',new),('init',init),('destroy',destroy),('free',free_),('clear',clear),('count',count),('push',push(c=='stack'))):
        define('vf_%s_%s'%(c,n),MAC,f)
