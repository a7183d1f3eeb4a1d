"""Contracts of compare.c and hash.c (C20)."""
from spec import *
from world import newstr,lcp,strbyte,find_str
from specs_list import hint
S=lambda n,u,**k: spec(n,u,'C20',**k)
def string(cs,a,name):
    p=cs.p
    if cs.producing:
        n=p.freshv(name,8,0,PMAX); p.assume(ge(a,4096)); p.assume(lt(a+n,PMAX)); newstr(p,a,n); return n
    s,n,o=find_str(p,a); return p.nf(n-o)
@S('str_equal','compare.c')
def _(cs):
    a,b=cs.args; p=cs.p
    n=string(cs,a,'len'); m=string(cs,b,'len'); l=lcp(p,a,n,b,m)
    hint(cs,bounds=[a+l,b+l,l,C(0)+l-1],parallel=True)
    yield
    r=cs.result_bool()
    if cs.mode=='verify':
        # facts of the definition of the common prefix at the places that matter for the result
        for x in (p.nf(a+l),p.nf(b+l)): strbyte(p,x)
    cs.assume_or_check(Iff(r,And(eq(n,m),eq(n,l))),'ret','true exactly for strings with the same bytes')
def known(cs,*xs):
    for x in xs:
        if cs.producing: cs.p.assume(ne(x,0))
        else: cs.assume_or_check(ne(x,0),'pre','not NULL')
@S('direct_compare','compare.c',fullptr=True)
def _(cs):
    a,b=cs.args; p=cs.p; known(cs,a,b)
    yield
    r=cs.result(4,'cmp')
    cs.assume_or_check(Iff(eq(r,0),eq(a,b)),'ret','zero exactly for equal pointers')
    cs.assume_or_check(Iff(And(gt(r,0),lt(r,1<<31)),gt(a,b)),'ret','positive exactly when the first pointer is above')
    cs.assume_or_check(Iff(ge(r,1<<31),lt(a,b)),'ret','negative exactly when the first pointer is below')
@S('direct_equal','compare.c',fullptr=True)
def _(cs):
    a,b=cs.args; known(cs,a,b)
    yield
    cs.assume_or_check(Iff(cs.result_bool(),eq(a,b)),'ret','true exactly for equal pointers')
@S('str_hash','hash.c')
def _(cs):
    a,=cs.args; p=cs.p; n=string(cs,a,'len')
    p.folds=p.folds+(a,); p.assume(eq(uf('sdbm',p.nf(a)),0))
    hint(cs,bounds=[a+n,n],fold=[('sdbm',a)],lower=[a])
    yield
    r=cs.result(4,'hash')
    cs.assume_or_check(eq(r,uf('sdbm',p.nf(a+n))),'ret','the digest of all characters up to the terminator')
@S('direct_hash','hash.c',fullptr=True)
def _(cs):
    a,=cs.args
    yield
    m=C((1<<32)-1)
    cs.assume_or_check(eq(cs.result(4,'hash'),ite(le(a,m),a,m)),'ret','the pointer value, saturated')
