"""Vocabulary of the contracts."""
from world import *

SPECS={}
class Spec:
    def __init__(s,name,run,static,unit,props,fullptr): s.fullptr=fullptr; s.name=name; s.run=run; s.static=static; s.unit=unit; s.props=props
def spec(name,unit,props='',static=False,fullptr=False):
    def d(f): SPECS[name]=Spec(name,f,static,unit,props,fullptr); return f
    return d

def members(cs,name): return cs.p.world.members(cs.p.mod,name)
SEQ='seq'
def seqpost(cs,actual,expected,label,desc):
    """verify: the actual sequence is the expected one"""
    p=cs.p
    ok=p.seq_eq(actual,expected)
    lab=label if cs.mode=='verify' else 'pre'
    p.ver.nobl+=1
    p.ver.note_obl(lab,desc,p.line,ok)
    if not ok:
        def unreach():
            r,m=p.ver.solver.check(p,True); return r==z3.unsat
        if p._m(unreach,'h'): raise PathEnd()
        if p.ver.inloopcheck: raise Retry()
        p.ver.fail(p,lab,desc,'%r   expected   %r'%(p.norm(actual),p.norm(expected)))

_KINDS={}
def list_kind(cs,doubly):
    st='ListItem' if doubly else 'SListItem'
    m=members(cs,st)
    nx,dt=m['next'][0],m['data'][0]; tot=m[''][1]; pv=m['prev'][0] if doubly else None
    key=(st,nx,dt,pv,tot)
    if key not in _KINDS:
        _KINDS[key]=NodeKind(st,tot,[('data',dt,8)],nx,pv)
    return _KINDS[key]

class LObj: pass
DATA=('fld',1)
def rank_of(cs,cmp):
    r=cs.p.role_of(cmp)
    return r[1] if r is not None and r[0]=='compare' else None

def list_take(cs,l,doubly=False,seq=None,ro=False):
    """the list object at l.  Produces an arbitrary list, or consumes the list there; returns its description"""
    p=cs.p; o=LObj(); o.addr=l; o.doubly=doubly; o.k=list_kind(cs,doubly)
    m=o.m=members(cs,'List' if doubly else 'SList')
    pre=cs.phase==0
    if cs.producing:
        o.S=seq if seq is not None else (V(p.freshsv('S',o.k.ek)),)
        o.compare=p.freshv('compare',8,4096,PMAX); p.roles[o.compare]=('compare','rank')
        o.free=p.freshv('freefn',8,0,PMAX); o.pool=p.freshv('pool',8,0,PMAX)
        p.add_region(l,m[''][1])
        p.ghostq=dict(p.ghostq); q=p.freshv('q',8,1); p.ghostq['free']=q; p.ghost['free']=ZERO
        p.choose(eq(o.free,0),'no free function'); p.choose(eq(o.pool,0),'no pool')
        o.free=p.nf(o.free); o.pool=p.nf(o.pool)
        if o.free.const()!=0: p.roles[o.free]=('free','free',True)
        if o.pool.const()!=0: p.add_pool(o.pool)
        p.poolsize=o.k.size
        o.owner=o.pool
        list_produce(cs,o,o.S)
    else:
        list_consume(cs,o)
    return o
def list_produce(cs,o,S):
    p=cs.p; m=o.m; l=o.addr; k=o.k
    n=p.length(S)
    f=p.attr(S,('first',('fld',0))); la=p.attr(S,('last',('fld',0)))
    x=p.freshv('head',8,0,PMAX); t=p.freshv('tail',8,0,PMAX)
    p.assume(Imp(gt(n,0),And(eq(x,f),eq(t,la)))); p.assume(Imp(eq(n,0),And(eq(x,0),eq(t,0))))
    p.add_cell(l+m['head'][0],8,x); p.add_cell(l+m['tail'][0],8,t); p.add_cell(l+m['count'][0],8,n)
    p.add_cell(l+m['compare'][0],8,o.compare); p.add_cell(l+m['free'][0],8,o.free); p.add_cell(l+m['pool'][0],8,o.pool)
    p.add_chunk(LSeg(k,x,0,S,o.owner,C(0) if o.doubly else None,t if o.doubly else None))
def list_consume(cs,o):
    p=cs.p; m=o.m; l=o.addr; k=o.k
    lab='shape' if cs.mode=='verify' else 'pre'
    o.compare=p.take_cell(l+m['compare'][0],8,lab,'list'); o.free=p.take_cell(l+m['free'][0],8,lab,'list'); o.pool=p.take_cell(l+m['pool'][0],8,lab,'list')
    o.owner=o.pool
    x=p.take_cell(l+m['head'][0],8,lab,'list'); t=p.take_cell(l+m['tail'][0],8,lab,'list'); n=p.take_cell(l+m['count'][0],8,lab,'list')
    o.S,last=gather(p,k,x,0,o.owner,lab,C(0) if o.doubly else None)
    c=cs.assume_or_check
    c(eq(t,lastaddr(p,o.S,ZERO)),'shape','the tail is the last item of the list, and none when the list is empty')
    c(eq(n,p.length(o.S)),'count','the count is the number of items')
    if o.compare.const() is None and p.role_of(o.compare) is None and p.nf(o.compare).atom() is not None and not p.nf(o.compare).atom().name.startswith('fn:'): pass
def list_put(cs,o,S,what='the list holds exactly the specified sequence of items and data',keep=True):
    """the list o now holds S (checked or assumed)"""
    p=cs.p
    if cs.producing: list_produce(cs,o,S)
    else:
        n=LObj(); n.addr=o.addr; n.doubly=o.doubly; n.k=o.k; n.m=o.m
        list_consume(cs,n)
        seqpost(cs,n.S,S,'seq',what)
        cs.assume_or_check(And(eq(n.compare,o.compare),eq(n.free,o.free),eq(n.pool,o.pool)),'config','the functions and the pool of the list are unchanged')
        return n
def fresh_elem(cs,o,data):
    """the new node: in verify mode found in the actual list"""
    p=cs.p
    a=cs.result(8,'item',True)
    if cs.mode=='call': p.assume(ge(a,4096))
    return ('u',(p.nf(a),p.nf(data)))
def droppreds(cs,what='free'):
    return frozenset([('eq',DATA,cs.p.ghostq[what])])
def freed_delta(cs,o,seq):
    """expected change of the free counter when seq is dropped"""
    p=cs.p
    if 'free' not in p.ghostq: return ZERO
    if p.nf(o.free).const()==0: return ZERO
    r=p.attr(seq,('cnt',frozenset([('eq',DATA,p.ghostq['free'])])))
    if p.nf(o.free).const() is None and not p.valid(ne(o.free,0)): r=ite(p.nff(ne(o.free,0)),r,0)
    # in call mode the function may be one that the caller does not count
    if cs.mode=='call':
        ro=p.role_of(o.free)
        if ro is None or ro[0]!='free' : return ZERO
    return r
def matchpred(cs,o,data):
    rk=rank_of(cs,o.compare) or 'rank'
    return ('eq',('uf',rk,1),uf(rk,data))
