"""Linear integer terms over interned atoms, and formulas over them.  Only this file builds z3 terms."""
import z3

class Atom:
    __slots__=('id','name','z','deps','key','size','bool_of','signed')
    def __repr__(s): return s.name
ATOMS=[]; BYNAME={}; BYKEY={}
def _mk(name,z,deps=(),key=None):
    a=Atom(); a.id=len(ATOMS); a.name=name; a.z=z; a.deps=frozenset(deps); a.key=key; a.size=None; a.bool_of=None; a.signed=None
    ATOMS.append(a); return a
def reset():
    ATOMS.clear(); BYNAME.clear(); BYKEY.clear(); _Z.clear(); _FZ.clear(); _UF.clear()

class Lin:
    __slots__=('t','c','h')
    def __init__(s,t,c): s.t=t; s.c=c; s.h=hash((t,c))
    def __hash__(s): return s.h
    def __eq__(s,o): return s is o or isinstance(o,Lin) and s.h==o.h and s.c==o.c and s.t==o.t
    def __add__(s,o):
        if isinstance(o,int): return Lin(s.t,s.c+o)
        if not o.t: return Lin(s.t,s.c+o.c)
        if not s.t: return Lin(o.t,s.c+o.c)
        d=dict(s.t)
        for a,k in o.t:
            v=d.get(a,0)+k
            if v: d[a]=v
            else: d.pop(a,None)
        return Lin(tuple(sorted(d.items())),s.c+o.c)
    __radd__=__add__
    def __neg__(s): return Lin(tuple((a,-k) for a,k in s.t),-s.c)
    def __sub__(s,o):
        if isinstance(o,int): return Lin(s.t,s.c-o)
        return s+(-o)
    def __rsub__(s,o): return (-s)+o
    def __mul__(s,o):
        if isinstance(o,int):
            return Lin(tuple((a,k*o) for a,k in s.t),s.c*o) if o else ZERO
        if not o.t: return s*o.c
        if not s.t: return o*s.c
        return prod(s,o)
    __rmul__=__mul__
    def const(s): return s.c if not s.t else None
    def isatom(s): return s.c==0 and len(s.t)==1 and s.t[0][1]==1
    def atom(s): return ATOMS[s.t[0][0]] if s.isatom() else None
    def base(s): return s.t
    def __repr__(s):
        r=[]
        for a,k in s.t: r.append((('%d*'%k) if k!=1 else '')+ATOMS[a].name)
        if s.c or not r: r.append(str(s.c))
        return '+'.join(r)
    def deps(s):
        d=set()
        for a,_ in s.t: d|=ATOMS[a].deps
        return d
ZERO=Lin((),0); ONE=Lin((),1)
def C(n): return Lin((),n)
def L(x): return x if isinstance(x,Lin) else Lin((),int(x))
def var(name):
    a=BYNAME.get(name)
    if a is None:
        a=_mk(name,z3.Int(name)); a.deps=frozenset([a.id]); BYNAME[name]=a
    return Lin(((a.id,1),),0)
def _key(key,name,zf,deps):
    a=BYKEY.get(key)
    if a is None: a=_mk(name,zf(),deps,key); BYKEY[key]=a
    return Lin(((a.id,1),),0)
_UF={}
def uf(name,*args):
    args=tuple(L(x) for x in args)
    f=_UF.get((name,len(args)))
    if f is None: f=_UF[(name,len(args))]=z3.Function(name,*([z3.IntSort()]*(len(args)+1)))
    d=set()
    for x in args: d|=x.deps()
    return _key(('uf',name,args),'%s(%s)'%(name,','.join(map(repr,args))),lambda: f(*[z(x) for x in args]),d)
def prod(a,b):
    # products are expanded into monomials
    if len(a.t)+(a.c!=0)>1 or len(b.t)+(b.c!=0)>1 or any(abs(k)!=1 for x in (a,b) for _,k in x.t):
        r=C(a.c*b.c)
        for x,k in a.t:
            if b.c: r=r+Lin(((x,k*b.c),),0)
            for y,m in b.t: r=r+prod(Lin(((x,1),),0),Lin(((y,1),),0))*(k*m)
        if a.c:
            for y,m in b.t: r=r+Lin(((y,m*a.c),),0)
        return r
    if (a.t[0][1]<0)!=(b.t[0][1]<0): return -prod(a if a.t[0][1]>0 else -a,b if b.t[0][1]>0 else -b)
    if a.t[0][1]<0: a,b=-a,-b
    if repr(a)>repr(b): a,b=b,a
    return _key(('prod',a,b),'(%r*%r)'%(a,b),lambda: z(a)*z(b),a.deps()|b.deps())
def ite(c,a,b):
    a=L(a);b=L(b)
    if c is True: return a
    if c is False: return b
    if a==b: return a
    return _key(('ite',c,a,b),'ite(%r,%r,%r)'%(c,a,b),lambda: z3.If(fz(c),z(a),z(b)),c.deps()|a.deps()|b.deps())
def div(a,n):
    """floor division by a positive constant (a>=0)"""
    if n==1: return a
    if not a.t: return C(a.c//n)
    if a.c%n==0 and all(k%n==0 for _,k in a.t): return Lin(tuple((x,k//n) for x,k in a.t),a.c//n)
    return _key(('div',a,n),'(%r/%d)'%(a,n),lambda: z(a)/n,a.deps())
def mod(a,n):
    if not a.t: return C(a.c%n)
    # canonical representative of the residue class: nested remainders flattened, coefficients reduced
    flat=False
    for x,k in a.t:
        q=ATOMS[x].key
        if (q is not None and q[0]=='mod' and q[2]%n==0) or not -n<2*k<=n: flat=True
    if flat or not 0<=a.c<n:
        r=C(a.c%n)
        for x,k in a.t:
            q=ATOMS[x].key
            if q is not None and q[0]=='mod' and q[2]%n==0: r=r+q[1]*k
            else:
                k%=n
                if 2*k>n: k-=n
                r=r+Lin(((x,k),),0) if k else r
        return mod(r,n) if r!=a else _key(('mod',a,n),'(%r%%%d)'%(a,n),lambda: z(a)%n,a.deps())
    if a.c%n==0 and all(k%n==0 for _,k in a.t): return ZERO
    return _key(('mod',a,n),'(%r%%%d)'%(a,n),lambda: z(a)%n,a.deps())
_Z={}
def z(l):
    r=_Z.get(l)
    if r is None:
        ts=[(ATOMS[a].z if k==1 else ATOMS[a].z*k) for a,k in l.t]
        if not ts: r=z3.IntVal(l.c)
        else:
            if l.c: ts.append(z3.IntVal(l.c))
            r=ts[0] if len(ts)==1 else z3.Sum(ts)
        _Z[l]=r
    return r

class F:
    """formula: ('le',lin) lin<=0 ; ('eq',lin) ; ('ne',lin) ; ('and',fs) ; ('or',fs)"""
    __slots__=('k','d','h')
    def __init__(s,k,d): s.k=k;s.d=d;s.h=hash((k,d))
    def __hash__(s): return s.h
    def __eq__(s,o): return s is o or isinstance(o,F) and s.h==o.h and s.k==o.k and s.d==o.d
    def deps(s):
        if s.k in('le','eq','ne'): return s.d.deps()
        r=set()
        for f in s.d: r|=f.deps()
        return r
    def __repr__(s):
        if s.k=='le': return '%r<=0'%s.d
        if s.k=='eq': return '%r==0'%s.d
        if s.k=='ne': return '%r!=0'%s.d
        return '(%s)'%((' %s '%s.k).join(map(repr,s.d)))
def _n(l):
    """normalise an equation: leading coefficient positive"""
    if l.t and l.t[0][1]<0: return -l
    return l
def eq(a,b):
    d=L(a)-L(b)
    if not d.t: return d.c==0
    return F('eq',_n(d))
def ne(a,b):
    d=L(a)-L(b)
    if not d.t: return d.c!=0
    return F('ne',_n(d))
def le(a,b):
    d=L(a)-L(b)
    if not d.t: return d.c<=0
    return F('le',d)
def lt(a,b): return le(L(a)+1,b)
def ge(a,b): return le(b,a)
def gt(a,b): return lt(b,a)
def Not(f):
    if isinstance(f,bool): return not f
    if f.k=='eq': return F('ne',f.d)
    if f.k=='ne': return F('eq',f.d)
    if f.k=='le': return F('le',ONE-f.d)
    return (Or if f.k=='and' else And)(*[Not(x) for x in f.d])
def And(*fs):
    r=[]
    for f in fs:
        if f is False: return False
        if f is True: continue
        for g in (f.d if f.k=='and' else (f,)):
            if g not in r: r.append(g)
    if not r: return True
    return r[0] if len(r)==1 else F('and',tuple(r))
def Or(*fs):
    r=[]
    for f in fs:
        if f is True: return True
        if f is False: continue
        for g in (f.d if f.k=='or' else (f,)):
            if g not in r: r.append(g)
    if not r: return False
    return r[0] if len(r)==1 else F('or',tuple(r))
def Imp(a,b): return Or(Not(a),b)
def Iff(a,b): return And(Imp(a,b),Imp(b,a))
_FZ={}
def fz(f):
    if isinstance(f,bool): return z3.BoolVal(f)
    r=_FZ.get(f)
    if r is None:
        if f.k=='le': r=z(f.d)<=0
        elif f.k=='eq': r=z(f.d)==0
        elif f.k=='ne': r=z(f.d)!=0
        elif f.k=='and': r=z3.And([fz(x) for x in f.d])
        else: r=z3.Or([fz(x) for x in f.d])
        _FZ[f]=r
    return r
def b2i(f): return ite(f,1,0)

def rewrite(l,rw):
    """apply a map atom-id -> Lin"""
    hit=False
    for a,_ in l.t:
        at=ATOMS[a]
        if a in rw or (at.key is not None and not rw.keys().isdisjoint(at.deps)): hit=True;break
    if not hit: return l
    r=C(l.c)
    for a,k in l.t: r=r+rwatom(a,rw)*k
    return r
def rwatom(a,rw):
    at=ATOMS[a]
    if a in rw: return rw[a]
    if at.key is None or rw.keys().isdisjoint(at.deps): return Lin(((a,1),),0)
    k=at.key
    if k[0]=='uf': return uf(k[1],*[rewrite(x,rw) for x in k[2]])
    if k[0]=='prod': return rewrite(k[1],rw)*rewrite(k[2],rw)
    if k[0]=='ite': return ite(rwf(k[1],rw),rewrite(k[2],rw),rewrite(k[3],rw))
    if k[0]=='div': return div(rewrite(k[1],rw),k[2])
    if k[0]=='mod':
        x=rewrite(k[1],rw)
        return C(x.c%k[2]) if not x.t else mod(x,k[2])
    return Lin(((a,1),),0)
def rwf(f,rw):
    if isinstance(f,bool): return f
    if f.k=='le':
        return le(rewrite(f.d,rw),0)
    if f.k=='eq': return eq(rewrite(f.d,rw),0)
    if f.k=='ne': return ne(rewrite(f.d,rw),0)
    return (And if f.k=='and' else Or)(*[rwf(x,rw) for x in f.d])
