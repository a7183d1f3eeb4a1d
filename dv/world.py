"""The translation units under verification, models of external functions, and callbacks."""
import subprocess, os, tempfile, hashlib
from loops import *

CFLAGS='-O0 -g -Xclang -disable-O0-optnone -fno-discard-value-names -DNDEBUG -DWITH_PTHREAD -std=c11 -D_FORTIFY_SOURCE=0'.split()
def compile_ll(repo,cfile,extra=()):
    r=subprocess.run(['/usr/bin/clang-18']+CFLAGS+['-I',repo]+list(extra)+['-S','-emit-llvm','-o','-',cfile],capture_output=True,text=True)
    if r.returncode: raise Exception('clang failed on %s:\n%s'%(cfile,r.stderr[:2000]))
    return r.stdout

class ElemKind:
    """elements of an array: field names and sizes"""
    node=False
    def __init__(s,*fields): s.fields=list(fields)
BYTE=ElemKind(('byte',1))

# ------------------------------------------------------------------ models of external functions
EXT={}
def ext(*names):
    def d(f):
        for n in names: EXT[n]=f
        return f
    return d
def alloc(p,n,fill,label='malloc'):
    n=p.nf(n)
    if p.fork(None,label+' succeeds'):
        a=p.freshv(label,8,4096,PMAX)
        p.assume(lt(n,PMAX))
        p.add_tok(0,a,n)
        p.add_chunk(Raw(a,n,fill))
        return a
    p.extfail=True
    return ZERO
@ext('malloc')
def _(p,args,i): return alloc(p,args[0],'j')
@ext('calloc')
def _(p,args,i):
    n=p.nf(args[0]*args[1])
    if args[0].const() is None or args[1].const() is None:
        p.assume(lt(n,PMAX)) if p.fork(None,'calloc fits') else None
        if p.dec and p.dec[-1] is False: p.extfail=True; return ZERO
    return alloc(p,n,'z','calloc')
@ext('realloc')
def _(p,args,i):
    a,n=args
    if a.const()==0: return alloc(p,n,'j','realloc')
    if p.choose(eq(a,0),'realloc NULL'): return alloc(p,n,'j','realloc')
    if not p.fork(None,'realloc succeeds'): p.extfail=True; return ZERO
    old=p.take_tok(0,a,'memory','realloc')
    if old is None: p.hardfail('memory','realloc of %r, which is not a live allocation'%a)
    b=p.freshv('realloc',8,4096,PMAX); p.assume(lt(n,PMAX))
    keep=n if p.choose(le(n,old),'realloc shrinks') else old
    frs=gather_range(p,a,old,'memory','memory being reallocated')
    p.add_tok(0,b,n)
    put_frags(p,b,frs)
    if keep is n and n!=old:
        gather_range(p,b+n,p.nf(old-n),'memory','realloc')
    elif n!=old:
        e=frag_esz(frs); d=p.nf(n-old)
        if d.const() is not None: p.add_chunk(Raw(b+old,d,'j'))
        else: p.add_chunk(Raw(p.nf(b+old),d,'j'))
    return b
@ext('free')
def _(p,args,i):
    a=args[0]
    if p.choose(eq(a,0),'free(NULL)'): return None
    release(p,a,0,'memory','free'); return None
def giveup(p):
    """the program ends: allowed when a resource could not be had, or where the contract says so"""
    if not p.extfail: p.oblige(Or(*p.mayabort),'abort','the program is ended only when memory or a lock cannot be had',noassume=True)
    raise PathEnd()
@ext('abort')
def _(p,args,i): giveup(p)
@ext('perror','fprintf','printf','puts','fwrite')
def _(p,args,i): return C(0) if i.res else None
@ext('llvm.memset')
def _(p,args,i): set_mem(p,args[0],args[2],args[1]); return None
@ext('memset')
def _(p,args,i): set_mem(p,args[0],args[2],args[1]); return args[0]
@ext('llvm.memcpy')
def _(p,args,i): copy_mem(p,args[0],args[1],args[2],False); return None
@ext('memcpy')
def _(p,args,i): copy_mem(p,args[0],args[1],args[2],False); return args[0]
@ext('llvm.memmove')
def _(p,args,i): copy_mem(p,args[0],args[1],args[2],True); return None
@ext('memmove')
def _(p,args,i): copy_mem(p,args[0],args[1],args[2],True); return args[0]
@ext('llvm.dbg','llvm.lifetime','llvm.assume','llvm.stackrestore','llvm.expect')
def _(p,args,i): return None
@ext('llvm.stacksave')
def _(p,args,i): return p.freshv('sp',8)

@ext('read')
def _(p,args,i):
    """delivers some bytes, at most as many as asked for and at least one unless at the end, or fails"""
    fd,buf,n=args
    if p.fork(None,'read fails'): p.io=p.io+[(C((1<<64)-1),(),fd,n)]; return C((1<<64)-1)
    got=p.freshv('got',8,0,PMAX); p.assume(le(got,n)); G=(V(p.freshsv('G',BYTE)),); p.assume(eq(p.length(G),got))
    gather_range(p,buf,n,'memory','target of read')
    p.add_chunk(Arr(buf,1,p.norm(G+(('j',p.nf(n-got)),))))
    p.io=p.io+[(p.nf(got),G,fd,n)]; return p.nf(got)
@ext('memchr','memrchr')
def _(p,args,i):
    a,c,n=args; c=c.const()
    if c is None: p.hardfail('unsupported','memchr for a variable byte')
    c%=256; q=frozenset([('eq',('fld',0),C(c))])
    seq=take_arr(p,a,1,n,'memory','bytes searched')
    if not p.choose(gt(p.attr(seq,('cnt',q)),0),'byte found'):
        p.add_chunk(Arr(a,1,seq)); return ZERO
    if i.x[1]!='memchr': p.hardfail('unsupported','memrchr')
    A=()
    for pc in list(seq):
        if pc[0]=='u':
            if p.choose(eq(pc[1][0],c),'byte found'): break
        elif p.choose(gt(p.attr((pc,),('cnt',q)),0),'byte found here'):
            if not(pc[0]=='v' and pc[2] is None): p.hardfail('unsupported','memchr')
            k=p.freshv('at',8); p.assume(lt(k,p.length((pc,)))); e=p.splitat(pc[1],k); p.assume(eq(e[0],c)); D=p.norm((pc,))
            j=[j for j,x in enumerate(D) if x[0]=='u'][0]; A=p.norm(A)+D[:j]; p.assume(eq(p.attr(A,('cnt',q)),0)); break
        A=A+(pc,)
    p.add_chunk(Arr(a,1,p.norm(seq)))
    return p.nf(a+p.length(A))

# ------------------------------------------------------------------ callbacks
ROLES={}
def role(n):
    def d(f): ROLES[n]=f; return f
    return d
def signed_result(p,name,lo=-(1<<31)):
    v=p.fresh(name); p.assume(ge(v,-(1<<31))); p.assume(lt(v,1<<31)); return v
@role('compare')
def _(p,r,args,i):
    """total preorder: the sign of the result is the sign of the rank difference"""
    a,b=uf(r[1],args[0]),uf(r[1],args[1])
    v=signed_result(p,'cmp')
    p.assume(Iff(lt(v,0),lt(a,b))); p.assume(Iff(gt(v,0),gt(a,b)))
    # three cases: keep the value as a signed number
    if p.choose(eq(v,0),'compares equal'): return C(0)
    if p.choose(gt(v,0),'compares greater'): return v
    return p.nf(v+(1<<32))
@role('equal')
def _(p,r,args,i): return p.nff(eq(uf(r[1],args[0]),uf(r[1],args[1])))
@role('hash')
def _(p,r,args,i):
    v=uf('hashcls',uf(r[1],args[0])); p.assume(ge(v,0)); p.assume(lt(v,1<<32)); return v
@role('free')
def _(p,r,args,i):
    g=r[1]; q=p.ghostq[g]
    p.oblige(ne(args[0],0) if r[2] else True,'freed','the free function is not called with NULL')
    p.ghost[g]=p.nf(p.ghost.get(g,ZERO)+b2i(p.nff(eq(args[0],q)))); return None
@role('poolalloc')
def _(p,r,args,i):
    """a pool hands out an item of its size or aborts"""
    pool=r[1]; p.oblige(eq(args[0],pool),'memory','the pool is passed to its own alloc function')
    a=p.freshv('pitem',8,4096,PMAX); n=p.poolsize
    p.add_tok(pool,a,n); p.add_chunk(Raw(a,C(n),'j')); return a
@role('poolfree')
def _(p,r,args,i):
    pool=r[1]; p.oblige(eq(args[0],pool),'memory','the pool is passed to its own free function')
    release(p,args[1],pool,'memory','return to the pool'); return None

# ------------------------------------------------------------------ strings that are only read
# A string is an address and a length; its bytes are the values of the function 'byte' at its addresses.
def byteat(p,x):
    b=uf('byte',p.nf(x)); p.assume(ge(b,0)); p.assume(lt(b,256)); return b
def schar(b): return ite(lt(b,128),b,b-256)
def strfacts(p,x):
    """what the definitions say about the byte at address x"""
    b=byteat(p,x)
    for a,n in p.strings:
        i=p.nf(x-a); ins=And(ge(i,0),le(i,n))
        p.assume(Imp(p.nff(ins),Iff(eq(b,0),eq(i,n))))
        if a in p.folds:
            h=uf('sdbm',p.nf(x)); g=uf('sdbm',p.nf(x+1))
            for q in (h,g): p.assume(ge(q,0)); p.assume(lt(q,1<<32))
            p.assume(eq(g,p.nf(mod(p.nf(h*65599+schar(b)),1<<32))))
def strbyte(p,x):
    x=p.nf(x)
    for a,n in p.strings:
        if p.valid(And(ge(x,a),le(x,a+n))):
            strfacts(p,x)
            for a1,n1,a2,n2,l in p.lcps:
                for u,v in ((a1,a2),(a2,a1)):
                    if p.nf(u)==p.nf(a):
                        i=p.nf(x-a); y=p.nf(v+i); strfacts(p,y); bx,by=byteat(p,x),byteat(p,y)
                        p.assume(Imp(And(ge(i,0),lt(i,l)),eq(bx,by)))
                        p.assume(Imp(eq(i,l),Or(eq(l,n1),eq(l,n2),ne(bx,by))))
            return byteat(p,x)
    return None
def newstr(p,a,n):
    p.strings=p.strings+[(a,n)]
def find_str(p,a):
    for s,n in p.strings:
        if p.valid(And(ge(a,s),le(a,s+n))): return s,n,p.nf(a-s)
    p.hardfail('memory','no string at %r'%a)
@ext('strlen')
def _(p,args,i):
    s,n,o=find_str(p,args[0]); return p.nf(n-o)
@ext('strcmp')
def _(p,args,i):
    s1,n1,o1=find_str(p,args[0]); s2,n2,o2=find_str(p,args[1])
    if o1.const()!=0 or o2.const()!=0: p.hardfail('unsupported','comparison of string suffixes')
    l=lcp(p,s1,n1,s2,n2); b1=byteat(p,p.nf(s1+l)); b2=byteat(p,p.nf(s2+l)); strbyte(p,p.nf(s1+l)); strbyte(p,p.nf(s2+l))
    r=p.fresh('cmp'); p.assume(ge(r,-(1<<31))); p.assume(lt(r,1<<31))
    p.assume(Iff(lt(r,0),lt(b1,b2))); p.assume(Iff(gt(r,0),gt(b1,b2)))
    if p.choose(eq(r,0),'strings equal'): return C(0)
    return r if p.choose(gt(r,0),'greater') else p.nf(r+(1<<32))
def lcp(p,a,n,b,m):
    """length of the longest common prefix of two strings"""
    for a1,n1,a2,n2,l in p.lcps:
        if {p.nf(a1),p.nf(a2)}=={p.nf(a),p.nf(b)}: return p.nf(l)
    l=p.freshv('lcp',8,0,PMAX); p.assume(le(l,n)); p.assume(le(l,m))
    p.lcps=p.lcps+[(a,n,b,m,l)]
    return l

class WExec(LoopExec):
    strings=[]; lcps=[]; folds=(); io=[]
    poolsize=0; extfail=False; mayabort=()
    ghostq={}
    def add_pool(s,a):
        a=s.nf(a); s.pools[a]=True
        for off,r in ((0,'poolalloc'),(8,'poolfree')):
            f=uf(r,a); s.assume(ge(f,4096)); s.assume(lt(f,PMAX)); s.roles[f]=(r,a)

STRAT_HOOKS=[]; LOOP_OPTIONS=[]; FOLD_HOOKS=[]
class World:
    execcls=WExec
    def __init__(s,repo,specs,extra_units=()):
        s.repo=repo; s.ext=EXT; s.roles=ROLES; s.specs=specs; s.units={}; s.funcs={}; s.loop_options=LOOP_OPTIONS; s.strat_hooks=STRAT_HOOKS; s.fold_hooks=FOLD_HOOKS; s.cand_hooks=[]; s.extra=list(extra_units); s._mem={}
    def load(s,files):
        for f in files:
            if f in s.units: continue
            path=f if os.path.isabs(f) else os.path.join(s.repo,f)
            m=ll.Module(compile_ll(s.repo,path),path)
            s.units[f]=m
            for n,fn in m.funcs.items():
                if not fn.internal: s.funcs[n]=fn
    def spec_for(s,name,f): return s.specs.get(name)
    def members(s,mod,name):
        k=(id(mod),name)
        if k not in s._mem: s._mem[k]=mod.dbg_members(name)
        return s._mem[k]
    def loadhook(s,p,a,n):
        if n==1 and p.strings:
            r=strbyte(p,a)
            if r is not None: return r
        for q in p.pools:
            q=p.nf(q); d=basediff(a,q)
            if d in (0,8) and n==8:
                p.oblige(ne(q,0),'memory','pool is not NULL',hard=True)
                return uf('poolalloc' if d==0 else 'poolfree',q)
        return None
