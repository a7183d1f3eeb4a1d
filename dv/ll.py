"""Parser for the subset of textual LLVM IR that clang -O0 emits for the C files in /repo.
Anything not understood becomes an instruction with op 'unsupported': executing one is a failed obligation."""
import re
from collections import OrderedDict

class Ins:
    __slots__=('op','res','ty','args','x','line','text')
    def __init__(s,op,res=None,ty=None,args=(),x=None,line=0,text=''):
        s.op=op;s.res=res;s.ty=ty;s.args=args;s.x=x;s.line=line;s.text=text
    def __repr__(s): return '%s=%s %s'%(s.res,s.op,s.text)

class Func:
    def __init__(s,name): s.name=name;s.blocks=OrderedDict();s.params=[];s.ret=None;s.internal=False;s.line=0

TOK=re.compile(r'\s*(?:([%@][A-Za-z0-9$._-]+|[%@]"[^"]*")|(c"[^"]*")|("[^"]*")|(-?\d+)(?![A-Za-z0-9_.])|([A-Za-z_][A-Za-z0-9_.]*)|(\.\.\.)|(![A-Za-z0-9_.]*)|(#\d+)|(.))')
def toks(s):
    out=[]; i=0
    s=s.rstrip()
    while i<len(s):
        m=TOK.match(s,i)
        if not m: break
        i=m.end()
        t=m.group().strip()
        if t: out.append(t)
    return out

ATTR={'noundef','zeroext','signext','nocapture','readonly','writeonly','noalias','nonnull','immarg','returned','inreg','dso_local','local_unnamed_addr','unnamed_addr','nounwind','noreturn','readnone','fastcc','tail','musttail','notail','inbounds','nsw','nuw','exact','volatile','captures','dead_on_return','disjoint','nneg'}

class P:
    """token cursor"""
    def __init__(s,t,m): s.t=t;s.i=0;s.m=m
    def peek(s): return s.t[s.i] if s.i<len(s.t) else None
    def next(s): s.i+=1; return s.t[s.i-1]
    def eat(s,x):
        if s.peek()==x: s.i+=1; return True
        return False
    def expect(s,x):
        if not s.eat(x): raise SyntaxError('expected %s in %s at %d'%(x,' '.join(s.t),s.i))
    def skipattrs(s):
        while s.peek() in ATTR or s.peek() in ('align','dereferenceable','dereferenceable_or_null','range','allocsize'):
            a=s.next()
            if a=='align':
                if s.eat('('): s.next(); s.expect(')')
                elif s.peek() and s.peek().lstrip('-').isdigit(): s.next()
            elif a in('dereferenceable','dereferenceable_or_null','range','captures','allocsize') and s.eat('('):
                d=1
                while d:
                    x=s.next()
                    d+= (x=='(')-(x==')')
    def type(s):
        t=s.next()
        if t=='ptr': r='ptr'
        elif t=='void': r='void'
        elif t=='metadata': r='metadata'
        elif re.fullmatch(r'i\d+',t): r=('i',int(t[1:]))
        elif t=='[':
            n=int(s.next()); s.expect('x'); e=s.type(); s.expect(']'); r=('arr',n,e)
        elif t=='{':
            fs=[]
            while not s.eat('}'):
                fs.append(s.type()); s.eat(',')
            r=('lit',tuple(fs))
        elif t[0]=='%': r=('st',t)
        elif t=='...': r='...'
        else: raise SyntaxError('type '+t+' in '+' '.join(s.t))
        if s.peek()=='(' :   # function type
            j=s.i
            s.next(); d=1
            while d:
                x=s.next(); d+=(x=='(')-(x==')')
            s.eat('*')
        return r
    def value(s,ty):
        """-> ('reg',n) ('int',v) ('glob',n) ('null',) ('undef',) ('bool',b) ('gep',...)"""
        t=s.next()
        if t[0]=='%': return ('reg',t)
        if t[0]=='@': return ('glob',t[1:])
        if t=='null': return ('int',0)
        if t=='true': return ('bool',True)
        if t=='false': return ('bool',False)
        if t in('undef','poison'): return ('undef',)
        if t=='zeroinitializer': return ('zero',)
        if re.fullmatch(r'-?\d+',t): return ('int',int(t))
        if t[:2]=='c"': return ('str',t[2:-1])
        if t=='getelementptr':
            s.skipattrs(); s.expect('(')
            bt=s.type(); s.expect(','); s.type(); b=s.value('ptr'); idx=[]
            while s.eat(','):
                it=s.type(); s.skipattrs(); idx.append((it,s.value(it)))
            s.expect(')')
            return ('gep',bt,b,tuple(idx))
        if t in('inttoptr','ptrtoint','bitcast','zext','sext','trunc'):
            s.expect('('); ft=s.type(); v=s.value(ft); s.expect('to'); tt=s.type(); s.expect(')')
            return ('cast',t,ft,v,tt)
        if t in ('[','{','<'):
            close={'[':']','{':'}','<':'>'}[t]; els=[]
            while not s.eat(close):
                et=s.type(); s.skipattrs(); els.append((et,s.value(et))); s.eat(',')
            return ('agg',tuple(els))
        raise SyntaxError('value '+t+' in '+' '.join(s.t))

class Module:
    def __init__(s,text,path=''):
        s.path=path; s.structs={}; s.globs={}; s.funcs=OrderedDict(); s.md={}; s.decls={}
        s.parse(text)
    def reach(s,f):
        """names of the functions of this unit that f can call, directly or not"""
        if not hasattr(s,'_reach'): s._reach={}
        if f.name not in s._reach:
            seen=set(); w=[f]
            while w:
                for b in w.pop().blocks.values():
                    for i in b:
                        if i.op=='call' and i.x[0]=='glob' and i.x[1] in s.funcs and i.x[1] not in seen: seen.add(i.x[1]); w.append(s.funcs[i.x[1]])
            s._reach[f.name]=seen
        return s._reach[f.name]
    # ---- layout
    def sizeof(s,t):
        if t=='ptr': return 8
        if t[0]=='i': return max(1,(t[1]+7)//8)
        if t[0]=='arr': return t[1]*s.sizeof(t[2])
        fs=s.fields(t); return fs[1]
    def alignof(s,t):
        if t=='ptr': return 8
        if t[0]=='i': return min(8,max(1,(t[1]+7)//8))
        if t[0]=='arr': return s.alignof(t[2])
        return max([s.alignof(f) for f in s.ftypes(t)] or [1])
    def ftypes(s,t):
        return t[1] if t[0]=='lit' else s.structs[t[1]]
    def fields(s,t):
        off=0; offs=[]
        al=1
        for f in s.ftypes(t):
            a=s.alignof(f); al=max(al,a)
            off=(off+a-1)//a*a; offs.append(off); off+=s.sizeof(f)
        return offs,(off+al-1)//al*al
    def leaves(s,t,off=0):
        """scalar leaves (offset,size) of a type"""
        if t=='ptr' or t[0]=='i': return [(off,s.sizeof(t))]
        if t[0]=='arr':
            r=[]; e=s.sizeof(t[2])
            for i in range(t[1]): r+=s.leaves(t[2],off+i*e)
            return r
        r=[]; offs,_=s.fields(t)
        for o,f in zip(offs,s.ftypes(t)): r+=s.leaves(f,off+o)
        return r
    # ---- debug info
    def dbg_members(s,name):
        """member name -> (offset,size) of the struct or typedef called name, nested members flattened with dots"""
        best=None
        for k,v in s.md.items():
            if v[0]=='DICompositeType' and v[1].get('name')==name and v[1].get('tag') in('DW_TAG_structure_type','DW_TAG_union_type') and 'elements' in v[1]: best=k
        if best is None:
            for k,v in s.md.items():
                if v[0]=='DIDerivedType' and v[1].get('name')==name and v[1].get('tag')=='DW_TAG_typedef':
                    b=v[1].get('baseType')
                    while b and s.md[b][0]=='DIDerivedType' and s.md[b][1].get('tag') in ('DW_TAG_typedef','DW_TAG_const_type'): b=s.md[b][1].get('baseType')
                    if b and s.md[b][0]=='DICompositeType': best=b
        if best is None: return None
        return s._members(best,0,'')
    def _size(s,b):
        n,v=s.md[b]
        if 'size' in v: return int(v['size'])//8
        if v.get('baseType') in s.md: return s._size(v['baseType'])
        return 8
    def _members(s,b,base,pre):
        out={'':(base,s._size(b))} if not pre else {}
        for e in re.findall(r'![0-9]+',s.md[s.md[b][1]['elements']][1].get('','')):
            n,v=s.md[e]
            if v.get('tag')!='DW_TAG_member': continue
            off=base+int(v.get('offset','0'))//8; nm=pre+v.get('name','?').strip('"')
            bt=v['baseType']; out[nm]=(off,s._size(e))
            x=bt
            while x in s.md and s.md[x][0]=='DIDerivedType' and s.md[x][1].get('tag') in('DW_TAG_typedef','DW_TAG_const_type'): x=s.md[x][1].get('baseType')
            if x in s.md and s.md[x][0]=='DICompositeType' and s.md[x][1].get('tag')=='DW_TAG_structure_type' and 'elements' in s.md[x][1]:
                out.update(s._members(x,off,nm+'.'))
        return out
    # ---- parse
    def parse(s,text):
        lines=text.split('\n'); i=0
        # metadata first
        for l in lines:
            if l.startswith('!'):
                m=re.match(r'(![0-9]+) = (?:distinct )?!(\w*)[({](.*)[)}]$',l)
                if m:
                    kind=m.group(2); body=m.group(3)
                    if kind=='': s.md[m.group(1)]=('',{'':body})
                    else:
                        d={}
                        for k,v in re.findall(r'(\w+): ("(?:[^"\\]|\\.)*"|[^,()]+)',body): d[k]=v.strip('"')
                        s.md[m.group(1)]=(kind,d)
        n=len(lines)
        while i<n:
            l=lines[i]
            if l.startswith('%') and ' = type ' in l:
                nm,rest=l.split(' = type ',1)
                p=P(toks(rest),s)
                if p.peek()=='opaque': s.structs[nm]=()
                else:
                    p.eat('<')
                    t=p.type(); s.structs[nm]=t[1]
            elif l.startswith('@'):
                s.glob(l)
            elif l.startswith('declare'):
                m=re.search(r'@([A-Za-z0-9_.$]+)\(',l); s.decls[m.group(1)]=l
            elif l.startswith('define'):
                j=i+1
                while lines[j]!='}': j+=1
                s.func(l,lines[i+1:j]); i=j
            i+=1
    def glob(s,l):
        m=re.match(r'@([^ ]+) = (.*)$',l)
        name=m.group(1); rest=re.split(r', (?:align|!dbg|section|comdat)',m.group(2))[0]
        const=' constant ' in ' '+rest
        ext=rest.startswith('external') or ' external ' in rest
        mm=re.search(r'\b(?:constant|global)\s+(.*)$',rest)
        init=None;ty=None
        if mm:
            try:
                p=P(toks(mm.group(1)),s); ty=p.type()
                if not ext and p.peek(): init=p.value(ty)
            except SyntaxError: init=None
        s.globs[name]=(ty,init,const)
    def dline(s,l):
        m=re.search(r'!dbg (![0-9]+)',l)
        if m and m.group(1) in s.md:
            try: return int(s.md[m.group(1)][1].get('line','0'))
            except ValueError: return 0
        return 0
    def func(s,hdr,body):
        m=re.search(r'@([A-Za-z0-9_.$]+)\(',hdr); f=Func(m.group(1))
        f.internal=' internal ' in hdr; f.mod=s
        f.line=s.dline(hdr)
        pre=hdr[:m.start()]; p=P(toks(pre),s); p.next()
        while p.peek() in ATTR or p.peek() in('internal','private','hidden','linkonce_odr','weak'): p.next()
        p.skipattrs(); f.ret=p.type()
        rest=hdr[m.end():]; p=P(toks(rest),s)
        f.vararg=False
        k=0
        while not p.eat(')'):
            if p.eat('...'): f.vararg=True; continue
            t=p.type(); p.skipattrs()
            nm=p.next() if p.peek()[0]=='%' else '%'+str(k)
            k+=1
            f.params.append((t,nm)); p.eat(',')
        cur=None
        j=0
        # the entry block label may be implicit
        while j<len(body):
            l=body[j]; j+=1
            if not l.strip() or l.lstrip().startswith(';'): continue
            mm=re.match(r'("[^"]*"|[A-Za-z0-9$._-]+):',l)
            if mm and not l.startswith(' '):
                cur='%'+mm.group(1); f.blocks[cur]=[]; continue
            if cur is None: cur='%entry'; f.blocks[cur]=[]
            if l.strip().startswith('switch') and ']' not in l:
                while ']' not in body[j]: l+=' '+body[j].strip(); j+=1
                l+=' '+body[j].strip(); j+=1
            ins=s.ins(l)
            if ins: f.blocks[cur].append(ins)
        s.funcs[f.name]=f
    def ins(s,l):
        line=s.dline(l); txt=l.strip()
        core=re.split(r', !(?:dbg|llvm|srcloc|tbaa|prof)',txt)[0]
        core=re.sub(r' #\d+$','',core)
        try: r=s.ins2(core)
        except (SyntaxError,IndexError,KeyError,ValueError) as e: r=Ins('unsupported',x=str(e))
        if r is None: return None
        r.line=line; r.text=core
        return r
    def ins2(s,t):
        res=None
        m=re.match(r'(%[^ ]+) = (.*)$',t)
        if m: res=m.group(1); t=m.group(2)
        p=P(toks(t),s); op=p.next()
        while op in('tail','musttail','notail'): op=p.next()
        if op in('add','sub','mul','udiv','sdiv','urem','srem','xor','and','or','shl','lshr','ashr'):
            fl=[]
            while p.peek() in ATTR: fl.append(p.next())
            ty=p.type(); a=p.value(ty); p.expect(','); b=p.value(ty)
            return Ins(op,res,ty,(a,b),fl)
        if op=='icmp':
            p.skipattrs(); c=p.next(); ty=p.type(); a=p.value(ty); p.expect(','); b=p.value(ty)
            return Ins(op,res,ty,(a,b),c)
        if op=='alloca':
            ty=p.type(); cnt=None
            if p.eat(','):
                if p.peek()!='align':
                    ct=p.type(); cnt=(ct,p.value(ct))
            return Ins(op,res,ty,(),cnt)
        if op=='load':
            p.skipattrs(); ty=p.type(); p.expect(','); p.type(); return Ins(op,res,ty,(p.value('ptr'),))
        if op=='store':
            p.skipattrs(); ty=p.type(); v=p.value(ty); p.expect(','); p.type(); a=p.value('ptr')
            return Ins(op,None,ty,(v,a))
        if op=='getelementptr':
            p.skipattrs(); bt=p.type(); p.expect(','); p.type(); b=p.value('ptr'); idx=[]
            while p.eat(','):
                it=p.type(); idx.append((it,p.value(it)))
            return Ins(op,res,bt,(b,),tuple(idx))
        if op=='extractvalue':
            ty=p.type(); v=p.value(ty); idx=[]
            while p.eat(','): idx.append(int(p.next()))
            return Ins(op,res,ty,(v,),tuple(idx))
        if op=='insertvalue':
            ty=p.type(); v=p.value(ty); p.expect(','); et=p.type(); e=p.value(et); idx=[]
            while p.eat(','): idx.append(int(p.next()))
            return Ins(op,res,ty,(v,e),(et,tuple(idx)))
        if op=='br':
            if p.eat('label'): return Ins('br',None,None,(),(p.next(),))
            ty=p.type(); c=p.value(ty); p.expect(','); p.expect('label'); a=p.next(); p.expect(','); p.expect('label'); b=p.next()
            return Ins('br',None,None,(c,),(a,b))
        if op=='switch':
            ty=p.type(); v=p.value(ty); p.expect(','); p.expect('label'); d=p.next(); p.expect('['); cs=[]
            while not p.eat(']'):
                p.type(); c=p.value(ty); p.expect(','); p.expect('label'); cs.append((c[1],p.next()))
            return Ins('switch',None,ty,(v,),(d,tuple(cs)))
        if op=='ret':
            ty=p.type()
            return Ins('ret',None,ty,() if ty=='void' else (p.value(ty),))
        if op=='unreachable': return Ins(op)
        if op=='phi':
            ty=p.type(); inc=[]
            while p.eat('['):
                v=p.value(ty); p.expect(','); b=p.next(); p.expect(']'); inc.append((v,b)); p.eat(',')
            return Ins('phi',res,ty,(),tuple(inc))
        if op=='select':
            ct=p.type(); c=p.value(ct); p.expect(','); ty=p.type(); a=p.value(ty); p.expect(','); p.type(); b=p.value(ty)
            return Ins('select',res,ty,(c,a,b))
        if op in('trunc','zext','sext','ptrtoint','inttoptr','bitcast','freeze'):
            p.skipattrs()
            ft=p.type(); v=p.value(ft)
            if op=='freeze': return Ins(op,res,ft,(v,),ft)
            p.expect('to'); tt=p.type()
            return Ins(op,res,tt,(v,),ft)
        if op=='call':
            while p.peek() in ATTR: p.next()
            p.skipattrs(); ty=p.type()
            if p.peek()=='(':
                d=0
                while True:
                    x=p.next(); d+=(x=='(')-(x==')')
                    if d==0: break
            callee=p.value('ptr'); p.expect('('); args=[]
            if callee[0]=='glob' and (callee[1].startswith('llvm.dbg') or callee[1].startswith('llvm.lifetime')): return None
            while not p.eat(')'):
                at=p.type(); p.skipattrs()
                args.append((at,p.value(at))); p.eat(',')
            return Ins('call',res,ty,tuple(args),callee)
        return Ins('unsupported',res,x='opcode '+op)

def cfg(f):
    """successors, dominators, natural loops: header -> set of blocks"""
    succ={}
    for b,ins in f.blocks.items():
        t=ins[-1]
        if t.op=='br': succ[b]=list(t.x)
        elif t.op=='switch': succ[b]=[t.x[0]]+[c[1] for c in t.x[1]]
        else: succ[b]=[]
    entry=next(iter(f.blocks)); order=[]; seen=set()
    def dfs(b):
        st=[(b,iter(succ[b]))]; seen.add(b)
        while st:
            n,it=st[-1]
            for m in it:
                if m not in seen: seen.add(m); st.append((m,iter(succ[m]))); break
            else: order.append(n); st.pop()
    dfs(entry); rpo=order[::-1]
    pred={b:[] for b in rpo}
    for b in rpo:
        for m in succ[b]: pred[m].append(b)
    dom={b:set(rpo) for b in rpo}; dom[entry]={entry}
    ch=True
    while ch:
        ch=False
        for b in rpo[1:]:
            d=set.intersection(*[dom[p] for p in pred[b]])|{b}
            if d!=dom[b]: dom[b]=d; ch=True
    loops={}; irreducible=False
    idx={b:i for i,b in enumerate(rpo)}
    for b in rpo:
        for h in succ[b]:
            if h in dom[b]:
                body=loops.setdefault(h,{h}); w=[b]
                while w:
                    x=w.pop()
                    if x not in body: body.add(x); w+=pred[x]
            elif idx[h]<=idx[b]: irreducible=True
    return succ,dom,loops,irreducible
