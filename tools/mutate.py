"""Mutation test of the verifier: small textual changes to a source file of /repo; a change that is accepted by every
contract of the unit is printed and has to be explained (equivalent change, or a hole in a contract).
usage: mutate.py UNIT.c [SPECPATTERN...] [--only regex-on-line] [--max N] [--seed N]"""
import sys,os,re,subprocess,shutil,random,tempfile,concurrent.futures as cf
V=os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
def mutants(src):
    out=[]; lines=src.split('\n'); depth=0; comment=False
    for i,l in enumerate(lines):
        s=l.strip()
        if s.startswith('/*') or s.startswith('*') or s.startswith('#') or s.startswith('//') or 'assert(' in s or 'perror' in s or s=='abort();' : 
            depth+=l.count('{')-l.count('}'); continue
        infn=depth>0
        if infn and s:
            def add(n,what): 
                if n!=l: out.append((i,n,what))
            if s.endswith(';') and not s.startswith(('return','case','break')) and '=' in s and not re.match(r'^(const )?[A-Za-z_]+ \**[a-z_]+( = .*)?;$',s): add('','del')
            elif s.endswith(');') and not s.startswith('return') and not s.startswith('case'): add('','del')
            elif s in('break;','continue;') or s.startswith('++') or s.startswith('--'): add('','del')
            for a,b in (('<=','<'),('>=','>'),('==','!='),('!=','=='),(' < ',' <= '),(' > ',' >= '),(' + ',' - '),(' - ',' + '),('&&','||'),('||','&&'),('++','--'),('--','++'),('true','false'),('false','true'),('->next','->prev'),('->prev','->next'),('->left','->right'),('->right','->left'),('head','tail'),('tail','head'),('first','last'),('last','first'),('->key','->value'),('->value','->key'),('NULL','(void*)list'),(' / ',' * '),(' * ',' / '),('Black','Red'),('Red','Black'),('BLACK','RED'),('RED','BLACK'),('[0]','[1]'),('[1]','[0]'),('!',''),('if(','if(!('),(' 0',' 1'),(' 1',' 2'),('+=','='),('+= ','-= '),('free_key','free_value'),('free_value','free_key'),('parent','parent->parent'),('while(','if('),('ms','0'),('sizeof(void *)','1'),('size','count'),('count','size'),('offset','0')):
                st=0
                while True:
                    j=l.find(a,st)
                    if j<0: break
                    st=j+len(a)
                    if a=='if(':
                        k=j+2; d=0
                        for q in range(k,len(l)):
                            if l[q]=='(': d+=1
                            if l[q]==')':
                                d-=1
                                if d==0: add(l[:k]+'(!'+l[k:q+1]+')'+l[q+1:],'neg'); break
                        continue
                    if a=='<=' or a=='>=' or a=='==' or a=='!=' : pass
                    add(l[:j]+b+l[j+len(a):],a+'->'+b)
            # swap with the next statement
            if i+1<len(lines) and s.endswith(';') and lines[i+1].strip().endswith(';') and not s.startswith('return') and not lines[i+1].strip().startswith(('return','break')):
                out.append((i,lines[i+1]+'\n'+l,'swap'))
        depth+=l.count('{')-l.count('}')
    return lines,out
def run(unit,lines,m,pats):
    i,n,what=m; d=tempfile.mkdtemp(prefix='mut')
    try:
        for f in os.listdir('/repo'):
            if f.endswith(('.c','.h')): shutil.copy('/repo/'+f,d)
        x=list(lines); x[i]=n
        if what=='swap': x[i+1]=''
        open(os.path.join(d,unit),'w').write('\n'.join(x))
        r=subprocess.run(['gcc','-std=c11','-fsyntax-only','-DNDEBUG','-DWITH_PTHREAD','-Werror=implicit-function-declaration','-Werror=incompatible-pointer-types','-I',d,os.path.join(d,unit)],capture_output=True,text=True)
        if r.returncode: return 'nocompile',''
        try: r=subprocess.run(['python3-vt',V+'/dv/try.py']+pats,capture_output=True,text=True,env=dict(os.environ,REPO=d,BUDGET=os.environ.get('MUTBUDGET','60')),timeout=1500)
        except subprocess.TimeoutExpired: return 'killed','timeout'
        bad=[l for l in r.stdout.split('\n') if ' FAIL ' in l or 'MISSING' in l]
        if r.returncode or bad: return 'killed',(bad or ['error'])[0]
        return 'SURVIVED',''
    finally: shutil.rmtree(d,ignore_errors=True)
def main():
    a=sys.argv[1:]; unit=a.pop(0); only=None; mx=None; seed=1; pats=[]
    while a:
        x=a.pop(0)
        if x=='--only': only=re.compile(a.pop(0))
        elif x=='--max': mx=int(a.pop(0))
        elif x=='--seed': seed=int(a.pop(0))
        else: pats.append(x)
    src=open('/repo/'+unit).read(); lines,ms=mutants(src)
    if only: ms=[m for m in ms if only.search('%d:%s'%(m[0]+1,lines[m[0]]))]
    random.Random(seed).shuffle(ms)
    if mx: ms=ms[:mx]
    cnt={}
    with cf.ThreadPoolExecutor(int(os.environ.get('JOBS','8'))) as ex:
        for m,(r,w) in zip(ms,ex.map(lambda m: run(unit,lines,m,pats),ms)):
            cnt[r]=cnt.get(r,0)+1
            if r=='SURVIVED': print('SURVIVED line %d [%s]: %s   =>   %s'%(m[0]+1,m[2],lines[m[0]].strip(),m[1].strip().replace('\n',' // ')),flush=True)
    print(unit,cnt)
main()
