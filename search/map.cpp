// the three maps (-DASSOC, -DHASH, -DRB) against std::map
#include "h.h"
static std::vector<void*> kf,vf; static size_t ncmp;
struct K { int cls; int alive; }; struct V { int alive; };
static K KS[4096]; static V VS[256];
static uint32_t hmode;
static int cls(const void*p){ return ((const K*)p)->cls; }
static void tick(){ if(++ncmp>90000000) failed("loop","too many comparisons"); }
static int32_t wide(int x,int y){ static const int32_t m[]={1,3,128,200,256,0x8000,0x10000,0x7fffffff}; return m[((unsigned)x*5+(unsigned)y*3)%8]; }
static int32_t cmp(const void*a,const void*b){ tick(); int x=cls(a),y=cls(b); return x<y?-wide(x,y):x>y?wide(x,y):0; }
static bool eqf(const void*a,const void*b){ tick(); return cls(a)==cls(b); }
static uint32_t hashf(const void*a){ uint32_t c=cls(a); switch(hmode%6){ case 0: return c; case 1: return c*2654435761u; case 2: return c&3; case 3: return 5; case 4: return 0xfffffff0u+c; default: return c*7919u; } }
static void fk(void*p){ if(!p) failed("free","free_key called with NULL"); kf.push_back(p); }
static void fv(void*p){ if(!p) failed("free","free_value called with NULL"); vf.push_back(p); }
extern "C" { void *g_apk(void*),*g_apv(void*),*g_aik(void*),*g_aiv(void*),*g_hpk(void*),*g_hpv(void*),*g_hik(void*),*g_hiv(void*),*g_rpk(void*),*g_rpv(void*),*g_rik(void*),*g_riv(void*); size_t g_ais(); }
#if defined(ASSOC)
struct AITER { long w[8]; operator AssocArrayIter*(){ return (AssocArrayIter*)this; } };
typedef AssocArray MAP; typedef AssocArrayPair PAIR;
#define N(x) assoc_array_##x
#define G(x) g_a##x
#elif defined(HASH)
typedef HashTable MAP; typedef HashTablePair PAIR;
#define N(x) hashtable_##x
#define G(x) g_h##x
#else
typedef RBTree MAP; typedef RBTreePair PAIR;
#define N(x) rbtree_##x
#define G(x) g_r##x
#endif
static std::set<void*> live; static size_t isz;
static void*palloc(Pool*){ void*p=malloc(sizeof(RBNode)); memset(p,0xa5,sizeof(RBNode)); live.insert(p); return p; }
static void pfree(Pool*,void*p){ if(!live.erase(p)) failed("free","pool: item returned that is not in use"); memset(p,0xcc,sizeof(RBNode)); free(p); }
#ifdef ASSOC
#define ITP(x) ((AssocArrayIter*)&x)
#else
#define ITP(x) (&x)
#endif
typedef std::map<int,std::pair<void*,void*>> MM;
#ifdef RB
static int bh(RBNode*n,bool pr,int*cnt,int lo,int hi,int depth){
  REQ(depth<200,"balance","the tree is too deep"); if(!n) return 0;
  ++*cnt; int c=cls(n->key); REQ(c>lo&&c<hi,"seq","keys are not in search order");
  REQ(n->black||!pr,"balance","a red node has a red child");
  int a=bh(n->left,!n->black,cnt,lo,c,depth+1),b=bh(n->right,!n->black,cnt,c,hi,depth+1);
  REQ(a==b,"balance","paths with %d and %d black nodes",a,b); return a+(n->black?1:0);
}
#endif
static void check(MAP*t,MM&m,bool full){
  REQ(N(count)(t)==m.size(),"count","count %zu, expected %zu",(size_t)N(count)(t),m.size());
#ifdef RB
  int c=0; REQ(!t->root||t->root->black,"balance","the root is red"); bh(t->root,false,&c,-1000000,1000000,0); REQ((size_t)c==m.size(),"seq","%d nodes, expected %zu",c,m.size());
#endif
#ifdef ASSOC
  REQ(N(size)(t)>=m.size(),"ret","size %zu below count",(size_t)N(size)(t)); size_t i=0; for(auto&e:m){ REQ(t->keys[i]==e.second.first&&t->values[i]==e.second.second,"pairs","entry %zu is wrong",i); i++; }
#endif
#ifdef HASH
  size_t c=0; for(size_t i=0;i<t->size;i++) for(auto*b=t->buckets[i];b;b=b->next){ REQ(++c<=m.size(),"seq","too many entries in the buckets"); REQ(hashf(b->key)%t->size==i,"seq","an entry is in the wrong bucket"); }
  REQ(c==m.size(),"seq","%zu entries in the buckets, expected %zu",c,m.size());
#endif
  if(full) for(auto&e:m){ K k{e.first,1}; PAIR*p=N(lookup)(t,&k); REQ(p,"ret","lookup misses key %d",e.first); REQ(N(pair_get_key)(p)==e.second.first,"seq","lookup of %d: wrong key",e.first); REQ(N(pair_get_value)(p)==e.second.second,"seq","lookup of %d: wrong value",e.first);
    REQ(G(pk)(p)==e.second.first&&G(pv)(p)==e.second.second,"seq","pair macros");
  }
}
static void iterate(MAP*t,MM&m,
#if defined(ASSOC)
 AITER
#elif defined(HASH)
 HashTableIter
#else
 RBTreeIter
#endif
 &it,int limit){
  std::set<int> seen; int c=0;
  while(N(iter_next)(ITP(it))){
    void*k=N(iter_get_key)(ITP(it)),*v=N(iter_get_value)(ITP(it)); REQ(seen.insert(cls(k)).second,"iter","key %d visited twice",cls(k));
    auto f=m.find(cls(k)); REQ(f!=m.end()&&f->second.first==k&&f->second.second==v,"iter","iteration yields a pair that is not in the map");
    REQ(G(ik)(&it)==k&&G(iv)(&it)==v,"iter","iter macros");
    if(++c==limit) return;
  }
  REQ(seen.size()==m.size(),"iter","iteration visited %zu of %zu pairs",seen.size(),m.size());
#ifndef ASSOC
  for(int i=0;i<3;i++) REQ(!N(iter_next)(ITP(it)),"iter","the iterator goes on after the end");
#endif
}
// a large map: ascending keys beyond the range of 16 bits
static void bulk(){
  const int n=70000; static K big[70000]; MAP t; ncmp=0; hmode=0; for(int i=0;i<n;i++) big[i]={i,1};
#if defined(ASSOC)
  assoc_array_init(&t,cmp,nullptr,nullptr);
#elif defined(HASH)
  hashtable_init(&t,0,hashf,eqf,nullptr,nullptr);
#else
  rbtree_init(&t,cmp,nullptr,nullptr,nullptr);
#endif
  T("new map; set the keys 0..%d in ascending order, value = key",n-1);
  for(int i=0;i<n;i++){ REQ((int)N(set)(&t,&big[i],&big[i],false)==0,"ret","set of the new key %d did not report a new key",i); REQ(N(count)(&t)==(size_t)i+1,"count","count after key %d",i); }
  T("set, look up all keys"); 
  for(int i=0;i<n;i+=3) REQ((int)N(set)(&t,&big[i],&big[i],false)==1,"ret","set of the existing key %d did not report a replacement",i);
  REQ(N(count)(&t)==(size_t)n,"count","count after replacing");
  for(int i=0;i<n;i++){ PAIR*q=N(lookup)(&t,&big[i]); REQ(q&&N(pair_get_key)(q)==&big[i]&&N(pair_get_value)(q)==&big[i],"seq","lookup of key %d",i); }
  N(free)(&t);
}
extern "C" int LLVMFuzzerTestOneInput(const uint8_t*p,size_t n){
  if(n==2&&p[0]==0xb0&&p[1]==0x1c){ LeakCheck lb; bulk(); lb.done(); return 0; }
  LeakCheck lk; In in(p,n); unsigned cfg=in.u8(); bool wk=cfg&1,wv=cfg&2,heap=cfg&4,wp=cfg&8; hmode=cfg>>4; ncmp=0; kf.clear(); vf.clear(); live.clear();
  unsigned rng=in.u8(); int ncls=rng<100?8+rng:rng<200?(int)rng*4:4096; for(int i=0;i<4096;i++) KS[i]={i%ncls,1};
  FreeFunc ffk=wk?fk:nullptr,ffv=wv?fv:nullptr; MAP st; MAP*t=&st; Pool pool{palloc,pfree}; (void)pool;
#if defined(ASSOC)
  T("new array free_key=%d free_value=%d classes=%d",wk,wv,ncls); wp=false;
  if(heap) t=assoc_array_new(cmp,ffk,ffv); else assoc_array_init(t,cmp,ffk,ffv);
#elif defined(HASH)
  static const size_t SZ[]={0,0,1,2,3,7,11,53,97,193}; size_t size=SZ[in.u8()%10]; T("new table size=%zu hash=%u free_key=%d free_value=%d classes=%d",size,hmode%6,wk,wv,ncls); wp=false;
  if(heap) t=hashtable_new(size,hashf,eqf,ffk,ffv); else hashtable_init(t,size,hashf,eqf,ffk,ffv); size_t fixed=size?t->size:0; if(size) REQ(t->size==size,"config","table has %zu buckets, asked for %zu",t->size,size);
#else
  T("new tree free_key=%d free_value=%d pool=%d classes=%d",wk,wv,wp,ncls);
  if(heap) t=rbtree_new(cmp,ffk,ffv,wp?&pool:nullptr); else rbtree_init(t,cmp,ffk,ffv,wp?&pool:nullptr);
  RBTree other; rbtree_init(&other,cmp,nullptr,nullptr,nullptr); MM om; RBTreeIter rit; bool have=false;
#endif
  MM m; check(t,m,true); size_t ops=0;
  std::vector<void*> ek,ev; 
  auto dropk=[&](void*k){ if(wk) ek.push_back(k); }; auto dropv=[&](void*v){ if(wv&&v) ev.push_back(v); };
  auto set=[&](int ki,void*v,bool ow){ K*k=&KS[ki]; int c=k->cls; auto f=m.find(c); auto r=N(set)(t,k,v,ow);
    if(f==m.end()){ REQ((int)r==0,"ret","set of a new key returned %d",(int)r); m[c]={k,v}; }
    else { REQ((int)r==1,"ret","set of an existing key returned %d",(int)r); if(ow) { dropk(f->second.first); f->second.first=k; } dropv(f->second.second); f->second.second=v; } };
  auto rem=[&](int c){ K k{c,1}; auto f=m.find(c); if(f!=m.end()){ dropk(f->second.first); dropv(f->second.second); m.erase(f);
#ifdef RB
      REQ(rbtree_remove(t,&k),"ret","remove of a present key returned false"); } else REQ(!rbtree_remove(t,&k),"ret","remove of an absent key returned true");
#else
    } N(remove)(t,&k);
#endif
  };
  while(in.more()&&ops<3000){
    ops++; unsigned op=in.u8(),a=in.u16(); ek.clear(); ev.clear(); kf.clear(); vf.clear(); int ki=a%4096; unsigned vi=in.u8(); void*v=vi==255?nullptr:&VS[vi];
    switch(op%16){
    case 0: case 1: case 2: { bool ow=op&16; T("set key#%d (class %d) value#%d overwrite=%d",ki,KS[ki].cls,vi,ow); set(ki,v,ow); break; }
    case 3: case 4: { int c=a%ncls; T("remove %d",c); rem(c); break; }
    case 5: { if(m.empty()) break; auto f=m.begin(); std::advance(f,a%m.size()); int c=f->first; T("remove present %d",c); rem(c); break; }
    case 6: { int c=a%ncls; K k{c,1}; T("exists %d",c); REQ(N(key_exists)(t,&k)==(m.count(c)>0),"ret","key_exists(%d) should be %d",c,m.count(c)>0); break; }
    case 7: { int c=a%ncls; K k{c,1}; T("lookup %d",c); PAIR*p=N(lookup)(t,&k); auto f=m.find(c); REQ((p!=nullptr)==(f!=m.end()),"ret","lookup(%d)",c); if(p){ REQ(N(pair_get_key)(p)==f->second.first&&N(pair_get_value)(p)==f->second.second,"seq","lookup(%d): wrong pair",c); } break; }
    case 8: { int c=a%ncls; K k{c,1}; PAIR*p=N(lookup)(t,&k); if(p&&m.count(c)){ T("pair_set_value %d value#%d",c,vi); dropv(m[c].second); m[c].second=v; N(pair_set_value)(p,v); REQ(N(pair_get_value)(p)==v,"seq","pair_set_value"); } break; }
    case 9: if((op>>4)==3){ T("clear"); for(auto&e:m){ dropk(e.second.first); dropv(e.second.second); } m.clear(); N(clear)(t); } break;
    case 10: { unsigned c=vi; int step=1+(op>>4); T("set %u keys from %d step %d",c,ki,step); for(unsigned j=0;j<c;j++) set((ki+j*step)%4096,&VS[j%255],true); break; }
    case 11: { unsigned c=vi; T("set %u random keys",c); in.rng=a*2654435761ull+1; for(unsigned j=0;j<c;j++) set(in.rnd()%4096,&VS[j%255],j&1); break; }
    case 12: { unsigned c=vi%64; T("remove %u random keys",c); in.rng=a*2654435761ull+1; for(unsigned j=0;j<c&&m.size();j++){ auto f=m.begin(); std::advance(f,in.rnd()%m.size()); rem(f->first); } break; }
    case 13: { T("iterate");
#if defined(ASSOC)
      AITER it; assoc_array_iter_init(t,it); iterate(t,m,it,-1);
#elif defined(HASH)
      HashTableIter it; hashtable_iter_init(t,&it); iterate(t,m,it,-1);
#else
      int lim=(op&16)?1+vi%8:-1; bool useother=op&32;
      if(useother){ K*k=&KS[ki]; if(vi&1){ om[k->cls]={om.count(k->cls)?om[k->cls].first:k,v}; rbtree_set(&other,k,v,false);} else { for(unsigned j=0;j<vi;j++){ K*k2=&KS[(ki+j)%4096]; if(!om.count(k2->cls)){ om[k2->cls]={k2,v}; rbtree_set(&other,k2,v,false);} } } }
      RBTree*tt=useother?&other:t; MM&mm=useother?om:m;
      if(have&&(op&64)) { T(" reuse"); rbtree_iter_reuse(tt,&rit); } else { if(have) rbtree_iter_free(&rit); rbtree_iter_init(tt,&rit); have=true; }
      iterate(tt,mm,rit,lim);
#endif
      break; }
    case 14: { unsigned c=vi%16; T("remove %u smallest/largest",c); for(unsigned j=0;j<c&&m.size();j++) rem((op&16)?m.begin()->first:std::prev(m.end())->first); break; }
    case 15: { for(auto&e:m) { K k{e.first,1}; REQ(N(key_exists)(t,&k),"ret","key_exists misses %d",e.first); } break; }
    }
    std::sort(ek.begin(),ek.end()); std::sort(ev.begin(),ev.end()); std::sort(kf.begin(),kf.end()); std::sort(vf.begin(),vf.end());
    REQ(ek==kf,"free","free_key called %zu times, expected %zu (or for other keys)",kf.size(),ek.size()); REQ(ev==vf,"free","free_value called %zu times, expected %zu (or for other values)",vf.size(),ev.size());
    if(wp) REQ(live.size()==m.size(),"free","pool items in use %zu, expected %zu",live.size(),m.size());
#ifdef HASH
    if(fixed) REQ(t->size==fixed,"config","a fixed table changed its size");
#endif
    check(t,m,ops%8==0||m.size()<64);
  }
  check(t,m,true); ek.clear(); ev.clear(); kf.clear(); vf.clear(); for(auto&e:m){ dropk(e.second.first); dropv(e.second.second); }
  T("%s",heap?"destroy":"free"); if(heap) N(destroy)(t); else N(free)(t);
#ifdef RB
  if(have) rbtree_iter_free(&rit); rbtree_free(&other);
#endif
  std::sort(ek.begin(),ek.end()); std::sort(ev.begin(),ev.end()); std::sort(kf.begin(),kf.end()); std::sort(vf.begin(),vf.end());
  REQ(ek==kf,"free","destroying: free_key called %zu times, expected %zu",kf.size(),ek.size()); REQ(ev==vf,"free","destroying: free_value called %zu times, expected %zu",vf.size(),ev.size()); if(wp) REQ(live.empty(),"free","pool items not returned");
  lk.done();
  return 0;
}
