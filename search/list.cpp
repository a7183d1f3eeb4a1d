#include "h.h"
#ifdef DOUBLY
typedef List L; typedef ListItem I;
#define F(n) list_##n
#else
typedef SList L; typedef SListItem I;
#define F(n) slist_##n
#endif
static std::vector<void*> log_free; static size_t ncmp;
static Obj O[256];
static int cls(const void*p){ return p?((Obj*)p)->cls:-1; }
static int32_t wide(int x,int y){ static const int32_t m[]={1,3,128,200,256,0x8000,0x10000,0x7fffffff}; return m[((unsigned)x*5+(unsigned)y*3)%8]; }
static int32_t cmp(const void*a,const void*b){ if(++ncmp>4000000) failed("loop","too many comparisons"); int x=cls(a),y=cls(b); return x<y?-wide(x,y):x>y?wide(x,y):0; }
static void fr(void*p){ if(!p) failed("free","free function called with NULL"); log_free.push_back(p); }
// a pool that counts
static std::set<void*> live;
static void*palloc(Pool*){ void*p=malloc(sizeof(I)); live.insert(p); return p; }
static void pfree(Pool*,void*p){ if(!live.erase(p)) failed("free","pool: item returned that is not in use"); free(p); }
struct M { I*i; void*d; };
static void check(L*l,std::vector<M>&m){
  REQ(l->count==m.size()&&F(count)(l)==m.size(),"count","count %zu, expected %zu",l->count,m.size());
  REQ(F(empty)(l)==m.empty(),"ret","empty");
  I*x=l->head; REQ(F(head)(l)==(m.empty()?nullptr:m[0].i),"seq","head");
  I*pv=nullptr;(void)pv;
  for(size_t k=0;k<m.size();k++){
    REQ(x==m[k].i,"seq","item %zu is not the expected one",k); REQ(x->data==m[k].d,"seq","data of item %zu",k);
#ifdef DOUBLY
    REQ(x->prev==pv,"seq","back link of item %zu",k); pv=x;
#endif
    x=x->next;
  }
  REQ(x==nullptr,"seq","the list goes on after the last item");
  REQ(l->tail==(m.empty()?nullptr:m.back().i),"seq","tail");
#ifdef DOUBLY
  REQ(list_tail(l)==l->tail,"ret","list_tail");
#endif
  if(l->pool) REQ(live.size()==m.size(),"free","pool items in use: %zu, expected %zu",live.size(),m.size());
}
extern "C" int LLVMFuzzerTestOneInput(const uint8_t*p,size_t n){
  LeakCheck lk; In in(p,n); log_free.clear(); live.clear(); ncmp=0;
  unsigned cfg=in.u8(); bool wf=cfg&1,wp=cfg&2,heap=cfg&4; int ncls=1+(cfg>>3)%16; if(cfg&128) ncls=256;
  for(int i=0;i<256;i++) O[i]={i%ncls,0,0,i};
  Pool pool{palloc,pfree};
  T("new list: free=%d pool=%d classes=%d",wf,wp,ncls);
  L st; L*l=heap?F(new)(cmp,wf?fr:nullptr,wp?&pool:nullptr):(F(init)(&st,cmp,wf?fr:nullptr,wp?&pool:nullptr),&st);
  std::vector<M> m; std::vector<void*> exp;
  check(l,m);
  while(in.more()){
    unsigned op=in.u8(); unsigned a=in.u8(); void*d=a==255?nullptr:&O[a];
    exp.clear(); log_free.clear();
    auto drop=[&](M&x){ if(wf&&x.d) exp.push_back(x.d); };
    auto pick=[&]{ return m[in.u8()%m.size()].i; };
    switch(op%14){
    case 0: case 1: { T("append %d",a); I*i=F(append)(l,d); REQ(i,"ret","append"); m.push_back({i,d}); break; }
    case 2: { T("prepend %d",a); I*i=F(prepend)(l,d); REQ(i,"ret","prepend"); m.insert(m.begin(),{i,d}); break; }
    case 3: case 4: {
      bool s=true; for(size_t k=1;k<m.size();k++) if(cls(m[k-1].d)>cls(m[k].d)) s=false;
      if(!s){ if(op&64) { T("clear"); for(auto&x:m) drop(x); F(clear)(l); m.clear(); } break; }
      T("insert_sorted %d",a); I*i=F(insert_sorted)(l,d); REQ(i,"ret","insert_sorted");
      size_t k=0; I*x=l->head; while(k<m.size()&&x==m[k].i){k++;x=x->next;}
      REQ(x==i,"seq","the new item is not in the list, or items were lost"); m.insert(m.begin()+k,{i,d});
      for(size_t k=1;k<m.size();k++) REQ(cls(m[k-1].d)<=cls(m[k].d),"sorted","not sorted at %zu",k);
      break; }
    case 5: if(m.size()){ unsigned k=in.u8()%m.size(); T("remove item %u",k); drop(m[k]); I*i=m[k].i; m.erase(m.begin()+k); F(remove)(l,i); } break;
    case 6: { bool all=op&16; T("remove_by_data %d all=%d",a,all); std::vector<M> r; bool done=false; for(auto&x:m) if(!done&&cmp(x.d,d)==0){ drop(x); if(!all) done=true; } else r.push_back(x);
      F(remove_by_data)(l,d,all); 
      m=r; break; }
    case 7: { T("pop"); void*r=F(pop)(l); void*e=m.empty()?nullptr:m[0].d; REQ(r==e,"seq","pop returned the wrong data"); if(m.size()) m.erase(m.begin()); break; }
    case 8: { T("contains %d",a); bool e=false; for(auto&x:m) e|=cmp(x.d,d)==0; REQ(F(contains)(l,d)==e,"ret","contains should be %d",e); break; }
    case 9: { I*off=nullptr; size_t k0=0; if(m.size()&&(op&16)){ k0=in.u8()%m.size(); off=m[k0].i; } T("find %d from %zu%s",a,k0,off?"":" (NULL)");
      I*r=F(find)(l,off,d); bool e=false,ok=false; I*first=nullptr; for(size_t k=k0;k<m.size();k++) if(cmp(m[k].d,d)==0){ e=true; if(!first) first=m[k].i; if(m[k].i==r) ok=true; }
      REQ((r!=nullptr)==e,"ret","find should %sfind an item",e?"":"not "); REQ(!r||ok,"ret","find returned a wrong item");
#ifndef DOUBLY
      REQ(r==first,"ret","find returned an item that is not the first match");
#endif
      break; }
    case 10: if(op&32){ T("clear"); for(auto&x:m) drop(x); F(clear)(l); m.clear(); } break;
    case 11: if(m.size()){ unsigned k=in.u8()%m.size(); T("free data of item %u",k); drop(m[k]); F(item_free_data)(l,m[k].i); REQ(!m[k].i->data,"free","freed data is still referenced"); m[k].d=nullptr; } break;
    case 12: { unsigned c=in.u8()%40; T("append %u items",c); for(unsigned j=0;j<c;j++){ void*q=&O[(a+j*7)&127]; m.push_back({F(append)(l,q),q}); } break; }
    case 13: if(m.size()){ I*i=pick(); T("set data"); i->data=d; for(auto&x:m) if(x.i==i) x.d=d; } break;
    }
    std::vector<void*> g=log_free,e=exp; std::sort(g.begin(),g.end()); std::sort(e.begin(),e.end());
    REQ(g==e,"free","free function called %zu times, expected %zu (or for other data)",g.size(),e.size());
    check(l,m);
  }
  exp.clear(); log_free.clear(); if(wf) for(auto&x:m) if(x.d) exp.push_back(x.d);
  T("%s",heap?"destroy":"free"); heap?F(destroy)(l):F(free)(l);
  std::sort(exp.begin(),exp.end()); std::sort(log_free.begin(),log_free.end()); REQ(exp==log_free,"free","destroying: free function called %zu times, expected %zu",log_free.size(),exp.size());
  if(wp) REQ(live.empty(),"free","pool items not returned: %zu",live.size());
  lk.done();
  return 0;
}
