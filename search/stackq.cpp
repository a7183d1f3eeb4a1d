#include "h.h"
static std::vector<void*> log_free; static Obj O[256]; static std::set<void*> live;
static int32_t cmp(const void*a,const void*b){ return a<b?-1:a>b; }
static void fr(void*p){ log_free.push_back(p); }
static void*palloc(Pool*){ void*p=malloc(sizeof(SListItem)); live.insert(p); return p; }
static void pfree(Pool*,void*p){ if(!live.erase(p)) failed("free","pool: item returned that is not in use"); free(p); }
extern "C" int LLVMFuzzerTestOneInput(const uint8_t*p,size_t n){
  LeakCheck lk; In in(p,n); unsigned cfg=in.u8(); bool q=cfg&1,heap=cfg&2,wf=cfg&4,wp=cfg&8; log_free.clear(); live.clear(); Pool pool{palloc,pfree};
  T("%s",q?"queue":"stack"); Stack st; Stack*s; FreeFunc ff=wf?fr:nullptr; Pool*pp=wp?&pool:nullptr;
  if(heap) s=q?queue_new(cmp,ff,pp):stack_new(cmp,ff,pp); else { s=&st; if(q) queue_init(s,cmp,ff,pp); else stack_init(s,cmp,ff,pp); }
  std::vector<void*> m;
  while(in.more()){
    unsigned op=in.u8(),a=in.u8(); void*d=a==255?nullptr:&O[a]; std::vector<void*> exp; log_free.clear();
    switch(op%6){
    case 0: case 1: T("push %d",a); if(q) { queue_push(s,d); m.push_back(d);} else { stack_push(s,d); m.insert(m.begin(),d);} break;
    case 2: case 3: { T("pop"); void*x=(void*)0x77; bool r=q?queue_pop(s,&x):stack_pop(s,&x); REQ(r==!m.empty(),"ret","pop returned %d",r); if(r){ REQ(x==m[0],"seq","pop delivered the wrong datum"); m.erase(m.begin()); } break; }
    case 4: { T("head"); void*x=(void*)0x77; bool r=q?queue_head(s,&x):stack_head(s,&x); REQ(r==!m.empty(),"ret","head returned %d",r); if(r) REQ(x==m[0],"seq","head delivered the wrong datum"); break; }
    case 5: if(op&32){ T("clear"); for(auto x:m) if(x&&wf) exp.push_back(x); if(q) queue_clear(s); else stack_clear(s); m.clear(); } break;
    }
    std::sort(exp.begin(),exp.end()); std::sort(log_free.begin(),log_free.end()); REQ(exp==log_free,"free","free function called %zu times, expected %zu",log_free.size(),exp.size());
    REQ((q?queue_count(s):stack_count(s))==m.size(),"count","count %zu, expected %zu",(size_t)stack_count(s),m.size());
    if(wp) REQ(live.size()==m.size(),"free","pool items in use %zu, expected %zu",live.size(),m.size());
  }
  log_free.clear(); size_t e=0; for(auto x:m) e+=x&&wf; if(heap) { if(q) queue_destroy(s); else stack_destroy(s);} else { if(q) queue_free(s); else stack_free(s); }
  REQ(log_free.size()==e,"free","destroying: free function called %zu times, expected %zu",log_free.size(),e); if(wp) REQ(live.empty(),"free","pool items not returned");
  lk.done();
  return 0;
}
