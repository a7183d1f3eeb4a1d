// released memory is reused at once, so that the blocks of a pool do not lie in order of their age
#define ASAN_MORE "quarantine_size_mb=0:thread_local_quarantine_size_kb=0:"
#include "h.h"
extern "C" int LLVMFuzzerTestOneInput(const uint8_t*p,size_t n){
  LeakCheck lk; In in(p,n); size_t isz=1+in.u8()%64,bsz=1+in.u8()%20; if(isz==64) isz=200; if(bsz==20) bsz=300; T("pool item_size=%zu block_size=%zu",isz,bsz);
  { unsigned k=in.u8()%24; std::vector<void*> h; for(unsigned i=0;i<k;i++) h.push_back(malloc(isz*bsz)); unsigned st=1+in.u8()%5; for(unsigned o=0;o<st;o++) for(unsigned i=o;i<k;i+=st) free(h[i]); }
  MemoryPool*mp=memory_pool_new(isz,bsz); REQ(mp,"ret","memory_pool_new"); Pool*pl=(Pool*)mp; std::vector<std::pair<uint8_t*,uint8_t>> live; std::set<void*> freed; unsigned c=0; size_t ops=0;
  auto al=[&]{ uint64_t a0=nallocs; uint8_t*x=(uint8_t*)pl->alloc(pl); REQ(x,"ret","alloc returned NULL"); if(freed.size()){ REQ(freed.erase(x),"reuse","a released item is available, but alloc returned other memory"); REQ(nallocs==a0,"reuse","memory requested although released items are available"); }
    for(auto&e:live) REQ(x+isz<=e.first||e.first+isz<=x,"content","alloc returned memory that overlaps an item in use"); uint8_t v=++c; memset(x,v,isz); live.push_back({x,v}); };
  auto rel=[&](size_t k){ auto e=live[k]; live.erase(live.begin()+k); for(size_t i=0;i<isz;i++) REQ(e.first[i]==e.second,"content","an item in use was overwritten"); freed.insert(e.first); pl->free(pl,e.first); };
  while(in.more()&&ops++<400){ unsigned op=in.u8();
    switch(op%6){ case 0: case 1: T("alloc"); al(); break; case 2: if(live.size()){ size_t k=in.u8()%live.size(); T("free %zu",k); rel(k);} break;
    case 3: { unsigned k=in.u8()%60; if(live.size()>600) break; T("alloc %u",k); while(k--) al(); break; } case 4: { unsigned k=in.u8(); T("free %u",k); while(k--&&live.size()) rel((op>>4)%live.size()); break; } case 5: { T("free newest"); if(live.size()) rel(live.size()-1); break; } }
    for(auto&e:live) REQ(e.first[0]==e.second&&e.first[isz-1]==e.second&&e.first[isz/2]==e.second,"content","an item in use was overwritten");
  }
  T("destroy"); memory_pool_destroy(mp); lk.done(); return 0;
}
