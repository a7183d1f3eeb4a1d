// asynchronous queue under a deterministic scheduler: every lock operation is a scheduling point
#include "h.h"
#include <ucontext.h>
#include <sys/time.h>
#include <time.h>
#include <errno.h>
static AsyncQueue*Q; static int holder=-1; struct Th { ucontext_t c; char*stk; int st; int wcond; bool timed,signaled; timespec dl; std::vector<uint8_t> ops; bool indone; uint64_t t_call; uint32_t ms; int kind,eff; void*arg,*got; size_t sz; };
// st: 0 runnable, 1 wants lock, 2 waits on cond, 3 finished
static std::vector<Th*> th; static ucontext_t mainc; static int cur=-1; static In*IN; static uint64_t now_us; static bool shared_phase; static int inlib;
static std::vector<void*> model; static std::vector<int> popped; static Obj O[256]; static size_t freed_n; static long waiters(){ long n=0; for(auto t:th) n+=t->st==2||(t->st==1&&t->wcond); return n; }
static void yield_(){ int c=cur; swapcontext(&th[c]->c,&mainc); }
static std::vector<void*> content(){ std::vector<void*> c; for(SListItem*x=Q->queue.head;x;x=x->next){ c.push_back(x->data); REQ(c.size()<10000,"seq","the queue is cyclic"); } REQ(Q->queue.count==c.size(),"seq","count %zu, but %zu data",(size_t)Q->queue.count,c.size()); return c; }
static void acquired(){ REQ(content()==model,"seq","the queue changed without the lock"); freed_n=0; }
static void releasing(){ Th*t=th[cur]; auto c=content(); t->sz=c.size(); if(c==model){ return; }
  auto e=model; t->eff++;
  switch(t->kind){ case 0: e.push_back(t->arg); REQ(c==e,"seq","push did not append exactly its datum"); break;
  case 1: REQ(!e.empty(),"seq","pop changed an empty queue"); t->got=e[0]; e.erase(e.begin()); REQ(c==e,"seq","pop did not remove exactly the oldest datum"); break;
  case 2: REQ(c.empty(),"seq","clear left data"); REQ(freed_n==model.size(),"free","clear released %zu data, expected %zu",freed_n,model.size()); break;
  default: failed("seq","count changed the queue"); }
  model=c; }
extern "C" {
int vf_gettimeofday(struct timeval*tv,void*){ tv->tv_sec=now_us/1000000; tv->tv_usec=now_us%1000000; return 0; }
int vf_clock_gettime(clockid_t id,struct timespec*ts){ ts->tv_sec=now_us/1000000; ts->tv_nsec=now_us%1000000*1000; if(id!=CLOCK_REALTIME) ts->tv_sec-=1000000; return 0; }
int vf_mutex_init(pthread_mutex_t*,void*){ return 0; } int vf_cond_init(pthread_cond_t*,void*){ return 0; } int vf_mutex_destroy(pthread_mutex_t*){ REQ(holder<0,"lock","the lock is destroyed while held"); return 0; } int vf_cond_destroy(pthread_cond_t*){ return 0; }
static void pre_release(){ if(Q){ releasing(); long w=waiters()+0; REQ((long)Q->waiting==w,"wait","%zu consumers believed to wait, %ld do",Q->waiting,w);} }
int vf_mutex_lock(pthread_mutex_t*m){ if(cur<0) return 0; REQ(m==&Q->mutex,"lock","another mutex is locked"); REQ(holder!=cur,"lock","the lock is taken twice"); if(holder>=0||IN->u8()%3==0){ th[cur]->st=1; th[cur]->wcond=0; yield_(); } else holder=cur; acquired(); return 0; }
int vf_mutex_trylock(pthread_mutex_t*m){ if(holder>=0) return EBUSY; return vf_mutex_lock(m); }
int vf_mutex_unlock(pthread_mutex_t*){ if(cur<0) return 0; REQ(holder==cur,"lock","the lock is released by a thread that does not hold it"); if(Q) pre_release(); holder=-1; if(IN->u8()%3==0){ th[cur]->st=0; yield_(); } return 0; }
static int wait_(bool timed,const timespec*ts){ Th*t=th[cur]; REQ(holder==cur,"lock","waiting without holding the lock"); t->st=2; t->timed=timed; t->signaled=false; t->wcond=1;
  if(timed){ t->dl=*ts; REQ(ts->tv_nsec>=0&&ts->tv_nsec<1000000000L,"wait","deadline with %ld nanoseconds",(long)ts->tv_nsec); uint64_t d=(uint64_t)ts->tv_sec*1000000+ts->tv_nsec/1000; REQ(t->ms>0,"wait","a pop without timeout waits with a deadline");
    REQ(d>=t->t_call+t->ms*1000ull,"wait","the deadline is %lld us before call time plus timeout (%u ms)",(long long)(t->t_call+t->ms*1000ull-d),t->ms); REQ(d<now_us+t->ms*1000ull+1000000,"wait","the deadline is %lld us after the call, timeout %u ms",(long long)(d-t->t_call),t->ms); }
  else REQ(t->ms==0,"wait","a pop with a timeout waits with no deadline");
  pre_release(); REQ(model.empty(),"wait","a consumer waits although the queue is not empty"); holder=-1; yield_(); acquired(); t->wcond=0; return t->signaled?0:(timed?ETIMEDOUT:0); }
int vf_cond_wait(pthread_cond_t*c,pthread_mutex_t*m){ REQ(c==&Q->cond&&m==&Q->mutex,"wait","waits on something else"); return wait_(false,nullptr); }
int vf_cond_timedwait(pthread_cond_t*c,pthread_mutex_t*m,const timespec*ts){ REQ(c==&Q->cond&&m==&Q->mutex,"wait","waits on something else"); return wait_(true,ts); }
static void wake(bool all){ std::vector<Th*> w; for(auto t:th) if(t->st==2) w.push_back(t); if(w.empty()) return; if(all) for(auto t:w){ t->st=1; t->signaled=true; } else { Th*t=w[IN->u8()%w.size()]; t->st=1; t->signaled=true; } }
int vf_cond_signal(pthread_cond_t*c){ REQ(c==&Q->cond,"wait","another condition is signalled"); wake(false); return 0; }
int vf_cond_broadcast(pthread_cond_t*c){ REQ(c==&Q->cond,"wait","another condition is signalled"); wake(true); return 0; }
// memory accesses of the library code
static void acc(void*a,bool wr){ if(!shared_phase||!inlib||cur<0||!Q) return; char*x=(char*)a,*q=(char*)&Q->queue,*e=(char*)Q+sizeof(AsyncQueue); if(x>=q&&x<e&&holder!=cur) failed("lock",wr?"the shared state is changed without holding the lock":"the shared state is read without holding the lock"); }
#define AC(n) void __sanitizer_cov_load##n(void*a){ acc(a,false);} void __sanitizer_cov_store##n(void*a){ acc(a,true);}
AC(1) AC(2) AC(4) AC(8) AC(16)
}
static void fr(void*p){ freed_n++; }
static int32_t cmp(const void*a,const void*b){ return 0; }
static void body(){ Th*t=th[cur]; int me=cur;
  for(uint8_t o:t->ops){ inlib=1; t->eff=0; t->ms=0; t->t_call=now_us;
    switch(o%8){
    case 0: case 1: case 2: { t->kind=0; t->arg=&O[o]; T("thread %d: push %d",me,o); async_queue_push(Q,t->arg); T("thread %d: push done",me); REQ(t->eff==1,"seq","push appended %d data",t->eff); break; }
    case 3: case 4: case 5: case 6: { static const uint32_t MS[]={1,5,999,1000,1001,1999,2500,60000,4294967295u,250}; void*x=(void*)1; t->kind=1; bool r; if(o%8<5){ T("thread %d: pop",me); r=async_queue_pop(Q,&x); } else { t->ms=MS[(o>>3)%10]; T("thread %d: pop_timeout %u",me,t->ms); r=async_queue_pop_timeout(Q,&x,t->ms); }
      T("thread %d: pop -> %d",me,r); REQ(t->eff==(r?1:0),"seq","pop returned %d but removed %d data",r,t->eff); if(r) REQ(x==t->got,"seq","pop delivered the wrong datum"); break; }
    case 7: if(o&128){ T("thread %d: clear",me); t->kind=2; async_queue_clear(Q); } else { T("thread %d: count",me); t->kind=3; size_t c=async_queue_count(Q); REQ(c==t->sz,"ret","count returned %zu, expected %zu",c,t->sz); } break;
    }
    REQ(holder!=me,"lock","an operation returned holding the lock");
    if(IN->u8()%2){ t->st=0; yield_(); }
  }
  t->st=3; for(;;) yield_();
}
extern "C" int LLVMFuzzerTestOneInput(const uint8_t*p,size_t n){
  if(n<4) return 0; LeakCheck lk; In in(p,n); IN=&in; unsigned cfg=in.u8(); int nt=2+cfg%4; now_us=1000000000ull*1000+((cfg>>2)%16)*66666+in.u8()*3907%1000000; holder=-1; shared_phase=false; model.clear(); popped.clear(); freed_n=0; inlib=0;
  th.clear(); AsyncQueue st; cur=-1; Q=nullptr; bool heap=cfg&64; AsyncQueue*q=heap?async_queue_new(cmp,fr,nullptr):(async_queue_init(&st,cmp,fr,nullptr),&st); Q=q; REQ(Q->waiting==0,"wait","a new queue believes in waiting consumers");
  static char*stacks[8]; 
  for(int i=0;i<nt;i++){ Th*t=new Th(); if(!stacks[i]) stacks[i]=(char*)malloc(256*1024); t->stk=stacks[i]; t->st=0; t->wcond=0; t->signaled=false; unsigned k=in.u8()%7; for(unsigned j=0;j<k;j++) t->ops.push_back(in.u8()); getcontext(&t->c); t->c.uc_stack.ss_sp=t->stk; t->c.uc_stack.ss_size=256*1024; t->c.uc_link=&mainc; makecontext(&t->c,body,0); th.push_back(t); }
  shared_phase=true; int steps=0;
  for(;steps<3000;steps++){
    std::vector<int> run; for(int i=0;i<nt;i++){ Th*t=th[i]; if(t->st==0||(t->st==1&&holder<0)) run.push_back(i); }
    std::vector<int> tw; for(int i=0;i<nt;i++) if(th[i]->st==2) tw.push_back(i);
    unsigned r=in.u8();
    if(tw.size()&&(run.empty()||r%16==15)){ // time passes, or a spurious wakeup
      std::vector<int> tm; for(int i:tw) if(th[i]->timed) tm.push_back(i);
      if(run.empty()&&tm.empty()){ REQ(model.empty(),"wait","all threads are blocked: %zu consumers wait although the queue holds %zu data",tw.size(),model.size()); break; }
      if(tm.size()){ Th*t=th[tm[(r>>4)%tm.size()]]; uint64_t d=(uint64_t)t->dl.tv_sec*1000000+t->dl.tv_nsec/1000; if(d>now_us) now_us=d; t->st=1; t->signaled=false; continue; }
      if(r==255){ Th*t=th[tw[0]]; t->st=1; t->signaled=true; continue; }
    }
    if(run.empty()){ bool fin=true; for(auto t:th) fin&=t->st==3; REQ(fin,"lock","deadlock: no thread can run"); break; }
    now_us+=(r%4)*1234; int c=run[r%run.size()]; Th*t=th[c]; if(t->st==1){ holder=c; t->st=0; } cur=c; swapcontext(&mainc,&t->c); cur=-1;
  }
  shared_phase=false; cur=-1; size_t left=model.size(); bool allfin=true; for(auto t:th) allfin&=t->st==3; long keep=nlive; freed_n=0; Q=nullptr; holder=-1;
  if(heap) async_queue_destroy(q); else async_queue_free(q); REQ(freed_n==left,"free","destroying released %zu data, expected %zu",freed_n,left);
  if(allfin) lk.done(); else nlive=lk.n0; for(auto t:th) delete t; th.clear(); return 0;
}
