#include "h.h"
#include <unistd.h>
#include <fcntl.h>
extern "C" int LLVMFuzzerTestOneInput(const uint8_t*p,size_t n){
  LeakCheck lk; In in(p,n); unsigned cfg=in.u8(); bool heap=cfg&1; size_t max=(cfg&2)?in.u16()%300:(cfg&4)?in.u16():(cfg&8)?SIZE_MAX:(size_t)1<<20; T("buffer max=%zu",max);
  Buffer st,*b=&st; if(heap) b=buffer_new(max); else buffer_init(b,max);
  std::string m; bool valid=true; int ops=0; char*dst=nullptr; size_t dl=0,dcap=0;
  auto gen=[&](unsigned kind,size_t len){ std::string s; in.rng=len*2654435761ull+kind+1; for(size_t i=0;i<len;i++){ uint64_t r=in.rnd(); s+=(kind&3)==0?(char)('a'+r%26):(kind&3)==1?((r>>8)%8?(char)('a'+r%26):'\n'):(kind&3)==2?(char)r:((r>>9)%40?'x':'\n'); } return s; };
  auto len=[&](unsigned k){ unsigned a=in.u8(); switch(k%5){ case 0: return (size_t)a%16; case 1: return (size_t)a; case 2: return (size_t)a*16; case 3: return (size_t)(60+a%10); default: return max!=SIZE_MAX&&max-m.size()<70000?(size_t)(max-m.size()+(a%3)-(max-m.size()>0)):(size_t)a; } };
  while(in.more()&&ops++<200){
    unsigned op=in.u8(); 
    switch(op%9){
    case 0: case 1: { size_t l=len(op>>4); std::string s=gen(in.u8(),l); char*c=(char*)malloc(l?l:1); memcpy(c,s.data(),l); T("fill %zu bytes",l); bool r=buffer_fill(b,c,l); free(c);
      bool e=valid&&max-m.size()>=l; if(valid&&!e) valid=false; if(e) m+=s; REQ(r==e,"ret","fill returned %d, expected %d",r,e); break; }
    case 2: { if(max>(1u<<20)) break; size_t l=SIZE_MAX-in.u8(); T("fill SIZE_MAX-%zu bytes",SIZE_MAX-l); char c=0; bool r=buffer_fill(b,&c,l); valid=false; REQ(!r,"ret","fill beyond the limit succeeded"); break; }
    case 3: { size_t l=len(op>>4)%4000,cnt=1+in.u16()%5000; unsigned mode=in.u8(); std::string s=gen(mode,l); int fd[2]; if(pipe(fd)) break; if(write(fd[1],s.data(),l)!=(ssize_t)l) {} close(fd[1]); int f=fd[0]; if(mode%16==15){ close(fd[0]); f=-1; }
      T("fill_from_fd: %zu bytes there, count %zu%s",l,cnt,f<0?", bad descriptor":""); ssize_t r=buffer_fill_from_fd(b,f,cnt); if(f>=0) close(f); 
      if(!valid) REQ(r==0,"ret","fill_from_fd on an invalid buffer returned %zd",r);
      else if(f<0) REQ(r==-1,"ret","fill_from_fd with a bad descriptor returned %zd",r);
      else { size_t k=std::min(l,cnt); if(k&&max-m.size()<k){ valid=false; REQ(r==-1,"ret","fill_from_fd beyond the limit returned %zd",r);} else { REQ(r==(ssize_t)k,"ret","fill_from_fd returned %zd, expected %zu",r,k); m+=s.substr(0,k);} }
      break; }
    case 4: case 5: { if(op&64){ vf_free(dst); dl=dcap=op&128?0:in.u8(); dst=dl?(char*)vf_malloc(dl):nullptr; if(dst) memset(dst,0x5a,dl); }
      T("read_line into %zu bytes",dl); size_t pos=m.find('\n'); bool e=valid&&pos!=std::string::npos; size_t dl0=dl; std::string old(dst?dst:"",dst?std::min(dl,dcap):0); char*d0=dst;
      bool r=buffer_read_line(b,&dst,&dl); REQ(r==e,"ret","read_line returned %d, expected %d",r,e);
      if(r){ REQ(dst&&dst[pos]==0&&!memcmp(dst,m.data(),pos),"content","read_line delivered the wrong line"); m.erase(0,pos+1); }
      else REQ(dst==d0&&dl==dl0&&(!dst||std::string(dst,old.size())==old),"content","a failed read_line changed its target"); break; }
    case 6: { if(op&64){ vf_free(dst); dl=dcap=op&128?0:in.u8(); dst=dl?(char*)vf_malloc(dl):nullptr; }
      T("flush into %zu bytes",dl); bool e=valid&&m.size(); bool r=buffer_flush(b,&dst,&dl); REQ(r==e,"ret","flush returned %d, expected %d",r,e); if(r) REQ(dst&&dst[m.size()]==0&&!memcmp(dst,m.data(),m.size()),"content","flush delivered the wrong content"); break; }
    case 7: { T("to_string"); char*s=buffer_to_string(b); bool e=valid&&m.size(); REQ((s!=nullptr)==e,"ret","to_string returned %p",s); if(s){ REQ(s[m.size()]==0&&!memcmp(s,m.data(),m.size()),"content","to_string delivered the wrong content"); vf_free(s);} break; }
    case 8: if(op&32||!valid){ T("clear"); buffer_clear(b); m.clear(); valid=true; } break;
    }
    REQ(buffer_is_valid(b)==valid,"valid","is_valid should be %d",valid); REQ(buffer_len(b)==(valid?m.size():0),"count","len %zu, expected %zu",buffer_len(b),m.size()); REQ(buffer_is_empty(b)==(valid&&m.empty()),"ret","is_empty");
    if(valid) REQ(!memcmp(b->data,m.data(),m.size()),"content","the content differs");
    REQ(m.size()<=max,"content","the content exceeds the limit");
  }
  if(heap) buffer_destroy(b); else buffer_free(b); vf_free(dst);
  lk.done(); return 0;
}
