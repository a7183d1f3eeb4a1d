#include "h.h"
static int sg(int x){ return x<0?-1:x>0; }
extern "C" int LLVMFuzzerTestOneInput(const uint8_t*p,size_t n){
  if(n<2) return 0; size_t k=p[0]%n; p++; n--; if(k>n) k=n;
  // two strings: bytes up to k, bytes from k; cut at a zero byte; exact heap copies so that over-reading is detected
  auto mk=[&](const uint8_t*q,size_t l){ size_t e=0; while(e<l&&q[e]) e++; char*s=(char*)malloc(e+1); memcpy(s,q,e); s[e]=0; return s; };
  char*a=mk(p,k),*b=mk(p+k,n-k),*c=mk(p,k); bool eq=!strcmp(a,b);
  T("strings of length %zu and %zu",strlen(a),strlen(b));
  REQ(str_equal(a,c)&&str_equal(c,a)&&str_equal(a,a),"ret","equal strings are not equal"); REQ(str_equal(a,b)==eq&&str_equal(b,a)==eq,"ret","str_equal should be %d",eq);
  REQ(str_hash(a)==str_hash(c),"ret","equal strings hash differently"); REQ(!eq||str_hash(a)==str_hash(b),"ret","equal strings hash differently");
  if(k<n) for(size_t i=0;i<strlen(a);i++){ char o=c[i]; c[i]=o=='x'?'y':'x'; REQ(str_equal(a,c)==(c[i]==o),"ret","strings that differ at %zu compare equal",i); c[i]=o; }
  CompareFunc sc=str_compare; int32_t r=((int(*)(const char*,const char*))(void*)sc)(a,b); REQ(sg(r)==sg(strcmp(a,b)),"ret","str_compare");
  free(a); free(b); free(c);
  uint64_t v[3]={0,0,0}; for(int i=0;i<3;i++){ uint64_t x=0; for(int j=0;j<8&&(size_t)(i*8+j)<n;j++) x|=(uint64_t)p[i*8+j]<<8*j; v[i]=(n>24&&(p[24]>>i&1))?v[0]+(int8_t)x:x; }
  if(n>25){ static const uint64_t W[]={0,1,2,0x7fffffff,0x80000000ull,0xffffffffull,0x100000000ull,0x7fffffffffffffffull,0x8000000000000000ull,~0ull}; for(int i=0;i<3&&(size_t)25+i<n;i++) if(p[25+i]&1) v[i]=W[(p[25+i]>>1)%10]+((p[25+i]>>5)&1?v[i]&0xff:0); }
  const void*x=(void*)v[0],*y=(void*)v[1],*z=(void*)v[2]; T("%p %p %p",x,y,z);
  REQ(direct_equal(x,y)==(x==y)&&direct_equal(x,x),"ret","direct_equal"); REQ(direct_compare(x,x)==0,"ret","direct_compare of equal values"); REQ((direct_compare(x,y)==0)==(x==y),"ret","direct_compare is zero only for equal values");
  REQ(sg(direct_compare(x,y))==-sg(direct_compare(y,x)),"ret","direct_compare is not antisymmetric"); if(direct_compare(x,y)<0&&direct_compare(y,z)<0) REQ(direct_compare(x,z)<0,"ret","direct_compare is not transitive");
  REQ(direct_hash(x)==direct_hash(x)&&(x!=y||direct_hash(x)==direct_hash(y)),"ret","direct_hash");
  return 0;
}
