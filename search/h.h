// Shared parts of the failing-input search: operation decoding, tracing, failure reporting.
#pragma once
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <cstdint>
#include <string>
#include <vector>
#include <map>
#include <set>
#include <algorithm>
#include <functional>
extern "C" {
#include <datatypes.h>
}
#ifndef ASAN_MORE
#define ASAN_MORE
#endif
extern "C" const char *__asan_default_options() { return ASAN_MORE "detect_leaks=0:allocator_may_return_null=1:abort_on_error=0:detect_stack_use_after_return=0"; }
static bool trace_on() { static int t=-1; if(t<0) t=getenv("TRACE")!=nullptr; return t; }
#define T(...) do{ if(trace_on()) { printf(__VA_ARGS__); printf("\n"); fflush(stdout);} }while(0)
[[noreturn]] static void failed(const char *cat,const std::string &m) { printf("FAILED [%s] %s\n",cat,m.c_str()); fflush(stdout); fprintf(stderr,"FAILED [%s] %s\n",cat,m.c_str()); __builtin_trap(); }
#define REQ(c,cat,...) do{ if(!(c)) { char b_[400]; snprintf(b_,sizeof b_,__VA_ARGS__); failed(cat,b_);} }while(0)
struct In {
  const uint8_t *p; size_t n,i=0; uint64_t rng=88172645463325252ull;
  In(const uint8_t*p_,size_t n_):p(p_),n(n_){}
  bool more() const { return i<n; }
  unsigned u8() { return i<n?p[i++]:0; }
  unsigned u16() { unsigned a=u8(); return a|u8()<<8; }
  uint64_t rnd() { rng^=rng<<13; rng^=rng>>7; rng^=rng<<17; return rng; }
};
// data objects: an array of cells with a class (for comparison) and a count of free calls
struct Obj { int cls; int freed; int owned; int id; };
// counted allocations (leaks and double frees that the address sanitizer cannot attribute)
// allocations made by the library (its sources are compiled with -Dmalloc=vf_malloc and so on)
static long nlive; static uint64_t nallocs;
extern "C" { void*vf_malloc(size_t n){ void*p=malloc(n); if(p){ nlive++; nallocs++; memset(p,0xa5,n<4096?n:4096);} return p; } void*vf_calloc(size_t a,size_t b){ void*p=calloc(a,b); if(p){nlive++;nallocs++;} return p; }
void*vf_realloc(void*q,size_t n){ nallocs++; if(!q) nlive++; size_t dummy=0;(void)dummy; return realloc(q,n); } void vf_free(void*p){ if(p) nlive--; free(p); }
char*vf_strdup(const char*s){ char*p=strdup(s); if(p) nlive++; return p; } }
struct LeakCheck { long n0=nlive; void done(){ REQ(nlive==n0,"leak","%ld blocks of memory not released",nlive-n0); } };
