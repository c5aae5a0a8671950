// Native replay of harness runs. Usage:
//   prog replay ENTRY v0 v1 ...     run one case; exit 0 ok, 1 check failed
//   prog batch                      lines "ENTRY v0 v1 ..." on stdin -> digest lines
#include "sx.h"
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <unistd.h>
#include <dlfcn.h>
#include <sys/wait.h>
#include <exception>
#include <pthread.h>
#include <sched.h>
#include <vector>
#include <sanitizer/allocator_interface.h>
static long long* in_; static int n_, p_; static uint64_t dig; static uint64_t nobs; static bool batch_;
static void out_of_inputs(){ printf("REPLAY-OUT-OF-INPUTS\n"); fflush(stdout); _exit(4); }
static long long next(){ if (p_>=n_) out_of_inputs(); return in_[p_++]; }
extern "C" {
int sx_int(int lo,int hi){ long long v=next(); if (v<lo||v>hi) { printf("REPLAY-RANGE\n"); fflush(stdout); _exit(4);} return (int)v; }
uint32_t sx_u32(void){ return (uint32_t)next(); }
uint64_t sx_u64(void){ return (uint64_t)next(); }
uint64_t sx_concretize(uint64_t v){ return v; }
void sx_assume(int c){ if (!c) { printf("REPLAY-ASSUME-FALSE\n"); fflush(stdout); _exit(5);} }
void sx_check(int c,const char* l){ if (!c) { printf("CHECK-FAILED %s\n",l); fflush(stdout); _exit(1);} }
void sx_fail(const char* l){ sx_check(0,l); }
void sx_observe(uint64_t v){ nobs++; for(int b=0;b<8;b++){ dig^=(v>>(8*b))&255; dig*=1099511628211ull; } }
void sx_reach(const char*){}
int sx_is_native(void){ return 1; }
}
// Threads: only one runs at a time, chosen by the replayed schedule. The baton
// is passed through plain atomics of this file, which is compiled without
// -fsanitize=thread, so it orders nothing in the eyes of the race detector.
#ifndef SX_PREEMPT
#define SX_PREEMPT 2
#endif
static const int MAXT=4; static int preemptBound=SX_PREEMPT;
static struct T { void(*f)(void*); void* a; pthread_t h; bool done,atLock,joining; void* wait; } th_[MAXT]; static int nth_=0, preempt_=0; static volatile int baton_=0; static bool threaded_=false;
static thread_local int self_=0;
static struct M { void* a; int owner; } mx_[256]; static int nmx_=0;
static M* mutexOf(void* a){ for (int i=0;i<nmx_;i++) if (mx_[i].a==a) return &mx_[i]; if (nmx_==256) { printf("TOO-MANY-MUTEXES\n"); _exit(4); } mx_[nmx_].a=a; mx_[nmx_].owner=-1; return &mx_[nmx_++]; }
static bool enabledT(int t){ T& c=th_[t]; if (c.done) return false; if (c.joining) for (int i=1;i<nth_;i++) if (!th_[i].done) return false; if (c.wait&&mutexOf(c.wait)->owner>=0) return false; return true; }
static int scheduleT(){ int en[MAXT],n=0; bool self=enabledT(self_); if (self) en[n++]=self_; for (int t=0;t<nth_;t++) if (t!=self_&&enabledT(t)) en[n++]=t;
  if (!n) { printf("CHECK-FAILED deadlock\n"); fflush(stdout); _exit(1); }
  int pick=en[0]; if (n>1&&!(self&&preempt_>=preemptBound)) { int k=p_<n_?(int)in_[p_++]:0; if (k<0||k>=n) { printf("REPLAY-RANGE\n"); fflush(stdout); _exit(4); } pick=en[k]; }
  if (self&&pick!=self_) preempt_++; return pick; }
static void waitFor(int t){ while (__atomic_load_n(&baton_,__ATOMIC_ACQUIRE)!=t) sched_yield(); }
static void pass(int t){ __atomic_store_n(&baton_,t,__ATOMIC_RELEASE); }
static void* tmain(void* p){ int t=(int)((T*)p-th_); self_=t; waitFor(t); th_[t].f(th_[t].a); th_[t].done=true; pass(scheduleT()); return 0; }
extern "C" {
int __real_pthread_mutex_lock(pthread_mutex_t*); int __real_pthread_mutex_unlock(pthread_mutex_t*);
void sx_spawn(void(*f)(void*),void* a){ if (!nth_) { nth_=1; th_[0]=T(); preempt_=0; baton_=0; self_=0; } threaded_=true; int t=nth_++; th_[t]=T(); th_[t].f=f; th_[t].a=a; pthread_create(&th_[t].h,0,tmain,&th_[t]); }
void sx_join_all(void){ if (!nth_) return; th_[0].joining=true; if (!enabledT(0)) { int p=scheduleT(); pass(p); waitFor(0); } for (int i=1;i<nth_;i++) pthread_join(th_[i].h,0); nth_=0; }
int __wrap_pthread_mutex_lock(pthread_mutex_t* m){
  M* x=mutexOf(m); if (x->owner==(nth_?self_:0)) { printf("CHECK-FAILED deadlock (mutex locked twice by one thread)\n"); fflush(stdout); _exit(1); }
  if (nth_) { T& c=th_[self_]; c.wait=m; int p=scheduleT(); if (p!=self_) { int me=self_; pass(p); waitFor(me); } c.wait=0; }
  mutexOf(m)->owner=nth_?self_:0; return __real_pthread_mutex_lock(m); }
int __wrap_pthread_mutex_unlock(pthread_mutex_t* m){ M* x=mutexOf(m); if (x->owner!=(nth_?self_:0)) { printf("CHECK-FAILED mutex-misuse\n"); fflush(stdout); _exit(1); } x->owner=-1; int r=__real_pthread_mutex_unlock(m); if (!nth_) { *x=mx_[--nmx_]; } return r; }
}
static int run(char* name,char** av,int ac){
  void (*f)()=(void(*)())dlsym(RTLD_DEFAULT,name); if (!f) { fprintf(stderr,"no entry %s\n",name); return 3; }
  in_=(long long*)malloc(sizeof(long long)*(ac+1)); n_=ac; p_=0; for(int i=0;i<ac;i++) in_[i]=(long long)strtoll(av[i],0,10);
  dig=1469598103934665603ull; nobs=0; 
  size_t before=__sanitizer_get_current_allocated_bytes();
  try { f(); } catch (...) { printf("CHECK-FAILED uncaught-exception\n"); fflush(stdout); _exit(1); }
  size_t after=__sanitizer_get_current_allocated_bytes();
  if (after!=before&&!threaded_) { printf("CHECK-FAILED leak (%ld bytes)\n",(long)(after-before)); fflush(stdout); _exit(1); }
  free(in_); in_=0; return 0;
}
int main(int argc,char** argv){
  std::set_terminate([]{ printf("CHECK-FAILED terminate\n"); fflush(stdout); _exit(1); });
  if (argc>=3&&!strcmp(argv[1],"replay")) { alarm(25); int r=run(argv[2],argv+3,argc-3); printf("COMPLETED %llx %llu\n",(unsigned long long)dig,(unsigned long long)nobs); fflush(stdout); return r; }
  if (argc>=2&&!strcmp(argv[1],"batch")) { static char line[1<<16]; while (fgets(line,sizeof line,stdin)) { char* av[4096]; int n=0; for(char* t=strtok(line," \n");t;t=strtok(0," \n")) av[n++]=t; if(!n) continue; pid_t c=fork(); if (c==0) { alarm(60); run(av[0],av+1,n-1); printf("%llx %llu\n",(unsigned long long)dig,(unsigned long long)nobs); fflush(stdout); _exit(0); } int st; waitpid(c,&st,0); if (!WIFEXITED(st)) { printf("CRASHED\n"); fflush(stdout); } } return 0; }
  return 3;
}
