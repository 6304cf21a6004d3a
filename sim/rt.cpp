#include <link.h>
#include <sys/auxv.h>
// Simulator runtime. Everything here runs in the forked child of one simulated run, except rt_setup.
#include "rt.h"
#include <ucontext.h>
#include <stdio.h>
#include <gmp.h>
#include <mpfr.h>
#include <cxxabi.h>
#include <errno.h>
#include <fcntl.h>
#include <pthread.h>
#include <sched.h>
#include <semaphore.h>
#include <signal.h>
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <time.h>
#include <unistd.h>
#include <sys/mman.h>
#include <sys/syscall.h>
#include <sys/time.h>
#include <linux/futex.h>
#include <algorithm>
#include <exception>
#include <iostream>
#include <locale>
#include <new>
#include <stdexcept>
#include <streambuf>
#include <dlfcn.h>
#include <typeinfo>
#include <fenv.h>

const char *attr_name[A_N]={"debug","mxcsr","x87","prec","rnd","range","mpflags","failk","failmode","gset","fmt","fill","sprec","loc","sfault","spos","sexc","cfault","cpos","cexc","gloc","stack","heap","burst","triple","phase","keep","errno","unwind","spre"};
const char *par_name[P_N]={"quantum","mode","order","seed","nthreads","limit","norestore","life","env"};

// ---------------------------------------------------------------- threads
void rt_one_init(int);
uint64_t outcome_hash(uint64_t h,uint32_t n,int st,uint64_t exc,const char *text,uint32_t tl){ uint64_t v=mix(h^(n&0x7FFFFFFFu)^((uint64_t)st<<32)^exc); v=mix(v^tl); for(uint32_t i=0;i<tl&&i<1600;i++) v=mix(v^(unsigned char)text[i]); return v; }
namespace {
struct Frame { int ev; int64_t step, stop; const Sw *sw, *swend; int nnest; int nestdone; Frame *up; };
struct Thr {
  int tid; int go; uintptr_t lo, span; int active; Frame *f; int guard; int depth; bool done, blocked, created, leaving; void *wait_on; int64_t since;
  int64_t failk, failmode, newcalls, fails; int64_t hcalls; int tag; int heapfill; uint64_t heaprng; bool rec;
  int64_t total; uintptr_t pc; bool burst;
};
__thread Thr *self;
Thr thr[MAXTHR]; int nthr;
Shared *S; const Plan *PL; ExecOpt OPT;
std::vector<int> nested_of[MAXEV];
std::vector<Sw> sw_of[MAXEV];
int64_t quantum=50000, total_limit=400000000;
int64_t total_steps;
char *stack_base[MAXTHR]; const size_t STK=1<<20;
Rec *recbuf; int32_t *recn; int64_t *recsteps;
struct AtExit { void (*f)(void*); void *o; }; struct ExitList { AtExit a[256]; int n; void add(void (*f)(void*),void *o){ if(n<256) a[n++]=AtExit{f,o}; } } at_exit, at_thread_exit[MAXTHR]; int exiting;
struct GuardRec { void *g; int owner; bool inprog; int depth; } guards[256]; int nguards;
struct MtxRec { void *m; int owner; int count; } mtx[64]; int nmtx;
struct OnceRec { void *o; int owner; } onces[64]; int nonces;

inline void futex_wait(int *p,int v){ syscall(SYS_futex,p,FUTEX_WAIT_PRIVATE,v,NULL,NULL,0); }
inline void futex_wake(int *p){ syscall(SYS_futex,p,FUTEX_WAKE_PRIVATE,1,NULL,NULL,0); }
inline void tr(uint64_t x){ S->trace=mix(S->trace^x); }
[[noreturn]] void fatal(int k,const char *msg){ if(S){ S->fatal=k; S->fatal_ev=self&&self->f?self->f->ev:-1; snprintf(S->msg,sizeof S->msg,"%s",msg); } _exit(60+k); }

void park(Thr *t){ while(__atomic_load_n(&t->go,__ATOMIC_ACQUIRE)==0) futex_wait(&t->go,0); t->go=0; }
void wake(Thr *t){ __atomic_store_n(&t->go,1,__ATOMIC_RELEASE); futex_wake(&t->go); }
bool runnable(int i){ return i>=0&&i<nthr&&thr[i].created&&!thr[i].done&&!thr[i].blocked; }
int pick(int after){ for(int k=1;k<=nthr;k++){ int i=(after+k)%nthr; if(runnable(i)) return i; } return -1; }
void give(Thr *t,int next){ // hand the processor to another thread and wait for it back
  if(next==t->tid) return; int a=t->active; t->active=0; t->since=0; S->nsw++; tr((uint64_t)t->tid<<8|next); wake(&thr[next]); park(t); t->active=a; t->since=0; }
void block(Thr *t,void *on){ if(t->leaving){ S->harness=1; _exit(0); } t->blocked=true; t->wait_on=on; S->nblock++; int n=pick(t->tid); if(n<0) fatal(FT_DEADLOCK,"every thread is waiting: an operation never finishes"); give(t,n); }
void unblock(void *on){ for(int i=0;i<nthr;i++) if(thr[i].blocked&&thr[i].wait_on==on){ thr[i].blocked=false; thr[i].wait_on=0; } }

void run_event(int id,Thr *t);
void recompute(Frame *f){ int64_t s=f->step+quantum; if(f->sw<f->swend&&f->sw->step<s) s=f->sw->step; if(f->nestdone<f->nnest){ int64_t q=PL->ev[nested_of[f->ev][f->nestdone]].pstep; if(q<s) s=q; } f->stop=s; }
__attribute__((noinline)) void slow(Thr *t){
  Frame *f=t->f; total_steps+=0;
  bool defer=false;
  while(f->nestdone<f->nnest && PL->ev[nested_of[f->ev][f->nestdone]].pstep<=f->step){
    if(t->guard>0||t->depth>=9){ defer=true; break; }
    int id=nested_of[f->ev][f->nestdone++]; int e=errno; int a=t->active; t->active=0; t->depth++; S->nint++; tr(0x1000+id); run_event(id,t); t->depth--; t->active=a; errno=e; }
  while(f->sw<f->swend && f->sw->step<=f->step){ int n=f->sw->next; f->sw++; if(n!=t->tid&&n>=0&&n<nthr&&runnable(n)) give(t,n); }
  if(t->since>quantum){ t->since=0; if(thr[0].total+thr[1].total+thr[2].total+thr[3].total+thr[4].total+thr[5].total+thr[6].total+thr[7].total>total_limit) fatal(FT_RUNAWAY,"step limit: an operation never finishes"); int n=pick(t->tid); if(n>=0&&n!=t->tid) give(t,n); }
  recompute(f); if(defer&&f->stop>f->step+1) f->stop=f->step+1;
}
size_t tls_size=0; // thread-local block of this executable, directly below the thread pointer
inline uintptr_t tls_base(){ uintptr_t tp; asm("mov %%fs:0,%0":"=r"(tp)); return tp-tls_size; }
inline bool in_tls(uint32_t a){ return a-(uint32_t)tls_base()<(uint32_t)tls_size; }
inline void step(Thr *t,uint32_t addr,int w,int kind){
  Frame *f=t->f; if(!f) return;
  if(t->rec){ if(kind==1&&in_tls(addr)){ kind=0; addr-=(uint32_t)tls_base(); } if(*recn<MAXREC){ if(kind<=1||kind==3){ Rec &r=recbuf[(*recn)++]; r.step=(int32_t)f->step+1; r.addr=addr; r.write=w; r.kind=kind; } } }
  f->step++; t->since++; t->total++;
  if(__builtin_expect(f->step>=f->stop,0)) slow(t);
}
extern "C" char __data_start, _end;
#include "race.inc"
inline void acc(void *p,int w,size_t n,int atomic=0){
  Thr *t=self; if(__builtin_expect(!t||!t->active,0)) return;
  uintptr_t a=(uintptr_t)p; if(a-t->lo<t->span) return; if(a<(uintptr_t)&__data_start) return;
#ifndef PLAIN
  if(race_on) race_acc(t,a,n,w,atomic);
#endif
  step(t,(uint32_t)a,w,(a<(uintptr_t)&_end)?0:1);
}
bool reported[MAXEV+8];   // the call printed a difference
inline int ext_tag(){ Thr *t=self; return (t&&t->f)?t->f->ev+1:0; }
inline void ext(int kind){ Thr *t=self; if(!t||!t->active) return; step(t,0,0,kind); }
}
bool g_instrumented=
#ifdef PLAIN
 false;
#else
 true;
#endif
extern "C" {
void sim_ext(uintptr_t pc,void **target){ ext(2); Thr *t=self; if(t&&t->active){ t->pc=pc; if(*target==(void*)mpfr_fprintf||*target==(void*)fprintf) reported[ext_tag()]=true; } }
void __tsan_init(){}
void __tsan_func_entry(void*){ Thr *t=self; if(t&&t->active) step(t,0,0,4); }
void __tsan_func_exit(){}
void __tsan_vptr_update(void **p,void*){ acc(p,1,8); }
void __tsan_vptr_read(void **p){ acc(p,0,8); }
#define RW(n) void __tsan_read##n(void*p){acc(p,0,n);} void __tsan_write##n(void*p){acc(p,1,n);} void __tsan_unaligned_read##n(void*p){acc(p,0,n);} void __tsan_unaligned_write##n(void*p){acc(p,1,n);} \
  void __tsan_volatile_read##n(void*p){acc(p,0,n);} void __tsan_volatile_write##n(void*p){acc(p,1,n);} void __tsan_unaligned_volatile_read##n(void*p){acc(p,0,n);} void __tsan_unaligned_volatile_write##n(void*p){acc(p,1,n);} \
  void __tsan_read_write##n(void*p){acc(p,1,n);} void __tsan_unaligned_read_write##n(void*p){acc(p,1,n);}
RW(1) RW(2) RW(4) RW(8) RW(16)
void __tsan_read_range(void*p,unsigned long n){acc(p,0,n);} void __tsan_write_range(void*p,unsigned long n){acc(p,1,n);}
#ifndef PLAIN
#define BEF(w) acc((void*)p,w,sizeof *p,1)
#define RMW(N,T,NAME,EXPR) T __tsan_atomic##N##_##NAME(volatile T*p,T v,int o){ BEF(1); hb_load((void*)p,o); T r=EXPR; hb_store((void*)p,o,true); return r; }
#define AT(N,T) \
 T __tsan_atomic##N##_load(const volatile T*p,int o){ BEF(0); T r=__atomic_load_n(p,5); hb_load((void*)p,o); return r; } void __tsan_atomic##N##_store(volatile T*p,T v,int o){ BEF(1); hb_store((void*)p,o,false); __atomic_store_n(p,v,5); } \
 RMW(N,T,exchange,__atomic_exchange_n(p,v,5)) RMW(N,T,fetch_add,__atomic_fetch_add(p,v,5)) RMW(N,T,fetch_sub,__atomic_fetch_sub(p,v,5)) RMW(N,T,fetch_and,__atomic_fetch_and(p,v,5)) \
 RMW(N,T,fetch_or,__atomic_fetch_or(p,v,5)) RMW(N,T,fetch_xor,__atomic_fetch_xor(p,v,5)) RMW(N,T,fetch_nand,__atomic_fetch_nand(p,v,5)) \
 int __tsan_atomic##N##_compare_exchange_strong(volatile T*p,T*c,T v,int o,int q){ BEF(1); int r=__atomic_compare_exchange_n(p,c,v,0,5,5); hb_load((void*)p,r?o:q); if(r) hb_store((void*)p,o,true); return r; } \
 int __tsan_atomic##N##_compare_exchange_weak(volatile T*p,T*c,T v,int o,int q){ return __tsan_atomic##N##_compare_exchange_strong(p,c,v,o,q); } \
 T __tsan_atomic##N##_compare_exchange_val(volatile T*p,T c,T v,int o,int q){ __tsan_atomic##N##_compare_exchange_strong(p,&c,v,o,q); return c; }
AT(8,uint8_t) AT(16,uint16_t) AT(32,uint32_t) AT(64,uint64_t)
u128 __tsan_atomic128_load(const volatile u128*p,int o){ BEF(0); hb_load((void*)p,o); return *p; } void __tsan_atomic128_store(volatile u128*p,u128 v,int o){ BEF(1); hb_store((void*)p,o,false); *p=v; }
void __tsan_atomic_thread_fence(int o){ ext(2); hb_fence(o); } void __tsan_atomic_signal_fence(int){}
void *simx_memcpy(void *d,const void *s,size_t n){ ext(2); if(n){ acc((void*)s,0,n); acc(d,1,n); } return memcpy(d,s,n); }
void *simx_memmove(void *d,const void *s,size_t n){ ext(2); if(n){ acc((void*)s,0,n); acc(d,1,n); } return memmove(d,s,n); }
void *simx_memset(void *d,int c,size_t n){ ext(2); if(n) acc(d,1,n); return memset(d,c,n); }
#endif

// ------------------------------------------------ one-time initialisation, locks: simulated blocking
static GuardRec *guard_of(void *g){ for(int i=0;i<nguards;i++) if(guards[i].g==g) return &guards[i]; GuardRec *r=&guards[nguards<255?nguards++:255]; r->g=g; r->inprog=false; r->owner=-1; return r; }
int __cxa_guard_acquire(void *g){
  ext(3); Thr *t=self; if(*(volatile char*)g){ hb_acquire(g); return 0; }
  GuardRec *r=guard_of(g); int me=t?t->tid:-1;
  while(r->inprog){ if(!t||r->owner==me) fatal(FT_DEADLOCK,"one-time initialisation re-entered: never finishes"); block(t,r); if(*(volatile char*)g){ hb_acquire(g); return 0; } }
  r->inprog=true; r->owner=me; hb_acquire(g); if(t) t->guard++; return 1; }
void __cxa_guard_release(void *g){ Thr *t=self; GuardRec *r=guard_of(g); hb_release(g); *(volatile char*)g=1; r->inprog=false; if(t){ t->guard--; unblock(r);} ext(3); }
void __cxa_guard_abort(void *g){ Thr *t=self; GuardRec *r=guard_of(g); hb_release(g); r->inprog=false; if(t){ t->guard--; unblock(r);} ext(3); }
static MtxRec *mtx_of(void *m){ for(int i=0;i<nmtx;i++) if(mtx[i].m==m) return &mtx[i]; for(int i=0;i<nmtx;i++) if(!mtx[i].count){ mtx[i].m=m; return &mtx[i]; } MtxRec *r=&mtx[nmtx<63?nmtx++:63]; r->m=m; r->count=0; r->owner=-1; return r; }
static int lock_any(void *m,bool recursive,bool tryonly){ ext(3); Thr *t=self; if(!t) return 0; MtxRec *r=mtx_of(m);
  while(r->count&&!(recursive&&r->owner==t->tid)){ if(tryonly) return EBUSY; if(r->owner==t->tid) fatal(FT_DEADLOCK,"lock taken twice by one thread: never finishes"); block(t,m); r=mtx_of(m); /* records of free locks are reused */ }
  r->owner=t->tid; r->count++; hb_acquire(m); return 0; }
static int unlock_any(void *m){ Thr *t=self; if(!t) return 0; MtxRec *r=mtx_of(m); if(r->count>0){ hb_release(m); r->count--; if(!r->count){ r->owner=-1; unblock(m);} } ext(3); return 0; }
static bool is_rec(pthread_mutex_t *m){ return (m->__data.__kind&3)==PTHREAD_MUTEX_RECURSIVE; }
int pthread_mutex_lock(pthread_mutex_t *m){ return lock_any(m,is_rec(m),false); }
int pthread_mutex_trylock(pthread_mutex_t *m){ return lock_any(m,is_rec(m),true); }
int pthread_mutex_unlock(pthread_mutex_t *m){ return unlock_any(m); }
int pthread_mutex_timedlock(pthread_mutex_t *m,const struct timespec*){ return lock_any(m,is_rec(m),false); }
int pthread_mutex_clocklock(pthread_mutex_t *m,clockid_t,const struct timespec*){ return lock_any(m,is_rec(m),false); }
int pthread_rwlock_rdlock(pthread_rwlock_t *m){ return lock_any(m,true,false); }
int pthread_rwlock_tryrdlock(pthread_rwlock_t *m){ return lock_any(m,true,true); }
int pthread_rwlock_trywrlock(pthread_rwlock_t *m){ return lock_any(m,false,true); }
int pthread_rwlock_wrlock(pthread_rwlock_t *m){ return lock_any(m,false,false); }
int pthread_rwlock_unlock(pthread_rwlock_t *m){ return unlock_any(m); }
int pthread_spin_trylock(pthread_spinlock_t *m){ return lock_any((void*)m,false,true); }
int pthread_spin_lock(pthread_spinlock_t *m){ return lock_any((void*)m,false,false); }
int pthread_spin_unlock(pthread_spinlock_t *m){ return unlock_any((void*)m); }
int pthread_once(pthread_once_t *o,void(*fn)(void)){
  ext(3); if(*(volatile int*)o==2){ hb_acquire(o); return 0; } Thr *t=self; int me=t?t->tid:-1; OnceRec *r=0; for(int i=0;i<nonces;i++) if(onces[i].o==(void*)o) r=&onces[i];
  if(!r){ r=&onces[nonces<63?nonces++:63]; r->o=(void*)o; r->owner=-2; }
  while(r->owner!=-2){ if(r->owner==me) fatal(FT_DEADLOCK,"one-time initialisation re-entered: never finishes"); block(t,r); if(*(volatile int*)o==2){ hb_acquire(o); return 0; } }
  hb_acquire(o);
  r->owner=me; if(t) t->guard++;
  try { fn(); } catch(...) { hb_release(o); r->owner=-2; if(t){ t->guard--; unblock(r);} throw; }
  hb_release(o); *(volatile int*)o=2; r->owner=-2; if(t){ t->guard--; unblock(r);} ext(3); return 0; }
 // a waiter may also wake without reason: a signal wakes them all
static uint64_t cond_seq;
int pthread_cond_wait(pthread_cond_t *c,pthread_mutex_t *m){ Thr *t=self; if(!t) return 0; hb_release(c); uint64_t q=cond_seq; unlock_any(m); if(q==cond_seq) block(t,(void*)c); /* else signalled meanwhile */ lock_any(m,is_rec(m),false); hb_acquire(c); return 0; }
int pthread_cond_timedwait(pthread_cond_t *c,pthread_mutex_t *m,const struct timespec*){ Thr *t=self; if(!t) return 0; if(pick(t->tid)<0||pick(t->tid)==t->tid) return ETIMEDOUT; return pthread_cond_wait(c,m); }
int pthread_cond_clockwait(pthread_cond_t *c,pthread_mutex_t *m,clockid_t,const struct timespec *ts){ return pthread_cond_timedwait(c,m,ts); }
int pthread_cond_signal(pthread_cond_t *c){ hb_release(c); cond_seq++; if(self) unblock((void*)c); ext(3); return 0; }
int pthread_cond_broadcast(pthread_cond_t *c){ return pthread_cond_signal(c); }
int sem_init(sem_t *s,int,unsigned v){ *(unsigned*)s=v; return 0; } int sem_destroy(sem_t*){ return 0; }
int sem_trywait(sem_t *s){ ext(3); if(!*(volatile unsigned*)s){ errno=EAGAIN; return -1; } --*(volatile unsigned*)s; hb_acquire(s); return 0; }
int sem_wait(sem_t *s){ ext(3); Thr *t=self; while(!*(volatile unsigned*)s){ if(!t) return -1; block(t,(void*)s); } --*(volatile unsigned*)s; hb_acquire(s); return 0; }
int sem_post(sem_t *s){ hb_release(s); ++*(volatile unsigned*)s; if(self) unblock((void*)s); ext(3); return 0; }
static int yield_now(){ Thr *t=self; if(t&&t->active){ ext(2); int n=pick(t->tid); if(n>=0&&n!=t->tid) give(t,n); } return 0; }
int sched_yield(){ return yield_now(); }
int usleep(useconds_t){ return yield_now(); }
int nanosleep(const struct timespec*,struct timespec*){ return yield_now(); }
int clock_nanosleep(clockid_t,int,const struct timespec*,struct timespec*){ return yield_now(); }
// simulated clock: reading it advances it, so that nothing depends on real time
static uint64_t sim_clock=1000000000ull; static uint64_t env_n; static void env_clock(){ static bool on=false; if(!on&&PL){ on=true; if(PL->p[P_ENV]) sim_clock+=mix(PL->p[P_ENV])%4000000000000000000ull; } }
static uint64_t env_val(uint64_t kind){ ext(2); return mix((PL?PL->p[P_ENV]:0)*977+kind*31+ ++env_n); }
int clock_gettime(clockid_t,struct timespec *ts){ env_clock(); sim_clock+=1000+(PL&&PL->p[P_ENV]?mix(PL->p[P_ENV]+ ++env_n)%100000000:0); ts->tv_sec=sim_clock/1000000000ull; ts->tv_nsec=sim_clock%1000000000ull; return 0; }
time_t time(time_t *p){ env_clock(); time_t v=sim_clock/1000000000ull; if(p)*p=v; return v; }
// what else the surroundings of a call could tell it, for calls made by the library's own code: fixed in the reference run, drawn from P_ENV here
int simx_rand(){ return env_val(1)&0x7FFFFFFF; } long simx_random(){ return env_val(2)&0x7FFFFFFF; } int simx_rand_r(unsigned *p){ *p=*p*1103515245u+12345u; return *p>>1&0x7FFFFFFF; } void simx_srand(unsigned){ ext(2); } void simx_srandom(unsigned){ ext(2); }
double simx_drand48(){ return (env_val(3)>>11)*0x1p-53; } long simx_lrand48(){ return env_val(3)&0x7FFFFFFF; } long simx_mrand48(){ return (int)env_val(3); } unsigned simx_arc4random(){ return (unsigned)env_val(4); }
char *simx_getenv(const char*){ uint64_t v=env_val(5); static char one[2]="1",zero[2]="0"; if(!PL->p[P_ENV]) return 0; return v%4==0?0:v%4==1?zero:one; }
int simx_getpid(){ ext(2); return 100+(PL->p[P_ENV]?mix(PL->p[P_ENV])%30000:0); } int simx_gettid(){ return simx_getpid(); } int simx_getppid(){ return simx_getpid(); }
clock_t simx_clock(){ struct timespec ts; ext(2); clock_gettime(0,&ts); return ts.tv_sec*1000000+ts.tv_nsec/1000; } int simx_gettimeofday(struct timeval *tv,void*){ struct timespec ts; ext(2); clock_gettime(0,&ts); tv->tv_sec=ts.tv_sec; tv->tv_usec=ts.tv_nsec/1000; return 0; }
ssize_t simx_getrandom(void *p,size_t n,unsigned){ for(size_t i=0;i<n;i++) ((char*)p)[i]=env_val(6); return n; } int simx_getentropy(void *p,size_t n){ simx_getrandom(p,n,0); return 0; }
unsigned simx__ZNSt13random_device9_M_getvalEv(void*){ return (unsigned)env_val(7); } double simx__ZNKSt13random_device13_M_getentropyEv(void*){ return 0; }
int simx_sched_getcpu(){ ext(2); return PL->p[P_ENV]?mix(PL->p[P_ENV])%8:0; } unsigned simx__ZNSt6thread20hardware_concurrencyEv(){ ext(2); static const unsigned k[]={0,1,2,3,8,64}; return PL->p[P_ENV]?k[mix(PL->p[P_ENV])%6]:4; }
static void burst_left_domain(){ Thr *t=self; if(t&&t->burst&&S){ S->harness=1; _exit(0); } }
void __assert_fail(const char *e,const char *f,unsigned l,const char *) { burst_left_domain(); char b[190]; const char *s=strrchr(f,'/'); snprintf(b,sizeof b,"assertion failed: %.100s (%s:%u)",e,s?s+1:f,l); fatal(FT_ASSERT,b); }
// what the library registers for the end of the process or of a thread: run by the simulator, calls may come before, between and after
int simx___cxa_atexit(void (*f)(void*),void *o,void*){ at_exit.add(f,o); ext(2); return 0; }
static void plain_exit_fn(void *f){ ((void(*)())f)(); }
int simx_atexit(void (*f)()){ at_exit.add(plain_exit_fn,(void*)f); ext(2); return 0; }
int simx___cxa_thread_atexit(void (*f)(void*),void *o,void*){ Thr *t=self; if(t) at_thread_exit[t->tid].add(f,o); ext(2); return 0; }
void simx_exit(int c){ burst_left_domain(); char b[64]; snprintf(b,64,"the library called exit(%d)",c); fatal(FT_EXIT,b); }
void simx_abort(){ burst_left_domain(); fatal(FT_EXIT,"the library called abort()"); }
}

#include "asan.inc"

// ---------------------------------------------------------------- host heap
extern "C" { void *__libc_malloc(size_t); void __libc_free(void*); }
namespace {
struct Hdr { uint32_t magic; int32_t tag; uint64_t size; };   // directly before the user block
struct Hdr0 { void *base; };
extern int gerr; int64_t live_by_tag[MAXEV*4+16]; int64_t live_blocks[MAXEV*4+16];
int cur_tag(){ Thr *t=self; return (t&&t->active)?t->tag:0; }
void fillmem(unsigned char *p,size_t n,int pat,uint64_t &rng){ if(pat==1) memset(p,0,n); else if(pat==2) memset(p,0xFF,n); else if(pat==3) memset(p,1,n); else { for(size_t i=0;i<n;i++){ if((i&7)==0) rng=mix(rng+i+pat); p[i]=(unsigned char)(rng>>((i&7)*8)); } } }
void *halloc(size_t n,size_t al){
  if(al<16) al=16; if(n>(size_t)1<<40){ errno=ENOMEM; return 0; }
  char *b=(char*)__libc_malloc(n+al+48); if(!b) return 0;
  uintptr_t u=((uintptr_t)b+32+al-1)&~(uintptr_t)(al-1); Hdr *h=(Hdr*)(u-sizeof(Hdr)); ((void**)(u-sizeof(Hdr)-8))[0]=b; h->magic=0x51A110Cu; h->size=n; h->tag=0; mem_dead((void*)(u-sizeof(Hdr)),sizeof(Hdr),0xfa); mem_dead((void*)(u+n),8,0xfa); mem_live((void*)u,n); race_forget((void*)u,n);
  Thr *t=self; if(t&&t->active){ t->hcalls++; h->tag=t->tag; live_by_tag[t->tag]+=n; live_blocks[t->tag]++; { uint64_t r=0x55AA; if(t->heapfill) fillmem((unsigned char*)u,n,t->heapfill,t->heaprng); else fillmem((unsigned char*)u,n,9,r); } }
  return (void*)u; }
void hfree(void *p){ if(!p) return; Hdr *h=(Hdr*)((char*)p-sizeof(Hdr)); if(h->magic!=0x51A110Cu){ if(S){ Thr *t=self; if(t&&t->active) gerr|= h->magic==0xDEADu?32:16; else fatal(FT_TERMINATE,"free() of a block the host heap did not hand out"); } return; }
  if(h->tag){ live_by_tag[h->tag]-=h->size; live_blocks[h->tag]--; } h->magic=0xDEADu; Thr *t=self; if(exiting||(t&&t->heapfill&&h->tag)) memset(p,0xA5,h->size); mem_dead(p,h->size,0xfd);
#ifdef ASANRT
  if(h->tag&&h->size<=4096){ static void *held[64]; static unsigned at; void *b=((void**)((char*)h-8))[0]; void *o=held[at%64]; held[at++%64]=b; if(o) __libc_free(o); return; } // not used again at once
#endif
  __libc_free(((void**)((char*)h-8))[0]); }
bool fail_now(bool direct){ Thr *t=self; if(!t||!t->active) return false; t->newcalls++; if(!t->failk) return false;
  bool f= t->failmode==0 ? t->newcalls==t->failk : t->failmode==1 ? t->newcalls>=t->failk : (t->newcalls>=t->failk && mix(t->newcalls*977+t->failmode)%3==0);
  if(f) t->fails++; return f; }
}
extern "C" {
void *malloc(size_t n){ return halloc(n,16); }
void free(void *p){ hfree(p); }
void *calloc(size_t a,size_t b){ size_t n=a*b; void *p=halloc(n,16); if(p) memset(p,0,n); return p; }
void *realloc(void *p,size_t n){ if(!p) return malloc(n); if(!n){ free(p); return 0; } Hdr *h=(Hdr*)((char*)p-sizeof(Hdr)); void *q=malloc(n); if(!q) return 0; memcpy(q,p,h->size<n?h->size:n); free(p); return q; }
void *memalign(size_t a,size_t n){ return halloc(n,a); }
void *aligned_alloc(size_t a,size_t n){ return halloc(n,a); }
void *valloc(size_t n){ return halloc(n,4096); }
int posix_memalign(void **r,size_t a,size_t n){ *r=halloc(n,a); return *r?0:ENOMEM; }
size_t malloc_usable_size(void *p){ return p?((Hdr*)((char*)p-sizeof(Hdr)))->size:0; }
// calls made by the library's own code (redirected at link level) can be made to fail
void *simx_malloc(size_t n){ ext(2); if(fail_now(true)){ errno=ENOMEM; return 0; } return malloc(n); }
void *simx_calloc(size_t a,size_t b){ ext(2); if(fail_now(true)){ errno=ENOMEM; return 0; } return calloc(a,b); }
void *simx_realloc(void *p,size_t n){ ext(2); if(fail_now(true)){ errno=ENOMEM; return 0; } return realloc(p,n); }
}
void *operator new(size_t n){ ext(2); if(fail_now(false)) throw std::bad_alloc(); void *p=halloc(n,16); if(!p) throw std::bad_alloc(); return p; }
void *operator new[](size_t n){ return operator new(n); }
void *operator new(size_t n,const std::nothrow_t&) noexcept { ext(2); if(fail_now(false)) return 0; return halloc(n,16); }
void *operator new[](size_t n,const std::nothrow_t&) noexcept { ext(2); if(fail_now(false)) return 0; return halloc(n,16); }
void operator delete(void *p) noexcept { ext(2); hfree(p); }
void operator delete[](void *p) noexcept { ext(2); hfree(p); }
void operator delete(void *p,size_t) noexcept { ext(2); hfree(p); }
void operator delete[](void *p,size_t) noexcept { ext(2); hfree(p); }
void operator delete(void *p,const std::nothrow_t&) noexcept { hfree(p); }

// ---------------------------------------------------------------- the application's GMP memory functions
namespace {
const size_t GA=(size_t)48<<20; char *ga, *gtop; void *gfree[40];
struct GH { uint32_t magic; int16_t set, cls; int32_t tag, pad; uint64_t size; uint64_t pc; };  // 32 bytes
int gerr; int64_t glive[MAXEV+8]; int cur_set=0;
int gtag(){ Thr *t=self; return (t&&t->f)?t->f->ev+1:0; }
struct Off { Thr *t; int a; Off(){ t=self; a=0; if(t){ a=t->active; t->active=0; } } ~Off(){ if(t) t->active=a; } };
void still_free(GH *h){ unsigned char *p=(unsigned char*)(h+1); size_t n=h->size<256?h->size:256; for(size_t i=0;i<n;i++) if(p[i]!=0xC3){ gerr|=64; memset(p,0xC3,n); break; } } // nobody wrote to it since it was given back
void *galloc(int set,size_t n){ int c=4; while(((size_t)1<<c)<n+sizeof(GH)) c++; char *b=(char*)gfree[c]; if(b){ gfree[c]=(void*)((GH*)b)->pc; still_free((GH*)b); } else { b=gtop; gtop+=((size_t)1<<c)<48?48:(size_t)1<<c; if(gtop>ga+GA) fatal(FT_RUNAWAY,"GMP arena exhausted"); }
  GH *h=(GH*)b; h->magic=0x6A110C; h->set=set; h->cls=c; h->tag=gtag(); h->size=n; h->pc=self?self->pc:0; glive[h->tag]++; char *u=b+sizeof(GH); mem_dead(b,((size_t)1<<c)<48?48:(size_t)1<<c,0xfa); mem_live(u,n); race_forget(u,n); Thr *t=self; uint64_t r=t?t->heaprng:1; fillmem((unsigned char*)u,n<256?n:256,(t&&t->heapfill)?t->heapfill:7,r); return u; }
void gfreef(int set,void *p,size_t n){ if((char*)p<ga||(char*)p>=ga+GA){ gerr|=1; return; } GH *h=(GH*)((char*)p-sizeof(GH)); if(h->magic!=0x6A110C){ gerr|=2; return; } if(h->size!=n) gerr|=4; if(h->set!=set) gerr|=8; h->magic=0; glive[h->tag]--; memset(p,0xC3,h->size<256?h->size:256); mem_dead(p,h->size,0xfd); h->pc=(uint64_t)gfree[h->cls]; gfree[h->cls]=h; }
void check_free(){ for(char *b=ga;b<gtop;){ GH *h=(GH*)b; if(h->magic==0) still_free(h); size_t z=(size_t)1<<h->cls; b+=z<48?48:z; } }
void *grealloc(int set,void *p,size_t o,size_t n){ if((char*)p<ga||(char*)p>=ga+GA){ gerr|=1; return galloc(set,n); } GH *h=(GH*)((char*)p-sizeof(GH)); size_t keep=h->size; if(h->magic!=0x6A110C){ gerr|=2; keep=0; } else if(h->size!=o) gerr|=4; void *q=galloc(set,n); if(keep){ memcpy(q,p,keep<n?keep:n); ((GH*)((char*)q-sizeof(GH)))->tag=h->tag; ((GH*)((char*)q-sizeof(GH)))->pc=h->pc; if(h->tag!=gtag()){ glive[gtag()]--; glive[h->tag]++; } if(h->set!=set) gerr|=8; gfreef(h->set,p,h->size); } return q; }
void leak_sites(Res &R,int tag){ for(char *b=ga;b<gtop;){ GH *h=(GH*)b; if(h->magic==0x6A110C&&h->tag==tag){ bool have=false; for(int i=0;i<R.ngsite;i++) have|=R.gsite[i]==h->pc; if(!have&&R.ngsite<8) R.gsite[R.ngsite++]=h->pc; } size_t z=(size_t)1<<h->cls; b+=z<48?48:z; } }
#define GS(k) void *ga##k(size_t n){ Off o; return galloc(k,n);} void *gr##k(void*p,size_t a,size_t b){ Off o; return grealloc(k,p,a,b);} void gf##k(void*p,size_t n){ Off o; gfreef(k,p,n);}
GS(0) GS(1) GS(2)
void set_gmp(int k){ cur_set=k; if(k==0) mp_set_memory_functions(ga0,gr0,gf0); else if(k==1) mp_set_memory_functions(ga1,gr1,gf1); else mp_set_memory_functions(ga2,gr2,gf2); }

// ---------------------------------------------------------------- streams
struct Sink : std::streambuf {
  char *buf; uint32_t cap, *len; int fault; int64_t pos; bool cut;
  void init(char *b,uint32_t c,uint32_t *l,int f,int64_t p){ buf=b; cap=c; len=l; fault=f; pos=p; cut=false; }
  int64_t room(){ int64_t lim= fault? pos : (int64_t)1<<60; int64_t r=lim-(int64_t)total; return r<0?0:r; }
  uint64_t total=0;
  void store(const char *s,size_t n){ for(size_t i=0;i<n;i++){ if(*len<cap) buf[(*len)++]=s[i]; } total+=n; }
  void trip(){ cut=true; if(fault==2){ fault=4; pos=total; throw SimThrow{2}; } if(fault==3){ fault=4; pos=total; throw std::bad_alloc(); } }
  std::streamsize xsputn(const char *s,std::streamsize n) override { Off o; ext_off(); std::streamsize k=std::min<int64_t>(n,room()); store(s,k); if(k<n) trip(); return k; }
  int_type overflow(int_type c) override { Off o; if(c==traits_type::eof()) return 0; if(room()<1){ trip(); return traits_type::eof(); } char ch=(char)c; store(&ch,1); return c; }
  void ext_off(){}
};
struct Grouped : std::numpunct<char> { char do_thousands_sep() const override { return '.'; } std::string do_grouping() const override { return "\1"; } char do_decimal_point() const override { return ','; } };
std::locale *loc_grouped;
char *nullbuf; uint32_t nulllen;
std::ios_base::fmtflags dec_flags(int64_t v){ std::ios_base::fmtflags f=std::ios_base::fmtflags(); switch(v&3){ case 0: f|=std::ios_base::dec; break; case 1: f|=std::ios_base::hex; break; case 2: f|=std::ios_base::oct; break; }
  if(v&4) f|=std::ios_base::showbase; if(v&8) f|=std::ios_base::uppercase; if(v&16) f|=std::ios_base::showpos; if(v&32) f|=std::ios_base::boolalpha; if(v&64) f|=std::ios_base::scientific; if(v&128) f|=std::ios_base::fixed; if(v&256) f|=std::ios_base::left; if(v&512) f|=std::ios_base::internal; if(v&1024) f|=std::ios_base::showpoint; if(v&2048) f|=std::ios_base::unitbuf; return f; }

// ---------------------------------------------------------------- floating-point environment
inline uint32_t get_mxcsr(){ uint32_t v; __asm__ volatile("stmxcsr %0":"=m"(v)); return v; }
inline void set_mxcsr(uint32_t v){ __asm__ volatile("ldmxcsr %0"::"m"(v)); }
inline uint16_t get_x87(){ uint16_t v; __asm__ volatile("fnstcw %0":"=m"(v)); return v; }
inline void set_x87(uint16_t v){ __asm__ volatile("fldcw %0"::"m"(v)); }

struct Slot { int tid; int slot; uint64_t tag; size_t size; char mem[512] __attribute__((aligned(16))); } slots[64]; int nslots;

__attribute__((noinline)) void poison_stack(int pat,uint64_t seed){ volatile unsigned char b[49152]; uint64_t r=seed; unsigned char *p=(unsigned char*)b; 
  if(pat==1) memset(p,0,sizeof b); else if(pat==2) memset(p,0xFF,sizeof b); else if(pat==3) memset(p,1,sizeof b); else { uint64_t *q=(uint64_t*)p; for(size_t i=0;i<sizeof b/8;i++){ r=mix(r+i); q[i]= pat==4? r : pat==5? (r&1) : pat==6? (r%7) : (r&0x00FF00FF00FF00FFull); } }
  __asm__ volatile(""::"r"(p):"memory"); }
uint64_t strhash(const char *s){ uint64_t h=1469598103934665603ull; while(*s) h=(h^(unsigned char)*s++)*1099511628211ull; return h; }

// calls the operation once; returns the status
int call(const OpInfo &op,const u128 *args,Out &o,uint64_t &exc,int *where){
  Thr *t=self; exc=0; int st=ST_OK;
  try { t->active=1; op.fn(args,o); t->active=0; }
  catch(std::bad_alloc &e){ t->active=0; st=ST_BADALLOC; }
  catch(std::ios_base::failure &e){ t->active=0; st=ST_IOFAIL; }
  catch(std::exception &e){ t->active=0; st=ST_STDEXC; exc=strhash(e.what())^strhash(typeid(e).name()); }
  catch(SimThrow &e){ t->active=0; st=ST_SIMTHROW; }
  catch(...){ t->active=0; st=ST_OTHER; }
  return st;
}
struct FmtState { // everything a caller can configure on a stream, and the error state it already had
  std::ios_base::fmtflags f; std::streamsize p,w; char c; std::locale l; std::ios_base::iostate x,s; std::ostream *t; std::streambuf *b;
  void take(std::ostream &o){ f=o.flags(); p=o.precision(); w=o.width(); c=o.fill(); l=o.getloc(); x=o.exceptions(); s=o.rdstate(); t=o.tie(); b=o.rdbuf(); }
  int64_t diff(std::ostream &o){ return (o.flags()!=f?1:0)|(o.precision()!=p?2:0)|(o.fill()!=c?4:0)|(o.width()!=w?8:0)|(!(o.getloc()==l)?16:0)|(o.exceptions()!=x?32:0)|(o.tie()!=t?64:0)|(o.rdbuf()!=b?128:0)|((s&~o.rdstate())?256:0); }
  void put_back(std::ostream &o){ o.flags(f); o.precision(p); o.width(w); o.fill(c); if(!(o.getloc()==l)) o.imbue(l); o.tie(t); if(o.rdbuf()!=b) o.rdbuf(b); try { o.exceptions(x); } catch(...){} } };
struct StreamBox { // an output stream in caller-provided storage
  Sink sink; std::ostream os; StreamBox():os(nullptr){ os.rdbuf(&sink); }
};
void run_event(int id,Thr *t){
  const Event &e=PL->ev[id]; const OpInfo &op=g_ops[e.op]; Res &R=S->r[id]; const int64_t *a=e.a;
  u128 args[MAXW]; memcpy(args,e.w,sizeof args);
  Out o; memset(&o,0,sizeof o-0); o.debug=(int)a[A_DEBUG]; o.tid=t->tid;
  Frame f; f.ev=id; f.step=0; f.up=t->f; f.sw=sw_of[id].data(); f.swend=f.sw+sw_of[id].size(); f.nnest=nested_of[id].size(); f.nestdone=0;
  int ofk=t->failk, ofm=t->failmode, ohf=t->heapfill, otag=t->tag; int64_t onc=t->newcalls, ofl=t->fails, ohc=t->hcalls; bool orec=t->rec;
  R.status=ST_STARTED; R.flagged=0; R.hgrow=0;
  // --- streams
  alignas(StreamBox) char sbuf[sizeof(StreamBox)]; StreamBox *sb=0; FmtState sf0;
  if(op.flags&F_STREAM){ sb=new(sbuf) StreamBox(); sb->sink.init(R.stext,sizeof R.stext,&R.sl,(int)a[A_SFAULT],a[A_SPOS]); 
    if(a[A_LOC]) sb->os.imbue(*loc_grouped); if(a[A_FMT]) sb->os.flags(dec_flags(a[A_FMT]-1)); if(a[A_FILL]) sb->os.fill((char)a[A_FILL]); if(a[A_SPREC]) sb->os.precision((int)a[A_SPREC]-1);
    if(a[A_SPRE]){ if(a[A_SPRE]==4) sb->os.rdbuf(nullptr); else sb->os.setstate(a[A_SPRE]==1?std::ios::failbit:a[A_SPRE]==2?std::ios::badbit:std::ios::eofbit); } // the stream had failed before
    if(a[A_SEXC]) { try { sb->os.exceptions(a[A_SEXC]==1?std::ios::badbit:std::ios::badbit|std::ios::failbit); } catch(...){} }
    sb->os.width(0); sf0.take(sb->os); o.os=&sb->os; }
  static Sink csink; static bool cs_init=false; static uint32_t clen; static char cbuf[64];
  if(!cs_init){ csink.init(cbuf,0,&clen,0,0); std::cerr.rdbuf(&csink); std::cout.rdbuf(&csink); std::clog.rdbuf(&csink); cs_init=true; }
  if(a[A_CFAULT]){ csink.init(cbuf,0,&clen,(int)a[A_CFAULT],a[A_CPOS]<0?0:a[A_CPOS]); csink.total=0; std::cerr.clear(a[A_CPOS]<0?std::ios::badbit:std::ios::goodbit); if(a[A_CEXC]) { try { std::cerr.exceptions(std::ios::badbit); } catch(...){} } } // position -1: it had failed before
  std::ostream *const own[3]={&std::cerr,&std::cout,&std::clog}; FmtState of0[3]; const bool fmtck=PL->prop=="C11"; if(fmtck) for(int i=0;i<3;i++) of0[i].take(*own[i]);
  std::locale gl0; bool gset=false; if(a[A_GLOC]){ gl0=std::locale::global(*loc_grouped); gset=true; }
  // --- environment
  if(a[A_GSET]){ mpfr_free_cache(); set_gmp((int)a[A_GSET]); }
  mpfr_exp_t emin0=mpfr_get_emin(), emax0=mpfr_get_emax(); mpfr_prec_t dp0=mpfr_get_default_prec(); mpfr_rnd_t dr0=mpfr_get_default_rounding_mode();
  if(a[A_PREC]) mpfr_set_default_prec(a[A_PREC]); if(a[A_RND]) mpfr_set_default_rounding_mode((mpfr_rnd_t)(a[A_RND]-1));
  if(a[A_RANGE]==1){ mpfr_set_emin(mpfr_get_emin_min()); mpfr_set_emax(mpfr_get_emax_max()); } else if(a[A_RANGE]==2){ mpfr_set_emin(emin0*2-12345); mpfr_set_emax(emax0*2+54321); } else if(a[A_RANGE]==3){ mpfr_set_emin(emin0-1); mpfr_set_emax(emax0+1); } else if(a[A_RANGE]==4){ mpfr_set_emin(-200000); mpfr_set_emax(200000); } else if(a[A_RANGE]==5){ mpfr_set_emin(-5000000); mpfr_set_emax(7000000); }
  if(a[A_MPFLAGS]) mpfr_flags_restore((mpfr_flags_t)a[A_MPFLAGS]&MPFR_FLAGS_ALL,MPFR_FLAGS_ALL); 
  mpfr_exp_t emin1=mpfr_get_emin(), emax1=mpfr_get_emax(); mpfr_prec_t dp1=mpfr_get_default_prec(); mpfr_rnd_t dr1=mpfr_get_default_rounding_mode();
  uint32_t mx0=get_mxcsr(); uint16_t cw0=get_x87();
  t->failk=a[A_FAILK]; t->failmode=a[A_FAILMODE]; t->heapfill=(int)a[A_HEAP]; t->heaprng=mix(id*77+a[A_HEAP]); t->newcalls=0; t->fails=0; t->hcalls=0; t->tag=id*4+1; t->rec=OPT.golden&&!OPT.batch&&f.up==0&&!(OPT.probe&&id<3); if(t->rec){ recbuf=S->rec; recn=&S->nrec; }
  gerr=0; int64_t gl_0=glive[id+1]; glive[id+1]=0;
  t->f=&f; recompute(&f); tr(0x20000+id); { uint64_t ah=0; for(int i=0;i<A_N;i++) ah=mix(ah^a[i]); for(int i=0;i<op.words;i++) ah=mix(ah^(uint64_t)args[i]^(uint64_t)(args[i]>>64)*3); tr(mix(e.op)^ah); }
  uint64_t exc=0; int st=0;
  if(a[A_BURST]){ // a long history of the same operation on wandering operands, not recorded
    u128 w[MAXW]; memcpy(w,args,sizeof w); Rng r(mix(e.id*131+a[A_BURST])); Out q; int64_t held[4]={0,0,0,0}; const bool grow=PL->prop=="C06"&&a[A_BURST]>=60; for(int64_t k=0;k<a[A_BURST];k++){ q=Out(); q.os=o.os; q.tid=o.tid; mutate_words(op,w,r); uint64_t x; t->burst=true; call(op,w,q,x,0); t->burst=false; if(grow&&(k+1)%(a[A_BURST]/3)==0&&(k+1)/(a[A_BURST]/3)<=3) held[(k+1)/(a[A_BURST]/3)]=live_by_tag[id*4+1]; }
    if(grow&&held[1]>0&&held[2]>held[1]&&held[3]>held[2]) R.hgrow=held[3]; /* each third of the burst kept more host memory than the one before */
    if(sb){ R.sl=0; sb->sink.total=0; } f.step=0; recompute(&f); }
  if(a[A_STACK]) poison_stack((int)a[A_STACK],mix(id*991+a[A_STACK]));
  uint32_t mxs=0; 
  if(a[A_MXCSR]||a[A_X87]){ if(a[A_X87]) set_x87((uint16_t)a[A_X87]); if(a[A_MXCSR]) set_mxcsr((uint32_t)a[A_MXCSR]); }
  mxs=get_mxcsr(); uint16_t cws=get_x87();
  if(a[A_UNWIND]){ struct InDtor { const OpInfo &op; const u128 *w; Out &o; uint64_t &exc; int &st; int64_t e; ~InDtor(){ if(e) errno=(int)e; st=call(op,w,o,exc,0); } }; try { InDtor d={op,args,o,exc,st,a[A_ERRNO]}; throw SimThrow{9}; } catch(SimThrow&){} }
  else { if(a[A_ERRNO]) errno=(int)a[A_ERRNO]; st=call(op,args,o,exc,0); }
  uint32_t mx1=get_mxcsr(); uint16_t cw1=get_x87();
  if(a[A_MXCSR]||a[A_X87]){ set_mxcsr(mx0); set_x87(cw0); }
  R.env0=mxs|(uint32_t)cws<<16; R.env1=mx1|(uint32_t)cw1<<16; R.envdiff=((mxs^mx1)&0xFFC0u)|((cws!=cw1)?1:0);
  if(a[A_MXCSR]==0&&R.envdiff&&!PL->p[P_NORESTORE]){ set_mxcsr(mx0); set_x87(cw0); }
  R.mpdiff=(emin1!=mpfr_get_emin()?1:0)|(emax1!=mpfr_get_emax()?2:0)|(dp1!=mpfr_get_default_prec()?4:0)|(dr1!=mpfr_get_default_rounding_mode()?8:0);
  R.argdiff=memcmp(args,e.w,sizeof args)!=0;
  R.hcalls=t->hcalls; R.newcalls=t->newcalls; R.fails=(int)t->fails; R.steps=f.step;
  if(OPT.golden||a[A_TRIPLE]||PL->prop=="C06"||PL->prop=="C07") mpfr_free_cache();
  if(op.flags&(F_MPFR|F_HOST)) check_free(); R.gleak=glive[id+1]; R.gerr=gerr; R.ngsite=0; R.reported=reported[id+1]; if(R.gleak>0) leak_sites(R,id+1);
  if(a[A_TRIPLE]){ // the same call twice more under the same faults: must not keep growing; then once with no faults: must give the right result
    alignas(StreamBox) char sb2[sizeof(StreamBox)]; static uint32_t l2; static char b2[1600]; Out q; uint64_t x; mpfr_flags_t mf=mpfr_flags_save();
    for(int k=2;k<=4;k++){ t->failk=k==4?0:(int)a[A_FAILK]; t->newcalls=0; t->fails=0; t->tag=id*4+(k==4?0:k); if(k==4&&t->tag==0) t->tag=MAXEV*4+4; q=Out(); q.tid=o.tid; StreamBox *s2=0; if(sb){ s2=new(sb2) StreamBox(); s2->sink.init(b2,sizeof b2,&l2,0,0); q.os=&s2->os; } l2=0; f.step=0; recompute(&f);
      int st2=call(op,args,q,x,0); if(k==4){ R.again=outcome_hash(q.h,q.n,st2,x,b2,l2); R.hleak2=live_by_tag[id*4+2]; R.hleak=live_by_tag[id*4+3]; /* what one call keeps until the next is no leak */ } if(s2) s2->~StreamBox(); }
    mpfr_flags_restore(mf,MPFR_FLAGS_ALL); mpfr_free_cache(); if(glive[id+1]>R.gleak) R.gleak=glive[id+1]; check_free(); R.gerr|=gerr; if(R.gleak>0) leak_sites(R,id+1); }
  t->f=f.up; t->failk=ofk; t->failmode=ofm; t->heapfill=ohf; t->newcalls=onc; t->fails=ofl; t->hcalls=ohc; t->tag=otag; t->rec=orec; (void)gl_0;
  if(!PL->p[P_NORESTORE]){ mpfr_set_emin(emin0); mpfr_set_emax(emax0); mpfr_set_default_prec(dp0); mpfr_set_default_rounding_mode(dr0); }
  if(a[A_GSET]){ mpfr_free_cache(); set_gmp(0); }
  if(gset) std::locale::global(gl0);
  R.fmtdiff=0; if(fmtck) for(int i=0;i<3;i++){ int64_t d=of0[i].diff(*own[i]); if(d){ R.fmtdiff|=d<<(9+9*i); of0[i].put_back(*own[i]); } }
  if(a[A_CFAULT]){ try{ std::cerr.exceptions(std::ios::goodbit); }catch(...){} std::cerr.clear(); csink.init(cbuf,0,&clen,0,0); }
  if(sb){ R.sstate=sb->os.rdstate(); R.fmtdiff|=sf0.diff(sb->os);
    R.scut=sb->sink.cut; sb->~StreamBox(); }
  R.h=o.h; R.n=o.n; memcpy(R.w,o.w,sizeof R.w); R.tl=o.tl; memcpy(R.text,o.text,o.tl<sizeof R.text?o.tl:sizeof R.text); R.exc=exc; R.flagged=o.n>>31; R.n&=0x7FFFFFFF; R.status=st;
  tr(R.h^R.n^((uint64_t)st<<40)^R.exc);
  if(OPT.twice&&OPT.golden){ Out q; memset(&q,0,sizeof q); q.os=0; q.tid=o.tid; uint64_t x; static Sink nsk; static uint32_t nl; nsk.init(0,0,&nl,0,0); alignas(std::ostream) static char ob[sizeof(std::ostream)]; q.os=new(ob) std::ostream(&nsk);
    Frame g=f; g.up=0; g.step=0; g.nnest=0; g.sw=g.swend=0; g.stop=quantum; t->f=&g; t->rec=true; recbuf=S->rec2; recn=&S->nrec2; t->tag=0; int s2=call(op,args,q,x,0); t->rec=false; t->f=0; S->steps2=g.step; S->second.status=s2; S->second.h=q.h; S->second.n=q.n&0x7FFFFFFF; S->second.exc=x; }
}
std::vector<int> thread_events[MAXTHR];
// probe: compares the library's variables before and after a call
struct Rng32 { uint32_t a,n; }; std::vector<Rng32> libdata; std::vector<unsigned char> libsnap;
static unsigned char *lib_at(const Rng32 &r){ return r.a<65536?(unsigned char*)tls_base()+r.a:(unsigned char*)(uintptr_t)r.a; }
static void lib_snap(){ size_t q=0; for(auto &r: libdata){ memcpy(&libsnap[q],lib_at(r),r.n); q+=r.n; } }
static void lib_diff(int id){ size_t q=0; for(auto &r: libdata){ if(memcmp(&libsnap[q],lib_at(r),r.n)&&S->nrec2<MAXREC){ Rec &c=S->rec2[S->nrec2++]; c.step=id; c.addr=r.a; c.write=1; c.kind=6; } q+=r.n; } }
// The end of a thread or of the process: the destructors of thread-local objects, then (process) everything registered for exit, newest first, and the
// calls with a negative phase -1-k after k of them (all of them if there are fewer).
void leave(Thr *t,bool process){ std::vector<char> done(PL->ev.size(),0); int64_t k=0; auto calls=[&](bool all){ for(int id: thread_events[t->tid]){ int64_t ph=PL->ev[id].a[A_PHASE]; if(ph<0&&!done[id]&&(all||-ph-1<=k)){ done[id]=1; run_event(id,t); } } };
  for(;;){ calls(false); auto &q=at_thread_exit[t->tid]; ExitList *l=q.n?&q:process&&at_exit.n?&at_exit:0; if(!l){ calls(true); if(!q.n&&!(process&&at_exit.n)) break; continue; }
    AtExit x=l->a[--l->n]; exiting++; x.f(x.o); exiting--; k++; S->nhand++; } }
void thread_body(Thr *t){
  if(OPT.init_mode==1&&t->tid==0){ // start-up simulation: initialisers of the translation units and calls interleaved
    int n=rt_ninits(); std::vector<int> ord(n); for(int i=0;i<n;i++) ord[i]=i; if(PL->p[P_ORDER]){ Rng r(PL->p[P_ORDER]); for(int i=n-1;i>0;i--) std::swap(ord[i],ord[r.below(i+1)]); }
    for(int k=0;k<=n;k++){ for(int id: thread_events[0]){ int64_t ph=PL->ev[id].a[A_PHASE]; if(ph<0) continue; int64_t at= ph==0 ? n : ph-1; if(at>n) at=n; if(at==k) run_event(id,t); } if(k<n) rt_one_init(ord[k]); }
    leave(t,true); return; }
  for(int id: thread_events[t->tid]){ if(PL->p[P_LIFE]&&PL->ev[id].a[A_PHASE]<0) continue; if(OPT.probe&&id>=3) lib_snap(); run_event(id,t); if(OPT.probe&&id>=3) lib_diff(id); }
  if(PL->p[P_LIFE]) leave(t,false); }
// Thread lifetimes (P_LIFE): a thread whose calls are done really ends, its thread-local storage goes away, and threads numbered P_LIFE%100 and
// above are created only once all the others have ended. P_LIFE/100: 0 the storage of a dead thread becomes inaccessible, 1 the next thread reuses it.
pthread_t th_of[MAXTHR]; char *stack_of[MAXTHR]; int mgr_go, mgr_tid; std::vector<char*> spare;
void *thread_main(void *arg){ Thr *t=(Thr*)arg; char mark; t->lo=(uintptr_t)stack_of[t->tid]; t->span=(uintptr_t)&mark-t->lo; self=t; park(t); thread_body(t);
  if(PL->p[P_LIFE]){ t->leaving=true; mgr_tid=t->tid; __atomic_store_n(&mgr_go,1,__ATOMIC_RELEASE); futex_wake(&mgr_go); return 0; }
  t->done=true; { int64_t q=0; for(int i=0;i<nthr;i++) q+=thr[i].total; S->steps=q; } int n=pick(t->tid); if(n>=0) wake(&thr[n]); else { for(int i=0;i<nthr;i++) if(!thr[i].done) fatal(FT_DEADLOCK,"every remaining thread is waiting: an operation never finishes"); _exit(0); }
  for(;;) pause(); }
void create_thread(int i){ char *st=stack_base[i]; if(!spare.empty()){ st=spare.back(); spare.pop_back(); } stack_of[i]=st; thr[i].tid=i; thr[i].created=true; pthread_attr_t at; pthread_attr_init(&at); pthread_attr_setstack(&at,st,STK); if(pthread_create(&th_of[i],&at,thread_main,&thr[i])) _exit(99); }
[[noreturn]] void manage(int late){ for(;;){
  while(__atomic_load_n(&mgr_go,__ATOMIC_ACQUIRE)==0) futex_wait(&mgr_go,0); mgr_go=0; int e=mgr_tid; pthread_join(th_of[e],0); thr[e].done=true; S->nend++; tr(0x40000+e);
  if(PL->p[P_LIFE]>=100){ madvise(stack_of[e],STK,MADV_DONTNEED); spare.push_back(stack_of[e]); } else mprotect(stack_of[e],STK,PROT_NONE);
  { int64_t q=0; for(int i=0;i<nthr;i++) q+=thr[i].total; S->steps=q; }
  int n=pick(e); if(n<0){ for(int i=0;i<nthr;i++) if(thr[i].created&&!thr[i].done) fatal(FT_DEADLOCK,"every remaining thread is waiting: an operation never finishes"); for(int i=late;i<nthr;i++) if(!thr[i].created) race_after_all(i); for(int i=late;i<nthr;i++) if(!thr[i].created) create_thread(i); n=pick(e); if(n<0) _exit(0); }
  wake(&thr[n]); } }
}
namespace { struct OffF; }
extern "C" {
void sim_flag(Out *o,int why){ o->n|=0x80000000u; tr(why); }
void sim_put(Out *o,uint64_t hi,uint64_t lo){ o->h=mix(o->h^hi*3)^mix(lo+0x1234567); o->h=mix(o->h); if((o->n&0x7FFFFFFF)<8) o->w[o->n&7]=lo; o->n++; }
void sim_text(Out *o,const char *s,size_t n){ for(size_t i=0;i<n;i++){ if(o->tl<sizeof o->text) o->text[o->tl++]=s[i]; o->h=mix(o->h^(unsigned char)s[i]); } sim_put(o,1,n); }
void *sim_slot(Out *o,int slot,size_t size,uint64_t tag,int *fresh){ for(int i=0;i<nslots;i++) if(slots[i].tid==o->tid&&slots[i].slot==slot&&slots[i].tag==tag&&slots[i].size==size){ *fresh=0; return slots[i].mem; }
  if(nslots>=64||size>512) abort(); Slot &s=slots[nslots++]; s.tid=o->tid; s.slot=slot; s.tag=tag; s.size=size; uint64_t r=slot*7+tag; fillmem((unsigned char*)s.mem,512,9,r); *fresh=1; return s.mem; }
static thread_local Script *cur_script; Script **sim_script(){ return &cur_script; }
uint64_t sim_draw(Script *s){ ext(2); Off off; uint64_t p=++s->pos; if(s->throw_at&&p==s->throw_at){ s->thrown++; throw SimThrow{1}; } uint64_t v=0; switch(s->kind){ case 0: v=mix(s->seed+p*0x9E37ull); break; case 1: v=0; break; case 2: v=~0ull; break; case 3: v=s->seed; break; case 4: v=s->seed+p; break;
   case 5: { uint64_t q=mix(s->seed+p); v=q%4==0?0:q%4==1?~0ull:q%4==2?mix(q):(mix(q)&0xFF); break; } case 6: v=(p&1)?0:~0ull; break; case 7: v=(s->seed>>(p%32)&1)?~0ull:0; break; default: v=mix(s->seed*p); } s->last=v; return v&0xFFFFFFFFull; }
}
// ---------------------------------------------------------------- catalogue start-up
typedef void (*initfn)(int,char**,char**);
extern "C" initfn __start_sim_init[] __attribute__((weak)); extern "C" initfn __stop_sim_init[] __attribute__((weak));
int rt_ninits(){ return (int)(__stop_sim_init-__start_sim_init); }
void rt_one_init(int i){ static char *none[1]={0}; initfn f=__start_sim_init[i]; if(f&&f!=(initfn)-1) f(0,none,none); }
void rt_run_inits(){ for(int i=0;i<rt_ninits();i++) rt_one_init(i); }
#define REGS X(fp1) X(fp2) X(fp3) X(fp4) X(fp5) X(fp6) X(fp7) X(as2) X(as3) X(as4) X(dot) X(dot4) X(int) X(heap) X(mpfr) X(text) X(rng) X(pol) X(alias)
#define X(n) extern "C" void reg_##n(reg_fn) __attribute__((weak));
REGS
#undef X
std::vector<OpInfo> g_ops;
static void reg(const char *name,const char *sig,op_fn fn,unsigned flags){
  OpInfo o; o.name=name; o.fn=fn; o.flags=flags; o.words=0; const char *p=sig; while(*p){ while(*p==' ') p++; if(!*p) break; Kind k; char c=*p++; k.a=k.b=0; char *q; 
    switch(c){ case 'f': k.k=K_F; break; case 'i': k.k=K_I; break; case 'p': k.k=K_P; break; case 'u': k.k=K_U; break; case 'n': k.k=K_N; break; case 'd': k.k=K_D; break; case 's': k.k=K_S; break; case 'b': k.k=K_B; break; case 'g': k.k=K_G; break; default: fprintf(stderr,"bad sig %s\n",sig); _exit(3); }
    if(c=='f'||c=='i'||c=='p'||c=='n'){ k.a=strtol(p,&q,10); p=q+1; k.b=strtol(p,&q,10); p=q; } else if(c=='u'||c=='b'){ k.a=strtol(p,&q,10); p=q; }
    o.sig.push_back(k); o.words+=k.words(); }
  if(o.words>MAXW){ fprintf(stderr,"too many operands: %s\n",name); _exit(3); }
  for(char &c: o.name) if(c==' ') c='_';
  g_ops.push_back(o); }
void rt_register_all(){
#define X(n) if(reg_##n) reg_##n(reg);
REGS
#undef X
}
void rt_load_data(const char *file){ FILE *f=fopen(file,"r"); if(!f) return; char b[4000]; size_t tot=0; while(fgets(b,sizeof b,f)){ unsigned long a,n; if(sscanf(b,"%lx %lx",&a,&n)==2&&n<=(1<<20)){ libdata.push_back(Rng32{(uint32_t)a,(uint32_t)n}); tot+=n; } } fclose(f); libsnap.resize(tot+1);
#ifdef ASANRT
  std::string gn(file); gn.replace(gn.rfind(".data"),5,".gaps"); if(FILE *g=fopen(gn.c_str(),"r")){ while(fgets(b,sizeof b,g)){ unsigned long a,n; if(sscanf(b,"%lx %lx",&a,&n)!=2) continue; uintptr_t lo=(a+7)&~7ul, e=(a+n)&~7ul; if((a&7)&&(a|7)<a+n) *shadow(a)=a&7; if(e>lo) mem_dead((void*)lo,e-lo,0xf9); } fclose(g); }
#endif
}
void rt_setup(){
  { const ElfW(Phdr) *ph=(const ElfW(Phdr)*)getauxval(AT_PHDR); int n=getauxval(AT_PHNUM); for(int i=0;i<n;i++) if(ph[i].p_type==PT_TLS) tls_size=(ph[i].p_memsz+ph[i].p_align-1)/ph[i].p_align*ph[i].p_align; }
  { size_t n=STK*MAXTHR; void *p=mmap((void*)0x600040000000ull,n,PROT_READ|PROT_WRITE,MAP_PRIVATE|MAP_ANONYMOUS|MAP_NORESERVE|MAP_FIXED_NOREPLACE,-1,0); if(p==MAP_FAILED) p=mmap(0,n,PROT_READ|PROT_WRITE,MAP_PRIVATE|MAP_ANONYMOUS|MAP_NORESERVE,-1,0); for(int i=0;i<MAXTHR;i++) stack_base[i]=(char*)p+STK*i; }
  ga=(char*)mmap((void*)0x500000000000ull,GA,PROT_READ|PROT_WRITE,MAP_PRIVATE|MAP_ANONYMOUS|MAP_NORESERVE,-1,0); gtop=ga;
  loc_grouped=new std::locale(std::locale::classic(),new Grouped); set_gmp(0);
}
static void on_own_stack(){ thread_main(&thr[0]); _exit(98); }
static void on_term(){ fatal(FT_TERMINATE,"std::terminate"); }
void rt_exec(const Plan &p,Shared *sh,const ExecOpt &o){
  int dn=open("/dev/null",O_RDWR); dup2(dn,1); dup2(dn,2);
  struct itimerval tv={{0,0},{20,0}}; setitimer(ITIMER_PROF,&tv,0); struct itimerval tw={{0,0},{60,0}}; setitimer(ITIMER_REAL,&tw,0);
  std::set_terminate(on_term);
  S=sh; PL=&p; OPT=o; if(p.p[P_QUANTUM]) quantum=p.p[P_QUANTUM]; if(p.p[P_LIMIT]) total_limit=p.p[P_LIMIT];
  nthr=1; for(auto &e: p.ev) if(e.parent<0&&e.tid+1>nthr) nthr=e.tid+1;
  for(auto &e: p.ev){ if(e.parent<0) thread_events[e.tid].push_back(e.id); else nested_of[e.parent].push_back(e.id); }
  for(size_t i=0;i<p.ev.size();i++) std::stable_sort(nested_of[i].begin(),nested_of[i].end(),[&](int a,int b){return p.ev[a].pstep<p.ev[b].pstep;});
  for(auto &s: p.sw) if(s.ev>=0&&s.ev<(int)p.ev.size()) sw_of[s.ev].push_back(s);
  for(size_t i=0;i<p.ev.size();i++) std::stable_sort(sw_of[i].begin(),sw_of[i].end(),[](const Sw&a,const Sw&b){return a.step<b.step;});
  int late=(int)(p.p[P_LIFE]%100); if(late<=0||late>nthr) late=nthr;
  if(nthr==1&&!p.p[P_LIFE]){ // one thread: run it on the initial thread, on the stack the others would use
    stack_of[0]=stack_base[0]; thr[0].tid=0; thr[0].created=true; thr[0].go=1; static ucontext_t me,uc; getcontext(&uc); uc.uc_stack.ss_sp=stack_base[0]; uc.uc_stack.ss_size=STK; uc.uc_link=0; makecontext(&uc,on_own_stack,0); swapcontext(&me,&uc); _exit(98); }
  if(nthr>1&&p.prop=="C01") race_start();
  for(int i=0;i<late;i++) create_thread(i);
  int first=0; while(first<late-1&&thread_events[first].empty()) first++;
  wake(&thr[first]); if(p.p[P_LIFE]) manage(late); for(;;) pause();
}
