// C12: the policy self-test under operator faults. One run = one forked process holding 1..4 self-tests on 1..3 simulated threads
// (real threads passing a baton at operator calls); the simulator owns every operator of the policy under test.
#include "thls/tops/policy_native.hpp"
#include "thls/tops/policy_flopoco.hpp"
#include "thls/tops/policy_ieee_on_flopoco.hpp"
#include "thls/tops/policy_softfloat.hpp"
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <string>
#include <vector>
#include <map>
#include <set>
#include <unordered_set>
#include <fstream>
#include <sstream>
#include <algorithm>
#include <unistd.h>
#include <fcntl.h>
#include <signal.h>
#include <time.h>
#include <pthread.h>
#include <sys/mman.h>
#include <sys/wait.h>
#include <sys/resource.h>
using namespace thls;
typedef unsigned __int128 u128;
static inline uint64_t mix(uint64_t x){ x+=0x9E3779B97F4A7C15ull; x=(x^(x>>30))*0xBF58476D1CE4E5B9ull; x=(x^(x>>27))*0x94D049BB133111EBull; return x^(x>>31); }
struct Rng { uint64_t s; explicit Rng(uint64_t x):s(x){} uint64_t next(){ s+=0x9E3779B97F4A7C15ull; return mix(s); } uint64_t below(uint64_t n){ return n? next()%n:0; } bool chance(int a,int b){ return below(b)<(uint64_t)a; } int64_t range(int64_t a,int64_t b){ return a+(int64_t)below(b-a+1); } };

enum { MAXT=6, MAXF=3, NMODE=20, NFILT=31, NPOL=10 };
struct Fault { int op, filt, filt2, mode; long m, len; };            // op 0..2 * + /, 3..8 == != < <= > >=; m-th matching call, len calls long
struct Test { int pol, n, thr, nf; Fault f[MAXF]; long throw_at; };  // throw_at: the policy's throw_at-th conversion or operator call throws
struct Plan { int nt, nthr, err; long swgap; uint64_t swseed; int verify; Test t[MAXT]; };
struct TRes { int st; int effective, triggered, based; long calls, convs; uint64_t h; char what[80]; };  // st: 0 not run, 1 passed, 2 reported failure, 3 injected exception, 4 other exception, 5 started
struct Sh { TRes r[MAXT]; uint64_t trace; long steps, switches; };
static Sh *SH;

// ---- threads and baton
struct Ctx { int id; int test; const Test *t; long seen[MAXF]; long calls,convs; uint64_t h; };
static __thread Ctx *cx; static Plan *PL; static Rng *SWR; static long till; static int running, nlive; static bool alive[4];
static pthread_mutex_t mu=PTHREAD_MUTEX_INITIALIZER; static pthread_cond_t cv=PTHREAD_COND_INITIALIZER;
static void baton_wait(int me){ pthread_mutex_lock(&mu); while(running!=me) pthread_cond_wait(&cv,&mu); pthread_mutex_unlock(&mu); }
static void baton_give(int to){ pthread_mutex_lock(&mu); running=to; pthread_cond_broadcast(&cv); pthread_mutex_unlock(&mu); }
static int pick_other(int me){ int o[4],n=0; for(int i=0;i<PL->nthr;i++) if(alive[i]&&i!=me) o[n++]=i; return n?o[SWR->below(n)]:-1; }
static void step(){ SH->steps++; if(PL->nthr<2||PL->swgap<=0) return; if(--till>0) return; till=1+SWR->below(2*PL->swgap); int o=pick_other(cx->id); if(o<0) return; SH->switches++; SH->trace=mix(SH->trace^(uint64_t)o*977^SH->steps); int me=cx->id; baton_give(o); baton_wait(me); }

// ---- an independent reading of the base formats
struct D { int cls; bool neg; uint64_t mag; }; // cls 0 zero 1 normal 2 inf 3 nan
static bool same(const D&a,const D&b){ if(a.cls!=b.cls) return false; if(a.cls==0||a.cls==3) return true; if(a.neg!=b.neg) return false; return a.cls==2||a.mag==b.mag; }
static bool lt(const D&a,const D&b){ if(a.cls==3||b.cls==3) return false; auto key=[](const D&x)->__int128{ __int128 m= x.cls==0?0: x.cls==2?((__int128)1<<70):(__int128)x.mag+1; return x.neg?-m:m; }; return key(a)<key(b); }
template<int E,int F> D dec_ieee(uint64_t b){ D d; d.neg=b>>(E+F)&1; d.mag=b&((1ull<<(E+F))-1); uint64_t e=d.mag>>F, f=d.mag&((1ull<<F)-1); d.cls= e==(1u<<E)-1?(f?3:2):d.mag==0?0:1; return d; }
template<int E,int F> uint64_t enc_ieee(const D&d){ uint64_t s=(uint64_t)d.neg<<(E+F); uint64_t inf=((1ull<<E)-1)<<F; return d.cls==0?s:d.cls==2?s|inf:d.cls==3?inf|(1ull<<(F-1)):s|d.mag; }
template<class T> struct Fm; // bits, decode, encode; `maxmag`/`minmag` bound the magnitudes of ordinary numbers
template<> struct Fm<float>{ typedef float T; static D dec(const T&x){ uint32_t u; memcpy(&u,&x,4); return dec_ieee<8,23>(u); } static T enc(const D&d){ uint32_t u=(uint32_t)enc_ieee<8,23>(d); T x; memcpy(&x,&u,4); return x; } static int fb(){ return 23; } static uint64_t minmag(){return 1;} static uint64_t maxmag(){return (255ull<<23)-1;} static uint64_t one(){ return 127ull<<23; } };
template<> struct Fm<double>{ typedef double T; static D dec(const T&x){ uint64_t u; memcpy(&u,&x,8); return dec_ieee<11,52>(u); } static T enc(const D&d){ uint64_t u=enc_ieee<11,52>(d); T x; memcpy(&x,&u,8); return x; } static int fb(){ return 52; } static uint64_t minmag(){return 1;} static uint64_t maxmag(){return (2047ull<<52)-1;} static uint64_t one(){ return 1023ull<<52; } };
template<> struct Fm<float32_t>{ typedef float32_t T; static D dec(const T&x){ uint32_t u; memcpy(&u,&x,4); return dec_ieee<8,23>(u); } static T enc(const D&d){ uint32_t u=(uint32_t)enc_ieee<8,23>(d); T x; memcpy(&x,&u,4); return x; } static int fb(){ return 23; } static uint64_t minmag(){return 1;} static uint64_t maxmag(){return (255ull<<23)-1;} static uint64_t one(){ return 127ull<<23; } };
template<> struct Fm<float64_t>{ typedef float64_t T; static D dec(const T&x){ uint64_t u; memcpy(&u,&x,8); return dec_ieee<11,52>(u); } static T enc(const D&d){ uint64_t u=enc_ieee<11,52>(d); T x; memcpy(&x,&u,8); return x; } static int fb(){ return 52; } static uint64_t minmag(){return 1;} static uint64_t maxmag(){return (2047ull<<52)-1;} static uint64_t one(){ return 1023ull<<52; } };
template<class B> uint64_t tou(const B&b){ return (uint64_t)b; }
template<int E,int F> struct Fm<fp_flopoco_wrapper<E,F> >{ typedef fp_flopoco_wrapper<E,F> T; static D dec(const T&x){ u128 u=(u128)x.raw.bits.bits; D d; d.cls=(int)(u>>(E+F+1)&3); d.neg=u>>(E+F)&1; d.mag=(uint64_t)(u&(((u128)1<<(E+F))-1)); return d; }
  static T enc(const D&d){ u128 u=(u128)d.cls<<(E+F+1)|(u128)(d.cls==3?0:d.neg)<<(E+F)|(d.cls==1?d.mag:0); typedef fw_uint<3+E+F> W; T t; t.raw.bits=W::from_bits((typename W::bits_t)u); return t; } static int fb(){ return F; } static uint64_t minmag(){return 0;} static uint64_t maxmag(){return (1ull<<(E+F))-1;} static uint64_t one(){ return ((1ull<<(E-1))-1)<<F; } };
template<int E,int F> struct Fm<fp_ieee_on_flopoco_wrapper<E,F> >{ typedef fp_ieee_on_flopoco_wrapper<E,F> T; static D dec(const T&x){ D d=dec_ieee<E,F>((uint64_t)x.raw.bits.bits); if(d.cls==1&&(d.mag>>F)==0) d.cls=0; return d; }
  static T enc(const D&d){ typedef fw_uint<1+E+F> W; T t; t.raw.bits=W::from_bits((typename W::bits_t)enc_ieee<E,F>(d)); return t; } static int fb(){ return F; } static uint64_t minmag(){return 1ull<<F;} static uint64_t maxmag(){return (((1ull<<E)-1)<<F)-1;} static uint64_t one(){ return ((1ull<<(E-1))-1)<<F; } };

// ---- the faulty value type and its policy
struct Injected {};
static void maybe_throw(){ cx->convs++; if(cx->t->throw_at&&cx->convs==cx->t->throw_at){ SH->trace=mix(SH->trace^cx->convs^0x7777); throw Injected(); } }
template<class BP> struct FV { typename BP::value_t v; };
template<class BP> bool filt(int k,const D&a,const D&b,const D&r){ typedef Fm<typename BP::value_t> F; switch(k){ case 0: return true; case 1: return a.cls==0; case 2: return b.cls==0; case 3: return a.cls==2; case 4: return b.cls==2; case 5: return a.cls==0&&b.cls==0; case 6: return a.cls==2&&b.cls==2;
  case 7: return r.cls==3; case 8: return r.cls==2; case 9: return r.cls==0; case 10: return r.cls==1; case 11: return same(a,b); case 12: return a.cls==b.cls&&a.mag==b.mag&&a.neg!=b.neg; case 13: return a.cls==1&&a.mag==F::one(); case 14: return b.cls==1&&b.mag==F::one();
  case 15: return a.cls==1&&(a.mag==F::minmag()||a.mag==F::maxmag()); case 16: return b.cls==1&&(b.mag==F::minmag()||b.mag==F::maxmag()); case 17: return a.neg; case 18: return b.neg; case 19: return a.neg&&b.neg; case 20: return r.cls==1&&r.mag<=F::minmag()+4; case 21: return r.cls==1&&r.mag>=F::maxmag()-64; case 22: return r.neg;
  case 23: return same(r,a); case 24: return same(r,b); case 25: return lt(a,b); case 26: return lt(b,a); case 27: return r.cls==1&&(r.mag>>F::fb())==(F::minmag()>>F::fb()); case 28: return r.cls==1&&(r.mag>>F::fb())==(F::maxmag()>>F::fb()); case 29: return r.cls==1&&!(r.mag&((1ull<<F::fb())-1)); case 30: return r.cls==1&&!(~r.mag&((1ull<<F::fb())-1)); } return true; }
static bool fault_now(int op,bool (*match)(const Fault&,const D&,const D&,const D&),const D&a,const D&b,const D&r,int &mode){ for(int i=0;i<cx->t->nf;i++){ const Fault &f=cx->t->f[i]; if(f.op!=op||!match(f,a,b,r)) continue; long k=++cx->seen[i]; if(k>=f.m&&k<f.m+f.len){ mode=f.mode; return true; } } return false; }
template<class BP> bool match(const Fault&f,const D&a,const D&b,const D&r){ return filt<BP>(f.filt,a,b,r)&&filt<BP>(f.filt2,a,b,r); }
template<class BP> struct Last { static __thread uint64_t v[3]; };
static void note(bool eff){ TRes &R=SH->r[cx->test]; R.triggered++; if(eff) R.effective++; SH->trace=mix(SH->trace^cx->calls*31^eff^cx->test*7919); }
template<class BP> D wrong(int mode,const D&a,const D&b,const D&r,const D&prev){ typedef Fm<typename BP::value_t> F; D w=r; switch(mode){ case 0: if(r.cls==1&&r.mag<F::maxmag()) w.mag++; else if(r.cls==0){ w.cls=1; w.mag=F::minmag(); } else if(r.cls==1){ w.cls=2; } else w.cls= r.cls==2?3:2; break;
  case 1: if(r.cls==1&&r.mag>F::minmag()) w.mag--; else if(r.cls==1) w.cls=0; else if(r.cls==2){ w.cls=1; w.mag=F::maxmag(); } else { w.cls=1; w.mag=F::one(); } break; case 2: w.neg=!w.neg; break; case 3: w.cls=3; break; case 4: w.cls=2; w.neg=false; break; case 5: w.cls=0; break; case 6: w=a; break; case 7: w=b; break; case 8: w=prev; break;
  case 9: w.cls=1; w.mag=F::minmag(); break; case 10: w.cls=1; w.mag=F::maxmag(); break; case 11: w.cls=2; w.neg=true; break; case 12: w.cls=0; w.neg=true; break; case 13: if(r.cls==1&&r.mag>F::minmag()+16&&r.mag<F::maxmag()-16) w.mag^=1ull<<(cx->calls%4); else { w.cls=0; } break; case 14: if(r.cls==1&&r.mag>F::minmag()*2+64) w.mag=r.mag-32; else w.neg=!w.neg; break; case 15: w.cls=1; w.mag=F::one(); break;
  case 16: w.cls=1; w.mag=(r.cls==1?r.mag:F::one())^(1ull<<(F::fb()-1)); break; case 17: if(r.cls==1&&r.mag+(1ull<<F::fb())<=F::maxmag()) w.mag+=1ull<<F::fb(); else { w.cls=1; w.mag=F::maxmag(); } break; case 18: if(r.cls==1&&r.mag>=F::minmag()+(1ull<<F::fb())) w.mag-=1ull<<F::fb(); else { w.cls=0; } break; case 19: if(r.cls==1&&(r.mag&3)&&(r.mag&~3ull)>F::minmag()) w.mag&=~3ull; else w.neg=!w.neg; break; } return w; }
template<class BP> FV<BP> arith(int op,const FV<BP>&x,const FV<BP>&y){ typedef Fm<typename BP::value_t> F; step(); cx->calls++; FV<BP> z; if(op==0) z.v=x.v*y.v; else if(op==1) z.v=x.v+y.v; else z.v=x.v/y.v; D r=F::dec(z.v); static thread_local D prev[3]; static thread_local bool has[3]; D pv=has[op]?prev[op]:r; prev[op]=r; has[op]=true; maybe_throw();
  if(cx->t->nf||PL->verify){ D a=F::dec(x.v),b=F::dec(y.v); if(PL->verify){ mpfr_t p,q,s; mpfr_inits2(std::numeric_limits<typename BP::value_t>::digits,p,q,s,(mpfr_ptr)0); BP::to_mpfr(p,x.v); BP::to_mpfr(q,y.v); if(op==0) BP::ref_mul(s,p,q); else if(op==1) BP::ref_add(s,p,q); else BP::ref_div(s,p,q); D e=F::dec(BP::from_mpfr(s,true)); if(!same(e,r)) SH->r[cx->test].based++; mpfr_clears(p,q,s,(mpfr_ptr)0); }
    int mode; if(fault_now(op,match<BP>,a,b,r,mode)){ D w=wrong<BP>(mode,a,b,r,pv); note(!same(w,r)); z.v=F::enc(w); } } return z; }
template<class BP> bool compare(int op,bool r,const FV<BP>&x,const FV<BP>&y){ typedef Fm<typename BP::value_t> F; step(); cx->calls++; maybe_throw(); if(cx->t->nf||PL->verify){ D a=F::dec(x.v),b=F::dec(y.v),d; d.cls=r?1:0; d.neg=false; d.mag=0; if(PL->verify){ bool e= op==3?same(a,b):op==4?!same(a,b):op==5?lt(a,b):op==6?!lt(b,a):op==7?lt(b,a):!lt(a,b); if(e!=r) SH->r[cx->test].based++; } int mode; if(fault_now(op,match<BP>,a,b,d,mode)){ note(true); r=!r; } } return r; }
template<class P> FV<P> operator*(const FV<P>&a,const FV<P>&b){ return arith<P>(0,a,b); } template<class P> FV<P> operator+(const FV<P>&a,const FV<P>&b){ return arith<P>(1,a,b); } template<class P> FV<P> operator/(const FV<P>&a,const FV<P>&b){ return arith<P>(2,a,b); }
template<class P> bool operator==(const FV<P>&a,const FV<P>&b){ return compare<P>(3,a.v==b.v,a,b); } template<class P> bool operator!=(const FV<P>&a,const FV<P>&b){ return compare<P>(4,a.v!=b.v,a,b); } template<class P> bool operator<(const FV<P>&a,const FV<P>&b){ return compare<P>(5,a.v<b.v,a,b); }
template<class P> bool operator<=(const FV<P>&a,const FV<P>&b){ return compare<P>(6,a.v<=b.v,a,b); } template<class P> bool operator>(const FV<P>&a,const FV<P>&b){ return compare<P>(7,a.v>b.v,a,b); } template<class P> bool operator>=(const FV<P>&a,const FV<P>&b){ return compare<P>(8,a.v>=b.v,a,b); }
template<class BP> struct faulty { typedef FV<BP> value_t; static value_t from_mpfr(mpfr_t x,bool allow=false){ maybe_throw(); value_t z; z.v=BP::from_mpfr(x,allow); return z; } static void to_mpfr(mpfr_t d,value_t x){ maybe_throw(); BP::to_mpfr(d,x.v); }
  static void ref_mul(mpfr_t r,mpfr_t a,mpfr_t b){ BP::ref_mul(r,a,b); } static void ref_add(mpfr_t r,mpfr_t a,mpfr_t b){ BP::ref_add(r,a,b); } static void ref_div(mpfr_t r,mpfr_t a,mpfr_t b){ BP::ref_div(r,a,b); } };
namespace std { template<class BP> class numeric_limits<FV<BP> > : public numeric_limits<typename BP::value_t> { typedef numeric_limits<typename BP::value_t> L; typedef FV<BP> V; static V w(typename BP::value_t x){ V v; v.v=x; return v; } public: static V min(){ return w(L::min()); } static V max(){ return w(L::max()); } static V lowest(){ V v; v.v=L::lowest(); return v; } static V infinity(){ return w(L::infinity()); } static V quiet_NaN(){ return w(L::quiet_NaN()); } static V epsilon(){ return w(L::epsilon()); } static V denorm_min(){ return w(L::denorm_min()); } }; }
static const char *polname[NPOL]={"flopoco<5,10>","flopoco<8,23>","native_single","native_double","ieee<5,10>","ieee<8,23>","softfloat_single","softfloat_double","flopoco<6,9>","concept"};
template<class BP> bool self_test(int n){ return n==100?test_policy<faulty<BP> >::test_arithmetic():test_policy<faulty<BP> >::test_arithmetic(n); }
static bool run_test(int pol,int n){ switch(pol){ case 0: return self_test<policy_flopoco<5,10> >(n); case 1: return self_test<policy_flopoco<8,23> >(n); case 2: return self_test<policy_native_single>(n); case 3: return self_test<policy_native_double>(n); case 4: return self_test<policy_ieee_on_flopoco<5,10> >(n); case 5: return self_test<policy_ieee_on_flopoco<8,23> >(n);
  case 6: return self_test<policy_softfloat_single>(n); case 7: return self_test<policy_softfloat_double>(n); case 8: return self_test<policy_flopoco<6,9> >(n); default: return self_test<policy_concept>(n); } }

// ---- one run
static void *thread_main(void *arg){ int me=(int)(long)arg; baton_wait(me); Ctx c; memset(&c,0,sizeof c); c.id=me; cx=&c;
  for(int i=0;i<PL->nt;i++) if(PL->t[i].thr==me){ c.test=i; c.t=&PL->t[i]; memset(c.seen,0,sizeof c.seen); c.calls=c.convs=0; TRes &R=SH->r[i]; R.st=5; try{ bool f=run_test(c.t->pol,c.t->n); R.st=f?2:1; } catch(Injected&){ R.st=3; } catch(std::exception&e){ R.st=4; snprintf(R.what,sizeof R.what,"%s",e.what()); } catch(...){ R.st=4; snprintf(R.what,sizeof R.what,"unknown exception"); }
      R.calls=c.calls; R.convs=c.convs; SH->trace=mix(SH->trace^R.st^(uint64_t)R.calls<<8^(uint64_t)R.effective<<40); }
  alive[me]=false; int o=pick_other(me); if(o>=0) baton_give(o); else baton_give(-1); return 0; }
static void child(Plan *p){ struct rlimit rl={60,60}; setrlimit(RLIMIT_CPU,&rl); signal(SIGPIPE,SIG_IGN); static const char *dst[]={"/dev/null","/dev/full"}; if(p->err==3){ close(2); } else if(p->err==2){ int fd[2]; if(pipe(fd)==0){ dup2(fd[1],2); close(fd[0]); close(fd[1]); } } else { int fd=open(dst[p->err],O_WRONLY); if(fd>=0) dup2(fd,2); }
  PL=p; Rng sw(p->swseed); SWR=&sw; till=1+sw.below(2*std::max<long>(1,p->swgap)); for(int i=0;i<p->nthr;i++) alive[i]=true; running=0; pthread_t th[4]; for(int i=0;i<p->nthr;i++) pthread_create(&th[i],0,thread_main,(void*)(long)i); for(int i=0;i<p->nthr;i++) pthread_join(th[i],0); _exit(0); }
struct Out { bool timeout; std::string crash; };
static long n_exec=0;
static Out execute(Plan p){ n_exec++; memset(SH,0,sizeof *SH); fflush(stdout); pid_t c=fork(); if(c==0){ child(&p); _exit(0); } int st=0; while(waitpid(c,&st,0)<0&&errno==EINTR); Out o; o.timeout=false; if(WIFSIGNALED(st)){ int s=WTERMSIG(st); if(s==SIGXCPU||s==SIGKILL) o.timeout=true; else o.crash=std::string("signal ")+strsignal(s); } else if(WEXITSTATUS(st)) o.crash="exit code "+std::to_string(WEXITSTATUS(st)); return o; }
struct Verdict { bool bad; std::string kind,detail; Verdict():bad(false){} };
static const char *opname[]={"*","+","/","==","!=","<","<=",">",">="}; static const char *modename[]={"one ulp up","one ulp down","negated","NaN","+inf","zero","first operand","second operand","previous result","smallest","largest","-inf","-0","low bit flipped","32 ulps low","one","top fraction bit flipped","doubled","halved","two bits short"};
static std::string tname(const Plan&p,int i){ const Test&t=p.t[i]; std::ostringstream o; o<<"self-test "<<i<<" of policy "<<polname[t.pol]<<" (n="<<t.n<<")"; for(int k=0;k<t.nf;k++) o<<", operator"<<opname[t.f[k].op]<<" "<<(t.f[k].op<3?modename[t.f[k].mode]:"flipped")<<" at matching call "<<t.f[k].m<<(t.f[k].len>1?" onwards":""); return o.str(); }
static Verdict judge(const Plan&p,const Out&o){ Verdict v; if(o.timeout) return v; auto bad=[&](const char*k,int i,const std::string&s){ v.bad=true; v.kind=k; v.detail=tname(p,i)+": "+s; return v; };
  if(!o.crash.empty()){ for(int i=0;i<p.nt;i++) if(SH->r[i].st==5) return bad("crash",i,o.crash); return bad("crash",0,o.crash); }
  Sh s=*SH; for(int i=0;i<p.nt;i++){ const TRes &R=s.r[i]; if(R.st==3&&p.t[i].throw_at) continue; if(R.st==4&&p.t[i].throw_at) continue; if(R.st==4) return bad("exception",i,std::string("threw ")+R.what); if(R.effective&&R.st==1) return bad("missed",i,std::to_string(R.effective)+" operator call(s) returned a numerically different value, but the self-test passed");
    if(!R.effective&&R.st==2&&!p.t[i].throw_at){ Plan q=p; q.verify=1; execute(q); if(SH->r[i].based==0){ *SH=s; return bad("false_alarm",i,"every operator call agreed with the reference, but the self-test reported failure"); }
      if(p.nt>1){ Plan a=p; a.nt=1; a.nthr=1; a.swgap=0; a.t[0]=p.t[i]; a.t[0].thr=0; Out ao=execute(a); if(!ao.timeout&&ao.crash.empty()&&SH->r[0].st==1){ *SH=s; return bad("history",i,"it reported failure after the other self-tests, with operators that agree with it, and passes alone"); } } } }
  *SH=s; return v; }
static Verdict run(const Plan&p,uint64_t*tr=0,Out*oo=0){ Out o=execute(p); if(tr) *tr=SH->trace; if(oo) *oo=o; Verdict v=judge(p,o); return v; }

// ---- generation, text, minimisation
static double now(){ timespec t; clock_gettime(CLOCK_MONOTONIC,&t); return t.tv_sec+t.tv_nsec*1e-9; }
static Plan gen(Rng&r){ Plan p; memset(&p,0,sizeof p); p.nt= r.chance(1,2)?1:r.chance(1,2)?2:(int)r.range(2,4); p.nthr= p.nt>1&&r.chance(1,3)?(int)r.range(2,std::min(p.nt,3)):1; p.err=r.chance(3,4)?0:(int)r.range(1,3); p.swgap= p.nthr>1?(r.chance(1,2)?r.range(200,3000):r.range(3000,60000)):0; p.swseed=r.next()|1; int pl=r.chance(1,3)?0:(int)r.below(NPOL);
  for(int i=0;i<p.nt;i++){ Test&t=p.t[i]; t.pol=r.chance(2,3)?pl:(r.chance(1,2)?0:(int)r.below(NPOL)); t.n=r.chance(2,3)?100:(int)r.range(1,360); t.thr=p.nthr>1?(i<p.nthr?i:(int)r.below(p.nthr)):0; int nf= r.chance(1,8)?0:r.chance(4,5)?1:(int)r.range(2,3); if(p.nt>1&&r.chance(1,3)) nf=0; if(r.chance(1,12)) t.throw_at=1+(long)r.below(r.chance(1,2)?400:200000); t.nf=nf;
    for(int k=0;k<nf;k++){ Fault&f=t.f[k]; f.op=(int)r.below(9); static const int edge[]={20,21,27,27,28,29,30}; f.filt=r.chance(1,5)?0:f.op<3&&r.chance(1,4)?edge[r.below(7)]:(int)r.below(NFILT); f.filt2=r.chance(2,3)?0:(int)r.below(NFILT); if(f.op>=3){ if((f.filt>=20&&f.filt<=24)||f.filt>=27||(f.filt>=7&&f.filt<=8)) f.filt=0; if((f.filt2>=20&&f.filt2<=24)||f.filt2>=27||(f.filt2>=7&&f.filt2<=8)) f.filt2=0; } f.mode=(int)r.below(NMODE); int b=(int)r.below(f.filt?13:17); f.m=1+(long)r.below(1ull<<b); f.len=r.chance(5,6)?1:r.chance(1,3)?(long)r.range(2,12):1000000; if(r.chance(1,12)){ static const long cnt[]={10,16,100,128,256,256,512,1000,1024,4096,32768,65536}; f.len=cnt[r.below(12)]; f.filt=f.filt2=0; f.m=1+(long)r.below(64); if(f.len>20000){ t.n=(int)r.range(260,300); if(f.op<3) f.op+=3; } } /* a number of failures that a narrow counter may lose */ } }
  return p; }
static std::string text(const Plan&p,const Verdict&v,uint64_t tr){ std::ostringstream o; o<<"# replay with: c12 replay <this file>\nprop C12\nrun nt="<<p.nt<<" nthr="<<p.nthr<<" err="<<p.err<<" swgap="<<p.swgap<<" swseed="<<p.swseed<<"\n"; for(int i=0;i<p.nt;i++){ const Test&t=p.t[i]; o<<"test pol="<<t.pol<<" n="<<t.n<<" thr="<<t.thr<<" throw="<<t.throw_at<<" nf="<<t.nf<<"  # "<<polname[t.pol]<<"\n"; for(int k=0;k<t.nf;k++){ const Fault&f=t.f[k]; o<<"fault op="<<f.op<<" filt="<<f.filt<<" filt2="<<f.filt2<<" mode="<<f.mode<<" m="<<f.m<<" len="<<f.len<<"  # operator"<<opname[f.op]<<" "<<(f.op<3?modename[f.mode]:"flipped")<<"\n"; } }
  o<<"expect "<<(v.bad?v.kind:std::string("-"))<<"\ntrace "<<std::hex<<tr<<std::dec<<"\n# "<<v.detail<<"\n"; return o.str(); }
static bool parse(const char*fn,Plan&p,std::string&kind,uint64_t&tr){ std::ifstream f(fn); if(!f) return false; memset(&p,0,sizeof p); std::string l; int t=-1,k=0; unsigned long long x,y; while(std::getline(f,l)){ const char*c=l.c_str(); if(sscanf(c,"run nt=%d nthr=%d err=%d swgap=%ld swseed=%llu",&p.nt,&p.nthr,&p.err,&p.swgap,&x)==5){ p.swseed=x; } else if(!strncmp(c,"test ",5)){ if(++t>=MAXT) return false; k=0; Test&z=p.t[t]; if(sscanf(c,"test pol=%d n=%d thr=%d throw=%ld nf=%d",&z.pol,&z.n,&z.thr,&z.throw_at,&z.nf)!=5) return false; } else if(!strncmp(c,"fault ",6)){ if(t<0||k>=MAXF) return false; Fault&z=p.t[t].f[k++]; if(sscanf(c,"fault op=%d filt=%d filt2=%d mode=%d m=%ld len=%ld",&z.op,&z.filt,&z.filt2,&z.mode,&z.m,&z.len)!=6) return false; } else if(!strncmp(c,"expect ",7)) kind=l.substr(7); else if(sscanf(c,"trace %llx",&y)==1) tr=y; } return t>=0&&t+1==p.nt; }
static Plan minimise(Plan p,const std::string&kind,double tmax){ double t0=now(); auto fails=[&](const Plan&q){ if(now()-t0>tmax) return false; Verdict v=run(q); return v.bad&&v.kind==kind; };
  for(bool ch=true;ch;){ ch=false; for(int i=0;i<p.nt&&p.nt>1;i++){ Plan q=p; for(int j=i;j+1<p.nt;j++) q.t[j]=q.t[j+1]; q.nt--; int mx=0; for(int j=0;j<q.nt;j++) mx=std::max(mx,q.t[j].thr); if(q.nthr>mx+1) q.nthr=mx+1; if(fails(q)){ p=q; ch=true; break; } } }
  if(p.nthr>1){ Plan q=p; q.nthr=1; q.swgap=0; for(int i=0;i<q.nt;i++) q.t[i].thr=0; if(fails(q)) p=q; } if(p.err){ Plan q=p; q.err=0; if(fails(q)) p=q; }
  for(int i=0;i<p.nt;i++){ if(p.t[i].throw_at){ Plan q=p; q.t[i].throw_at=0; if(fails(q)) p=q; } for(int k=0;k<p.t[i].nf&&p.t[i].nf>0;){ Plan q=p; for(int j=k;j+1<p.t[i].nf;j++) q.t[i].f[j]=q.t[i].f[j+1]; q.t[i].nf--; if(fails(q)) p=q; else k++; } for(int k=0;k<p.t[i].nf;k++){ { Plan q=p; q.t[i].f[k].len=1; if(fails(q)) p=q; } for(int b=0;b<20&&p.t[i].f[k].m>1;b++){ Plan q=p; q.t[i].f[k].m=std::max<long>(1,p.t[i].f[k].m/2); if(fails(q)) p=q; else break; } { Plan q=p; q.t[i].f[k].filt2=0; if(fails(q)) p=q; } } if(p.t[i].n!=100){ Plan q=p; q.t[i].n=100; if(fails(q)) p=q; } { Plan q=p; q.t[i].pol=0; if(fails(q)) p=q; } }
  return p; }
static std::string jesc(const std::string&s){ std::string o; for(unsigned char c: s){ if(c=='"'||c=='\\'){ o+='\\'; o+=c; } else if(c<32||c>126){ char b[8]; snprintf(b,8,"\\u%04x",c); o+=b; } else o+=c; } return o; }
int main(int argc,char**argv){ SH=(Sh*)mmap(0,sizeof(Sh),PROT_READ|PROT_WRITE,MAP_SHARED|MAP_ANONYMOUS,-1,0); std::string cmd=argc>1?argv[1]:"";
  if(cmd=="replay"){ Plan p; std::string kind; uint64_t tr=0,t1=0,t2=0; if(!parse(argv[2],p,kind,tr)){ fprintf(stderr,"cannot read %s\n",argv[2]); return 2; } Verdict v=run(p,&t1),w=run(p,&t2); if(!v.bad){ printf("NOT REPRODUCED\n"); return 0; } printf("%s%s kind=%s %s\n",v.kind==kind&&w.bad&&w.kind==v.kind&&t1==t2?"REPRODUCED":"DIFFERENT",tr==t1?" identically":" (other trace)",v.kind.c_str(),v.detail.c_str()); return 1; }
  if(cmd!="search"){ fprintf(stderr,"usage: c12 replay FILE | search ...\n"); return 2; }
  std::map<std::string,std::string> A; for(int i=2;i+1<argc;i+=2) A[argv[i]]=argv[i+1]; uint64_t seed=strtoull(A["--seed"].c_str(),0,10); int wk=atoi(A["--worker"].c_str()),nw=atoi(A["--nworkers"].c_str()); long runs=atol(A["--runs"].c_str()); double wall=atof(A["--wall"].c_str()),t0=now();
  std::map<std::string,long> ST; std::unordered_set<uint64_t> traces; std::vector<std::string> samples,viol; std::set<int> pols; long unconfirmed=0;
  for(long k=wk;ST["runs"]<runs&&now()-t0<wall&&viol.empty();k+=nw){ Rng r(mix(seed*1000003+12)^mix(k+1)); Plan p=gen(r); uint64_t tr; Out o=execute(p); tr=SH->trace; Sh s=*SH; ST["runs"]++; ST["steps"]+=s.steps; ST["context_switches"]+=s.switches; if(o.timeout) ST["timeouts"]++; bool nt=p.nt>1; for(int i=0;i<p.nt;i++){ pols.insert(p.t[i].pol); const TRes&R=s.r[i]; ST["self_tests"]++; ST["calls"]+=R.calls; if(R.effective){ nt=true; ST["self_tests_with_effective_fault"]++; } else if(R.triggered) ST["self_tests_with_neutral_fault"]++; else ST["self_tests_without_fault"]++; if(R.st==3){ nt=true; ST["self_tests_abandoned"]++; } for(int q=0;q<p.t[i].nf;q++) if(R.triggered) ST[std::string("fault_operator")+opname[p.t[i].f[q].op]]++; } if(p.err) ST["runs_with_failing_stderr"]++;
    if(nt&&traces.insert(tr).second) ST["distinct_nontrivial"]++; if(samples.size()<2) samples.push_back(text(p,Verdict(),tr));
    Verdict v=judge(p,o); if(!v.bad&&k%97==0){ uint64_t t2; run(p,&t2); ST["determinism_reruns"]++; if(t2!=tr) ST["determinism_mismatches"]++; }
    if(v.bad){ uint64_t t1,t2; Verdict a=run(p,&t1),b=run(p,&t2); if(!a.bad||!b.bad||a.kind!=v.kind||t1!=t2||t1!=tr){ unconfirmed++; continue; } Plan m=minimise(p,v.kind,40); Verdict mv=run(m,&t1); if(!mv.bad){ m=p; mv=run(m,&t1); } std::string fn=A["--out"]+"/C12-seed"+std::to_string(seed)+"-w"+std::to_string(wk)+"-r"+std::to_string(k)+".replay"; std::ofstream(fn.c_str())<<text(m,mv,t1); viol.push_back(fn+"\t"+mv.kind+"\t"+mv.detail); } }
  printf("{\"worker\":%d,\"exe\":\"c12\",\"wall\":%.1f,\"executions\":%ld,\"unconfirmed\":%ld,\"ops_usable\":%d,\"ops_used\":%zu,\"rule\":\"A case is one simulated process with 1-4 self-tests of 10 policies on 1-3 threads; faults are drawn over operator, operand/result class, position among the matching calls, wrong value and duration. Non-trivial: a fault took effect, a conversion threw, or several self-tests ran; distinct by trace hash (positions, effects, switches, outcomes).\",\"stats\":{",wk,now()-t0,n_exec,unconfirmed,(int)NPOL,pols.size()); bool first=true; for(auto&q: ST){ printf("%s\"%s\":%ld",first?"":",",jesc(q.first).c_str(),q.second); first=false; } printf("},\"samples\":["); for(size_t i=0;i<samples.size();i++) printf("%s\"%s\"",i?",":"",jesc(samples[i]).c_str()); printf("],\"violations\":["); for(size_t i=0;i<viol.size();i++) printf("%s\"%s\"",i?",":"",jesc(viol[i]).c_str()); printf("]}\n"); return 0; }
