// arithmetic policies and the test-input generators
#include "thls/tops/policy_native.hpp"
#include "thls/tops/policy_flopoco.hpp"
#include "thls/tops/policy_ieee_on_flopoco.hpp"
#include "thls/tops/policy_softfloat.hpp"
#include "thls/tops/make_input.hpp"
#include "cat.h"
namespace {
template<int P> void mk(Mp &m,const u128*in){
  int cls=(int)in[0]; int sg=(in[1]&1)?-1:1;
  if(cls==0) mpfr_set_zero(m.v,sg); else if(cls==1) mpfr_set_inf(m.v,sg); else if(cls==2) mpfr_set_nan(m.v);
  else { Mz z; mpz_set_ui(z.v,(uint64_t)(in[2]>>64)); mpz_mul_2exp(z.v,z.v,64); mpz_add_ui(z.v,z.v,(uint64_t)in[2]); mpz_fdiv_r_2exp(z.v,z.v,P); mpz_setbit(z.v,P-1); if(sg<0) mpz_neg(z.v,z.v);
    mpfr_set_z_2exp(m.v,z.v,(long)in[3]-2000,MPFR_RNDN); } }
template<class T> struct Bits; // value <-> bits
template<> struct Bits<double>{ static double mk(u128 v){ uint64_t u=(uint64_t)v; double d; __builtin_memcpy(&d,&u,8); return d; } static void put_(Out&o,double d){ put(o,d); } };
template<> struct Bits<float>{ static float mk(u128 v){ uint32_t u=(uint32_t)v; float d; __builtin_memcpy(&d,&u,4); return d; } static void put_(Out&o,float d){ put(o,d); } };
template<> struct Bits<float32_t>{ static float32_t mk(u128 v){ float32_t f; uint32_t u=(uint32_t)v; __builtin_memcpy(&f,&u,4); return f; } static void put_(Out&o,float32_t f){ float d; __builtin_memcpy(&d,&f,4); put(o,d); } };
template<> struct Bits<float64_t>{ static float64_t mk(u128 v){ float64_t f; uint64_t u=(uint64_t)v; __builtin_memcpy(&f,&u,8); return f; } static void put_(Out&o,float64_t f){ double d; __builtin_memcpy(&d,&f,8); put(o,d); } };
template<int E,int F> struct Bits<fp_flopoco_wrapper<E,F> >{ typedef fp_flopoco_wrapper<E,F> T; static T mk(u128 v){ return T(X<E,F>(v)); } static void put_(Out&o,const T&t){ put(o,t.raw); } };
template<int E,int F> struct Bits<fp_ieee_on_flopoco_wrapper<E,F> >{ typedef fp_ieee_on_flopoco_wrapper<E,F> T; static T mk(u128 v){ return T(I<E,F>(v)); } static void put_(Out&o,const T&t){ put(o,t.raw); } };
template<class P> struct Dig { enum{ v=std::numeric_limits<typename P::value_t>::digits }; };
template<class P> void o_arith(const u128*in,Out&o){ typedef typename P::value_t T; T a=Bits<T>::mk(in[0]),b=Bits<T>::mk(in[1]); Bits<T>::put_(o,a*b); Bits<T>::put_(o,a+b); Bits<T>::put_(o,a/b); }
template<class P> void o_cmp(const u128*in,Out&o){ typedef typename P::value_t T; T a=Bits<T>::mk(in[0]),b=Bits<T>::mk(in[1]); put(o,bool(a==b)); put(o,bool(a!=b)); put(o,bool(a<b)); put(o,bool(a<=b)); put(o,bool(a>b)); put(o,bool(a>=b)); }
template<class P> void o_to(const u128*in,Out&o){ typedef typename P::value_t T; Mp m(Dig<P>::v); P::to_mpfr(m.v,Bits<T>::mk(in[0])); put(o,m.v); }
template<class P> void o_tobad(const u128*in,Out&o){ typedef typename P::value_t T; Mp m(Dig<P>::v-2); P::to_mpfr(m.v,Bits<T>::mk(in[0])); put(o,m.v); }
template<class P> void o_from(const u128*in,Out&o){ typedef typename P::value_t T; Mp m(Dig<P>::v); mk<Dig<P>::v>(m,in); Bits<T>::put_(o,P::from_mpfr(m.v,(in[4]&1)!=0)); }
template<class P> void o_fromx(const u128*in,Out&o){ typedef typename P::value_t T; Mp m(Dig<P>::v+5); mk<Dig<P>::v+5>(m,in); Bits<T>::put_(o,P::from_mpfr(m.v,(in[4]&1)!=0)); } // too precise: must be refused
template<class P,int K> void o_ref(const u128*in,Out&o){ typedef typename P::value_t T; Mp a(Dig<P>::v),b(Dig<P>::v),r(Dig<P>::v); P::to_mpfr(a.v,Bits<T>::mk(in[0])); P::to_mpfr(b.v,Bits<T>::mk(in[1]));
  if(K==0) P::ref_mul(r.v,a.v,b.v); else if(K==1) P::ref_add(r.v,a.v,b.v); else P::ref_div(r.v,a.v,b.v); put(o,r.v); }
template<class P,int K> void o_refbad(const u128*in,Out&o){ typedef typename P::value_t T; Mp a(Dig<P>::v),b(Dig<P>::v),r(Dig<P>::v+7); P::to_mpfr(a.v,Bits<T>::mk(in[0])); P::to_mpfr(b.v,Bits<T>::mk(in[1]));
  if(K==0) P::ref_mul(r.v,a.v,b.v); else if(K==1) P::ref_add(r.v,a.v,b.v); else P::ref_div(r.v,a.v,b.v); put(o,r.v); }
// the result goes to an operand, or one object is both operands
template<class P,int K> void rf3(mpfr_ptr r,mpfr_ptr a,mpfr_ptr b){ if(K==0) P::ref_mul(r,a,b); else if(K==1) P::ref_add(r,a,b); else P::ref_div(r,a,b); }
inline bool same(mpfr_ptr a,mpfr_ptr b){ return mpfr_nan_p(a)?mpfr_nan_p(b)!=0:!mpfr_nan_p(b)&&mpfr_cmp(a,b)==0&&mpfr_signbit(a)==mpfr_signbit(b); }
template<class P,int K> void o_refal(const u128*in,Out&o){ typedef typename P::value_t T; const int W=Dig<P>::v; Mp a(W),b(W),b2(W),r(W),s(W),x(W); P::to_mpfr(a.v,Bits<T>::mk(in[0])); P::to_mpfr(b.v,Bits<T>::mk(in[1])); mpfr_set(b2.v,b.v,MPFR_RNDN);
  rf3<P,K>(r.v,a.v,b.v); put(o,r.v); rf3<P,K>(s.v,b.v,b2.v); put(o,s.v); mpfr_set(x.v,a.v,MPFR_RNDN); rf3<P,K>(x.v,x.v,b.v); if(!same(x.v,r.v)) sim_flag(&o,9); mpfr_set(x.v,b.v,MPFR_RNDN); rf3<P,K>(x.v,a.v,x.v); if(!same(x.v,r.v)) sim_flag(&o,9);
  rf3<P,K>(x.v,b.v,b.v); if(!same(x.v,s.v)||!same(b.v,b2.v)) sim_flag(&o,9); mpfr_set(x.v,b.v,MPFR_RNDN); rf3<P,K>(x.v,x.v,x.v); if(!same(x.v,s.v)) sim_flag(&o,9); }
template<class P> void o_input(const u128*in,Out&o){ typedef typename P::value_t T; std::vector<T> v; test_policy<P>::make_input(v,(int)in[0]); put(o,(uint64_t)v.size()); for(size_t i=0;i<v.size();i++) Bits<T>::put_(o,v[i]); }
template<class P> void o_check(const u128*in,Out&o){ // the comparison helpers, fed both agreeing and disagreeing values
  typedef typename P::value_t T; typedef test_policy<P> TP; typename TP::results_t res; T a=Bits<T>::mk(in[0]),b=Bits<T>::mk(in[1]),g=Bits<T>::mk(in[2]); Mp ma(Dig<P>::v),mb(Dig<P>::v),r(Dig<P>::v);
  P::to_mpfr(ma.v,a); P::to_mpfr(mb.v,b); P::to_mpfr(r.v,a);
  TP::checkOperator(res,"Op",a,b,a,ma.v,mb.v,r.v); TP::checkOperator(res,"Op",a,b,g,ma.v,mb.v,r.v); TP::checkComparison(res,"Cmp",a,b,true,ma.v,mb.v,(in[3]&1)!=0);
  put(o,res["Op"].first); put(o,res["Op"].second); put(o,res["Cmp"].first); put(o,res["Cmp"].second); }
template<class T> void o_minput(const u128*in,Out&o){ std::vector<T> v; make_input<T>(v,(int)in[0]); put(o,(uint64_t)v.size()); for(size_t i=0;i<v.size();i++) put(o,v[i]); }
template<class P> void rp(reg_fn R,const char*nm,const char*k,bool native,bool softf){
  unsigned A=native||softf?F_NOENV:F_SYN; if(softf) A=0; unsigned M=F_MPFR; if(native||softf) M|=F_NOENV; int p=Dig<P>::v; Nm k2("%s %s",k,k);
  R(Nm("%s.arith",nm),k2,o_arith<P>,A); R(Nm("%s.cmp",nm),k2,o_cmp<P>,A); R(Nm("%s.to_mpfr",nm),k,o_to<P>,M|F_HOST|F_THROWS); R(Nm("%s.to_mpfr_short",nm),k,o_tobad<P>,M|F_HOST|F_THROWS);
  int span=p<10?12:p<40?160:1100;
  R(Nm("%s.from_mpfr",nm),Nm("n0,6 u1 u%d n%d,%d u1",p,2000-p-span,2000-p+span),o_from<P>,M|F_HOST|F_THROWS|F_PRINTS);
  R(Nm("%s.from_mpfr_long",nm),Nm("n0,6 u1 u%d n%d,%d u1",p+5,2000-p-span,2000-p+span),o_fromx<P>,M|F_HOST|F_THROWS|F_PRINTS);
  R(Nm("%s.ref_mul",nm),k2,o_ref<P,0>,M|F_HOST); R(Nm("%s.ref_add",nm),k2,o_ref<P,1>,M|F_HOST); R(Nm("%s.ref_div",nm),k2,o_ref<P,2>,M|F_HOST);
  R(Nm("alias.%s.ref_mul",nm),k2,o_refal<P,0>,M|F_HOST); R(Nm("alias.%s.ref_add",nm),k2,o_refal<P,1>,M|F_HOST); R(Nm("alias.%s.ref_div",nm),k2,o_refal<P,2>,M|F_HOST);
  R(Nm("%s.make_input",nm),"n0,600",o_input<P>,M|F_HOST|F_PRINTS); R(Nm("%s.check",nm),Nm("%s %s %s u1",k,k,k),o_check<P>,M|F_HOST|F_PRINTS);
}
template<class P> void rb(reg_fn R,const char*nm,const char*k){ unsigned M=F_MPFR|F_HOST|F_THROWS|F_NOENV; Nm k2("%s %s",k,k); R(Nm("%s.ref_mul_badprec",nm),k2,o_refbad<P,0>,M); R(Nm("%s.ref_add_badprec",nm),k2,o_refbad<P,1>,M); R(Nm("%s.ref_div_badprec",nm),k2,o_refbad<P,2>,M); }
template<int E,int F> void rf(reg_fn R){ rp<policy_flopoco<E,F> >(R,Nm("policy_flopoco<%d,%d>",E,F),Nm("f%d,%d",E,F),false,false); R(Nm("make_input<%d,%d>",E,F),"n0,600",o_minput<fp_flopoco<E,F> >,F_MPFR|F_HOST|F_THROWS); }
template<int E,int F> void ri(reg_fn R){ rp<policy_ieee_on_flopoco<E,F> >(R,Nm("policy_ieee<%d,%d>",E,F),Nm("i%d,%d",E,F),false,false); R(Nm("make_input_ieee<%d,%d>",E,F),"n0,600",o_minput<fp_ieee<E,F> >,F_MPFR|F_HOST|F_THROWS); }
void o_cv(const u128*in,Out&o){ float f=Bits<float>::mk(in[0]); auto w=to<fp_flopoco_wrapper<8,23>,(convert_policy)0>(f); put(o,w.raw); put(o,(to<float,(convert_policy)0>(w))); }
void o_cvn(const u128*in,Out&o){ float f=Bits<float>::mk(in[0]); put(o,(to<double>(f))); }
void o_cvd(const u128*in,Out&o){ double d=Bits<double>::mk(in[0]); put(o,(to<float,allow_precision_loss>(d))); put(o,(to<double>(d))); }
template<int E,int F> void o_mut(const u128*in,Out&o){ fp_flopoco_wrapper<E,F> a(X<E,F>(in[0])),b(X<E,F>(in[1])); a*=b; put(o,a.raw); a+=b; put(o,a.raw); a=a/b; put(o,a.raw); fp_flopoco_wrapper<E,F> x(X<E,F>(in[0])),y(X<E,F>(in[0])),z(y); x*=x; y*=z; if(x.raw.bits.bits!=y.raw.bits.bits) sim_flag(&o,9); x+=x; z=y; y+=z; if(x.raw.bits.bits!=y.raw.bits.bits) sim_flag(&o,9); }
}
namespace {
// an application's own policy, whose conversions or operators may throw (at the k-th call, decided by the simulator)
#define g_script (*sim_script())
struct TV { double v; TV():v(0){} explicit TV(double d):v(d){} };
inline TV operator*(TV a,TV b){ sim_draw(g_script); return TV(a.v*b.v); } inline TV operator+(TV a,TV b){ sim_draw(g_script); return TV(a.v+b.v); } inline TV operator/(TV a,TV b){ sim_draw(g_script); return TV(a.v/b.v); }
inline bool operator==(TV a,TV b){ return a.v==b.v; } inline bool operator!=(TV a,TV b){ return a.v!=b.v; } inline bool operator<(TV a,TV b){ return a.v<b.v; } inline bool operator<=(TV a,TV b){ return a.v<=b.v; } inline bool operator>(TV a,TV b){ return a.v>b.v; } inline bool operator>=(TV a,TV b){ return a.v>=b.v; }
struct policy_throw { typedef TV value_t; typedef policy_native_double B;
  static TV from_mpfr(mpfr_t x,bool a=false){ sim_draw(g_script); return TV(B::from_mpfr(x,a)); } static void to_mpfr(mpfr_t d,TV x){ sim_draw(g_script); B::to_mpfr(d,x.v); }
  static int ref_mul(mpfr_t r,mpfr_t a,mpfr_t b){ sim_draw(g_script); return B::ref_mul(r,a,b); } static int ref_add(mpfr_t r,mpfr_t a,mpfr_t b){ return B::ref_add(r,a,b); } static int ref_div(mpfr_t r,mpfr_t a,mpfr_t b){ return B::ref_div(r,a,b); } };
}
namespace std { template<> class numeric_limits<TV> : public numeric_limits<double> { typedef numeric_limits<double> L; public: static TV min(){ return TV(L::min()); } static TV max(){ return TV(L::max()); } static TV lowest(){ return TV(L::lowest()); } static TV infinity(){ return TV(L::infinity()); } static TV quiet_NaN(){ return TV(L::quiet_NaN()); } static TV epsilon(){ return TV(L::epsilon()); } static TV denorm_min(){ return TV(L::denorm_min()); } }; }
namespace {
struct ScriptScope { Script s, *old; explicit ScriptScope(uint64_t k):old(g_script){ s.kind=s.seed=s.pos=s.last=s.thrown=0; s.throw_at=k; g_script=&s; } ~ScriptScope(){ g_script=old; } };
void o_tinput(const u128*in,Out&o){ ScriptScope sc((uint64_t)in[0]); std::vector<TV> v; test_policy<policy_throw>::make_input(v,(int)in[1]); put(o,(uint64_t)v.size()); for(size_t i=0;i<v.size();i++) put(o,v[i].v); }
void o_tcheck(const u128*in,Out&o){ ScriptScope sc((uint64_t)in[0]); typedef test_policy<policy_throw> TP; TP::results_t res; Mp a(53),b(53),r(53); TV x(3),y(5),z(in[1]&1?15:16); policy_throw::B::to_mpfr(a.v,3); policy_throw::B::to_mpfr(b.v,5); policy_throw::B::to_mpfr(r.v,15);
  TP::checkOperator(res,"Op",x,y,z,a.v,b.v,r.v); put(o,res["Op"].first); put(o,res["Op"].second); }
void o_tarith(const u128*in,Out&o){ ScriptScope sc((uint64_t)in[0]); put(o,(bool)test_policy<policy_throw>::test_arithmetic()); }
}
extern "C" void reg_pol(reg_fn R){
  { unsigned T=F_MPFR|F_HOST|F_THROWS|F_PRINTS|F_NOENV; R("policy_throw.make_input","n0,900 n0,600",o_tinput,T); R("policy_throw.check","n0,4 u1",o_tcheck,T); R("policy_throw.self_test","n0,2000",o_tarith,T|F_SLOW); }
  rf<8,23>(R); rf<5,10>(R); rf<11,52>(R); rf<6,13>(R);
  ri<8,23>(R); ri<5,10>(R); ri<11,52>(R);
  rp<policy_native_double>(R,"native_double","d",true,false); rp<policy_native_single>(R,"native_single","s",true,false);
  rp<policy_softfloat_double>(R,"softfloat_double","d",false,true); rp<policy_softfloat_single>(R,"softfloat_single","s",false,true); rp<policy_concept>(R,"policy_concept","d",true,false);
  rb<policy_native_double>(R,"native_double","d"); rb<policy_native_single>(R,"native_single","s"); rb<policy_softfloat_single>(R,"softfloat_single","s"); rb<policy_concept>(R,"policy_concept","d");
  R("to.float","s",o_cv,F_SYN); R("to.float_double","s",o_cvn,F_NOENV); R("to.double","d",o_cvd,F_NOENV); R("policy_flopoco_assign<8,23>","f8,23 f8,23",o_mut<8,23>,F_SYN); R("policy_flopoco_assign<5,10>","f5,10 f5,10",o_mut<5,10>,F_SYN);
}
