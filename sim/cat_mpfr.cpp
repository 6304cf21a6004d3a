// MPFR-backed references and conversions
#include "cat.h"
#include "thls/tops/fp_flopoco_primitives.hpp"
#include "thls/tops/fp_convert.hpp"
namespace {
#define RF2(N) template<int ER,int FR,int E,int F> void o_##N(const u128*in,Out&o){ put(o,(N<ER,FR>(X<E,F>(in[0]),X<E,F>(in[1])))); fp_flopoco<ER,FR> d; N(d,X<E,F>(in[1]),X<E,F>(in[0])); put(o,d); }
#define RF1(N) template<int ER,int FR,int E,int F> void o_##N(const u128*in,Out&o){ put(o,(N<ER,FR>(X<E,F>(in[0])))); }
RF2(ref_add) RF2(ref_mul) RF2(ref_div) RF2(ref_pow)
#define RF1V(N) template<int ER,int FR,int E,int F> void o_##N(const u128*in,Out&o){ put(o,(N<ER,FR>(X<E,F>(in[0])))); fp_flopoco<ER,FR> d; N(d,X<E,F>(in[0])); put(o,d); }
RF1(ref_neg) RF1V(ref_inv) RF1V(ref_convert) RF1V(ref_square) RF1(ref_log) RF1(ref_exp) RF1(ref_sqrt)
template<int ER,int FR,int E,int F> void o_ref_inv_faithful(const u128*in,Out&o){ fp_flopoco<ER,FR> a,b,c; ref_inv_faithful(a,b,X<E,F>(in[0])); ref_inv(c,X<E,F>(in[0])); put(o,a); put(o,b); put(o,c); }
template<int ER,int FR,int E,int F> void o_ref_ldexp(const u128*in,Out&o){ put(o,(ref_ldexp_const<ER,FR,3>(X<E,F>(in[0])))); put(o,(ref_ldexp_const<ER,FR,-5>(X<E,F>(in[0])))); fp_flopoco<ER,FR> d; ref_ldexp_const<ER,FR,2>(d,X<E,F>(in[0])); put(o,d); }
template<int ER,int FR,int E,int F> void o_ref_fma(const u128*in,Out&o){ put(o,(ref_fma<ER,FR>(X<E,F>(in[0]),X<E,F>(in[1]),X<E,F>(in[2])))); fp_flopoco<ER,FR> d; ref_fma(d,X<E,F>(in[2]),X<E,F>(in[0]),X<E,F>(in[1])); put(o,d); }
template<int ER,int FR,int EA,int FA,int EB,int FB> void o_refm(const u128*in,Out&o){ auto a=X<EA,FA>(in[0]); auto b=X<EB,FB>(in[1]); put(o,(ref_add<ER,FR>(a,b))); put(o,(ref_mul<ER,FR>(a,b))); put(o,(ref_div<ER,FR>(a,b))); put(o,(ref_fma<ER,FR>(a,b,a))); fp_flopoco<ER,FR> d; ref_add(d,b,a); put(o,d); ref_mul(d,b,a); put(o,d); ref_div(d,b,a); put(o,d); }
template<int ER,int FR,int EA,int FA,int EB,int FB> void rm(reg_fn R){ R(Nm("ref_mixed<%d,%d|%d,%d|%d,%d>",ER,FR,EA,FA,EB,FB),Nm("f%d,%d f%d,%d",EA,FA,EB,FB),o_refm<ER,FR,EA,FA,EB,FB>,F_MPFR); }
template<int E,int F> void o_iref_add(const u128*in,Out&o){ put(o,(ref_add<E,F>(I<E,F>(in[0]),I<E,F>(in[1])))); fp_ieee<E,F> d; ref_add(d,I<E,F>(in[1]),I<E,F>(in[0])); put(o,d); }
template<int E,int F> void o_iref_mul(const u128*in,Out&o){ put(o,(ref_mul<E,F>(I<E,F>(in[0]),I<E,F>(in[1])))); fp_ieee<E,F> d; ref_mul(d,I<E,F>(in[1]),I<E,F>(in[0])); put(o,d); }
// an MPFR number built from words: class, sign, significand, exponent
template<int P> void mk(Mp &m,const u128*in){
  int cls=(int)in[0]; int sg=(in[1]&1)?-1:1;
  if(cls==0) mpfr_set_zero(m.v,sg); else if(cls==1) mpfr_set_inf(m.v,sg); else if(cls==2) mpfr_set_nan(m.v);
  else { Mz z; mpz_set_ui(z.v,(uint64_t)(in[2]>>64)); mpz_mul_2exp(z.v,z.v,64); mpz_add_ui(z.v,z.v,(uint64_t)in[2]); mpz_fdiv_r_2exp(z.v,z.v,P); mpz_setbit(z.v,P-1); if(sg<0) mpz_neg(z.v,z.v);
    mpfr_set_z_2exp(m.v,z.v,(long)in[3]-2000,MPFR_RNDN); } }
template<int E,int F> void o_from(const u128*in,Out&o){ Mp m(F+1); mk<F+1>(m,in); put(o,fp_flopoco<E,F>(m.v,(in[4]&1)!=0)); }
template<int E,int F> void o_ifrom(const u128*in,Out&o){ Mp m(F+1); mk<F+1>(m,in); put(o,fp_ieee<E,F>(m.v,(in[4]&1)!=0)); }
template<int E,int F> void o_frombad(const u128*in,Out&o){ Mp m(F+2); mk<F+2>(m,in); put(o,fp_flopoco<E,F>(m.v,true)); }
template<int E,int F> void o_get(const u128*in,Out&o){ Mp m(F+1); X<E,F>(in[0]).get(m.v); put(o,m.v); Mp n(F+9); X<E,F>(in[0]).get(n.v,MPFR_RNDN); put(o,n.v); Mp k(F<3?2:F-1); X<E,F>(in[0]).get(k.v,MPFR_RNDU); put(o,k.v); }
template<int E,int F> void o_iget(const u128*in,Out&o){ Mp m(F+1); I<E,F>(in[0]).get(m.v); put(o,m.v); Mp n(F+9); I<E,F>(in[0]).get(n.v,MPFR_RNDN); put(o,n.v); Mp k(F<3?2:F-1); I<E,F>(in[0]).get(k.v,MPFR_RNDZ); put(o,k.v); }
template<int E,int F> void o_getbad(const u128*in,Out&o){ Mp m(F+4); X<E,F>(in[0]).get(m.v); put(o,m.v); }
template<int E,int F> void o_igetbad(const u128*in,Out&o){ Mp m(F+4); I<E,F>(in[0]).get(m.v); put(o,m.v); }
template<int E,int F> void o_tda(const u128*in,Out&o){ put(o,X<E,F>(in[0]).to_double_approx()); }
template<int E,int F> void o_itda(const u128*in,Out&o){ put(o,I<E,F>(in[0]).to_double_approx()); }
template<int E,int F> void o_td(const u128*in,Out&o){ put(o,X<E,F>(in[0]).to_double()); }
template<int E,int F> void o_fromd(const u128*in,Out&o){ uint64_t u=(uint64_t)in[0]; double d; __builtin_memcpy(&d,&u,8); put(o,fp_flopoco<E,F>(d)); }
const unsigned MF=F_MPFR;
#define M2(fn) R(Nm(#fn "<%d,%d|%d,%d>",ER,FR,E,F),Nm("f%d,%d f%d,%d",E,F,E,F),o_##fn<ER,FR,E,F>,MF)
#define M1(fn) R(Nm(#fn "<%d,%d|%d,%d>",ER,FR,E,F),Nm("f%d,%d",E,F),o_##fn<ER,FR,E,F>,MF)
template<int ER,int FR,int E,int F> void rr(reg_fn R){
  M2(ref_add); M2(ref_mul); M2(ref_div); M1(ref_neg); M1(ref_inv); M1(ref_convert); M1(ref_square); M1(ref_sqrt); M1(ref_inv_faithful); M1(ref_ldexp);
  R(Nm("ref_fma<%d,%d|%d,%d>",ER,FR,E,F),Nm("f%d,%d f%d,%d f%d,%d",E,F,E,F,E,F),o_ref_fma<ER,FR,E,F>,MF);
}
template<int ER,int FR,int E,int F> void rt(reg_fn R){ const unsigned MF=F_MPFR|F_SLOW; M2(ref_pow); M1(ref_log); M1(ref_exp); }
#define MG(nm,sig,fn,fl) R(Nm(nm "<%d,%d>",E,F),Nm(sig,E,F),fn<E,F>,fl)
template<int E,int F> void rg(reg_fn R){
  MG("mpfr_get","f%d,%d",o_get,MF); MG("ieee_mpfr_get","i%d,%d",o_iget,MF); MG("mpfr_get_badprec","f%d,%d",o_getbad,MF|F_HOST|F_THROWS); MG("ieee_mpfr_get_badprec","i%d,%d",o_igetbad,MF|F_HOST|F_THROWS);
  MG("to_double_approx","f%d,%d",o_tda,MF|F_NOENV); MG("ieee_to_double_approx","i%d,%d",o_itda,MF|F_NOENV);
  const unsigned T=MF|F_HOST|F_THROWS;
  R(Nm("from_mpfr<%d,%d>",E,F),Nm("n0,6 u1 u%d n%d,%d u1",F+1,2000-F-(1<<(E-1))-2,2000-F+(1<<(E-1))+2),o_from<E,F>,T);
  R(Nm("ieee_from_mpfr<%d,%d>",E,F),Nm("n0,6 u1 u%d n%d,%d u1",F+1,2000-F-(1<<(E-1))-2,2000-F+(1<<(E-1))+2),o_ifrom<E,F>,T);
  R(Nm("from_mpfr_badprec<%d,%d>",E,F),Nm("n0,6 u1 u%d n%d,%d",F+1,2000-F,2010-F),o_frombad<E,F>,T);
  R(Nm("iref_add<%d,%d>",E,F),Nm("i%d,%d i%d,%d",E,F,E,F),o_iref_add<E,F>,MF); R(Nm("iref_mul<%d,%d>",E,F),Nm("i%d,%d i%d,%d",E,F,E,F),o_iref_mul<E,F>,MF);
}
template<int E,int F> void rd(reg_fn R){ MG("to_double","f%d,%d",o_td,F_NOENV); R(Nm("from_double<%d,%d>",E,F),"d",o_fromd<E,F>,F_NOENV); }
}
extern "C" void reg_mpfr(reg_fn R){
  rr<4,3,4,3>(R); rr<8,23,8,23>(R); rr<11,52,11,52>(R); rr<6,9,8,23>(R); rr<8,23,5,10>(R);
  rr<5,10,8,23>(R); rr<8,23,11,52>(R); rr<11,52,8,23>(R); rr<6,30,6,20>(R);
  rm<8,23,8,10,8,23>(R); rm<8,10,8,23,8,20>(R); rm<6,9,5,10,6,12>(R); rm<11,52,8,23,11,52>(R);
  rt<4,3,4,3>(R); rt<5,10,5,10>(R); rt<8,23,5,10>(R); rt<5,10,5,12>(R); rt<5,12,5,10>(R); rt<4,8,4,3>(R);
  rg<4,3>(R); rg<5,10>(R); rg<8,23>(R); rg<6,9>(R); rg<11,52>(R);
  rd<4,3>(R); rd<8,23>(R); rd<11,52>(R); rd<5,10>(R);
}
