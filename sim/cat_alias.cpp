// one object in several roles: the result goes to an operand, one object is passed twice. The bits must be those of separate objects.
#include "cat.h"
#include "thls/tops/fp_flopoco_primitives.hpp"
#include "thls/tops/fp_convert.hpp"
#include "thls/tops/fp_promote.hpp"
#include "thls/tops/fp_flopoco_ordering.hpp"
namespace {
template<class T> inline bool ne(const T&a,const T&b){ return a.bits.bits!=b.bits.bits; }
inline bool same(mpfr_ptr a,mpfr_ptr b){ return mpfr_nan_p(a)?mpfr_nan_p(b)!=0:!mpfr_nan_p(b)&&mpfr_cmp(a,b)==0&&mpfr_signbit(a)==mpfr_signbit(b); }
#define BAD sim_flag(&o,9)
#define D2(N) template<int E,int F> void o_##N(const u128*in,Out&o){ const auto a=X<E,F>(in[0]),b=X<E,F>(in[1]); typedef fp_flopoco<E,F> T; T d; N(d,a,b); put(o,d); T e; N(e,b,b); put(o,e); \
  T x=a; N(x,x,b); if(ne(x,d)) BAD; x=b; N(x,a,x); if(ne(x,d)) BAD; x=b; const T b2=b; N(d,b,b2); if(ne(d,e)) BAD; N(x,x,x); if(ne(x,e)) BAD; if(ne(a,X<E,F>(in[0]))||ne(b,X<E,F>(in[1]))) BAD; }
#define D1(N,CALL) template<int E,int F> void o_##N(const u128*in,Out&o){ const auto a=X<E,F>(in[0]); typedef fp_flopoco<E,F> T; T d; { const T &src=a; T &dst=d; CALL; } put(o,d); T x=a; { const T &src=x; T &dst=x; CALL; } if(ne(x,d)||ne(a,X<E,F>(in[0]))) BAD; }
D2(ref_add) D2(ref_mul) D2(ref_div)
D1(ref_inv,ref_inv(dst,src)) D1(ref_square,ref_square(dst,src)) D1(ref_convert,ref_convert(dst,src)) D1(ref_ldexp,(ref_ldexp_const<E,F,3>(dst,src))) D1(convert,convert(dst,src)) D1(fconvert,flopoco_convert(dst,src)) D1(promote,promote(dst,src))
template<int E,int F> void o_invf(const u128*in,Out&o){ typedef fp_flopoco<E,F> T; const T a=X<E,F>(in[0]); T p,q; ref_inv_faithful(p,q,a); put(o,p); put(o,q); T x=a,y; ref_inv_faithful(x,y,x); if(ne(x,p)||ne(y,q)) BAD; y=a; ref_inv_faithful(x,y,y); if(ne(x,p)||ne(y,q)) BAD; }
template<int E,int F> void o_fma(const u128*in,Out&o){ typedef fp_flopoco<E,F> T; const T a=X<E,F>(in[0]),b=X<E,F>(in[1]),c=X<E,F>(in[2]); T d; ref_fma(d,a,b,c); put(o,d); T x=a; ref_fma(x,x,b,c); if(ne(x,d)) BAD; x=b; ref_fma(x,a,x,c); if(ne(x,d)) BAD; x=c; ref_fma(x,a,b,x); if(ne(x,d)) BAD;
  const T a2=a,a3=a; ref_fma(d,a,a2,a3); put(o,d); x=a; ref_fma(x,x,x,x); if(ne(x,d)) BAD; ref_fma(x,a,a2,c); ref_fma(d,a,a,c); if(ne(x,d)) BAD; }
// synthesizable operators: one object as both operands, the result stored over an operand
template<int E,int F> void o_syn(const u128*in,Out&o){ typedef fp_flopoco<E,F> T; const T a=X<E,F>(in[0]),a2=a,b=X<E,F>(in[1]); T r,x;
#define ADD(p,q) (add<E,F>(p,q,o.debug))
#define MUL(p,q) (mul<E,F>(p,q,o.debug))
#define DIV(p,q) (div<E,F>(p,q,o.debug))
#define NEG(p) (neg<E,F>(p,o.debug))
#define S2(F2) r=F2(a,a2); put(o,r); x=F2(a,a); if(ne(x,r)) BAD; x=a; x=F2(x,x); if(ne(x,r)) BAD; r=F2(a,b); put(o,r); x=a; x=F2(x,b); if(ne(x,r)) BAD; x=b; x=F2(a,x); if(ne(x,r)) BAD;
  S2(ADD) S2(MUL) S2(DIV)
#define S1(F1) r=F1(a); put(o,r); x=a; x=F1(x); if(ne(x,r)) BAD;
  S1(NEG) S1(nextup) S1(nextdown)
  put(o,less_than(a,a2)); if(less_than(a,a).bits!=less_than(a,a2).bits||less_than_equal(a,a).bits!=less_than_equal(a,a2).bits||equal(a,a).bits!=equal(a,a2).bits||not_equal(a,a).bits!=not_equal(a,a2).bits||greater_than(a,a).bits!=greater_than(a,a2).bits||greater_than_equal(a,a).bits!=greater_than_equal(a,a2).bits) BAD;
  if(a.equals(a).bits!=a.equals(a2).bits||a.within_1ulp(a).bits!=a.within_1ulp(a2).bits) BAD; x=a; x=*&x; if(ne(x,a)) BAD; }
template<int W> void o_int(const u128*in,Out&o){ typedef fw_uint<W> T; const T a=U<W>(in[0]),a2=a,b=U<W>(in[1]); T r,x;
#define I2(OP) r=a OP a2; put(o,r); x=a OP a; if(x.bits!=r.bits) BAD; x=a; x=x OP x; if(x.bits!=r.bits) BAD; r=a OP b; put(o,r); x=a; x=x OP b; if(x.bits!=r.bits) BAD; x=b; x=a OP x; if(x.bits!=r.bits) BAD;
  I2(+) I2(-) I2(&) I2(|) I2(^)
  if((a==a).bits!=(a==a2).bits||(a<a).bits!=(a<a2).bits||(a<=a).bits!=(a<=a2).bits||(a!=a).bits!=(a!=a2).bits) BAD; put(o,(a==b)); x=select(a<b,a,b); r=a; r=select(r<b,r,b); if(x.bits!=r.bits) BAD; x=a; x=~x; r=~a; if(x.bits!=r.bits) BAD; put(o,x); }
const unsigned MF=F_MPFR;
#define AR2(N) R(Nm("alias.%s<%d,%d>",#N,E,F),Nm("f%d,%d f%d,%d",E,F,E,F),o_##N<E,F>,MF);
#define AR1(N,fl) R(Nm("alias.%s<%d,%d>",#N,E,F),Nm("f%d,%d",E,F),o_##N<E,F>,fl);
template<int E,int F> void rr(reg_fn R){ AR2(ref_add) AR2(ref_mul) AR2(ref_div) AR1(ref_inv,MF) AR1(ref_square,MF) AR1(ref_convert,MF) AR1(ref_ldexp,MF) AR1(convert,F_SYN) AR1(fconvert,F_SYN) AR1(promote,F_SYN) AR1(invf,MF)
  R(Nm("alias.ref_fma<%d,%d>",E,F),Nm("f%d,%d f%d,%d f%d,%d",E,F,E,F,E,F),o_fma<E,F>,MF); }
template<int E,int F> void rs(reg_fn R){ R(Nm("alias.syn<%d,%d>",E,F),Nm("f%d,%d f%d,%d",E,F,E,F),o_syn<E,F>,F_SYN); }
template<int W> void ri(reg_fn R){ R(Nm("alias.int<%d>",W),Nm("u%d u%d",W,W),o_int<W>,F_SYN); }
}
extern "C" void reg_alias(reg_fn R){ rr<4,3>(R); rr<8,23>(R); rr<11,52>(R); rs<5,10>(R); rs<8,23>(R); ri<1>(R); ri<8>(R); ri<23>(R); ri<64>(R); ri<65>(R); ri<128>(R); }
