// Synthesizable floating-point operators in one format. Included by several translation units.
#include "cat.h"
#include "thls/tops/fp_flopoco_primitives.hpp"
#include "thls/tops/fp_flopoco_add_single_v5.hpp"
#include "thls/tops/fp_flopoco_div_v2.hpp"
#include "thls/tops/fp_flopoco_fma.hpp"
#include "thls/tops/fp_flopoco_ordering.hpp"
#include "thls/tops/fp_convert.hpp"
#include "thls/tops/fp_promote.hpp"
namespace {
#define OP1(N,EXPR) template<int ER,int FR,int EX,int FX> void N(const u128*in,Out&o){ auto x=X<EX,FX>(in[0]); (void)x; put(o,EXPR); }
#define OP2(N,EXPR) template<int ER,int FR,int EX,int FX,int EY,int FY> void N(const u128*in,Out&o){ auto x=X<EX,FX>(in[0]); auto y=X<EY,FY>(in[1]); put(o,EXPR); }
#define OP2B(N,EXPR) template<int EX,int FX,int EY,int FY> void N(const u128*in,Out&o){ auto x=X<EX,FX>(in[0]); auto y=X<EY,FY>(in[1]); put(o,EXPR); }
#define OP1B(N,EXPR) template<int EX,int FX> void N(const u128*in,Out&o){ auto x=X<EX,FX>(in[0]); put(o,EXPR); }
OP2(o_add,(add<ER,FR>(x,y,o.debug)))
OP2(o_add_dual,(add_dual<ER,FR>(x,y,o.debug)))
OP2(o_add_fast,(add_fast<ER,FR>(x,y,o.debug)))
OP2(o_add_single,(add_single<ER,FR>(x,y,o.debug)))
OP2(o_add_single_v5,(add_single_v5<ER,FR>(x,y,o.debug)))
OP2(o_mul,(mul<ER,FR>(x,y,o.debug)))
OP2(o_div,(div<ER,FR>(x,y,o.debug)))
OP2(o_div_v2,(div_v2<ER,FR>(x,y,o.debug)))
OP1(o_inv,(inv<ER,FR>(x,o.debug)))
OP1(o_inv_faithful,(inv_faithful<ER,FR>(x,o.debug)))
OP1(o_inv_direct,(inv_direct<ER,FR>(x,o.debug)))
OP1(o_neg,(neg<ER,FR>(x,o.debug)))
OP1(o_square,(square<ER,FR,EX,FX,EX,FX>(x,o.debug)))
OP1(o_convert,(convert<ER,FR>(x,o.debug)))
template<int ER,int FR,int EX,int FX> void o_promote(const u128*in,Out&o){ fp_flopoco<ER,FR> r; promote(r,X<EX,FX>(in[0])); put(o,r); }
template<int ER,int FR,int EX,int FX> void o_promote_ieee(const u128*in,Out&o){ fp_ieee<ER,FR> r; promote(r,I<EX,FX>(in[0])); put(o,r); }
template<int ER,int FR,int EX,int FX> void o_promote_f2i(const u128*in,Out&o){ fp_ieee<ER,FR> r; promote(r,X<EX,FX>(in[0])); put(o,r); }
template<int E,int F> void o_i2f(const u128*in,Out&o){ fp_flopoco<E,F> r; convert(r,I<E,F>(in[0])); put(o,r); }
template<int E,int F> void o_f2i(const u128*in,Out&o){ fp_ieee<E,F> r; convert(r,X<E,F>(in[0])); put(o,r); }
template<int ER,int FR,int EX,int FX,int EY,int FY,int EZ,int FZ> void o_fma(const u128*in,Out&o){
  put(o,fma<ER,FR>(X<EX,FX>(in[0]),X<EY,FY>(in[1]),X<EZ,FZ>(in[2]),o.debug)); }
OP2B(o_eq,equal(x,y)) OP2B(o_ne,not_equal(x,y)) OP2B(o_lt,less_than(x,y)) OP2B(o_le,less_than_equal(x,y))
OP2B(o_gt,greater_than(x,y)) OP2B(o_ge,greater_than_equal(x,y))
template<int E,int F> void o_cmpall(const u128*in,Out&o){ auto x=X<E,F>(in[0]); auto y=X<E,F>(in[1]);
  put(o,x.equals(y)); put(o,x.within_1ulp(y)); put(o,y.within_1ulp(x)); put(o,x.get_equality_class()); put(o,x.is_zero()); put(o,x.is_normal()); put(o,x.is_inf()); put(o,x.is_nan());
  put(o,x.get_flags_exp_frac_bits()); put(o,x.is_pos_normal()|x.is_neg_normal()); }
OP1B(o_nextup,nextup(x)) OP1B(o_nextdown,nextdown(x))
template<int E,int F> void o_nextafter(const u128*in,Out&o){ int k=(int)in[1]; put(o,nextafter(X<E,F>(in[0]), k==0?INFINITY:k==1?-INFINITY:0.5)); }
template<int E,int F> void o_limits(const u128*in,Out&o){ typedef std::numeric_limits<fp_flopoco<E,F>> L; auto x=X<E,F>(in[0]);
  put(o,L::min()); put(o,L::max()); put(o,L::lowest()); put(o,L::infinity()); put(o,L::quiet_NaN()); put(o,L::pos_one()); put(o,L::neg_zero()); put(o,x.equals(L::neg_one())); }
template<int E,int F> void o_ieee(const u128*in,Out&o){ auto x=I<E,F>(in[0]); auto y=I<E,F>(in[1]); put(o,x.get_flags()); put(o,x.equals(y)); put(o,x.is_zero()); put(o,x.is_nan()); put(o,x.is_inf()); put(o,x.is_neg_normal());
  typedef std::numeric_limits<fp_ieee<E,F>> L; put(o,L::min()); put(o,L::max()); put(o,x.equals(L::quiet_NaN())); }
const unsigned SD=F_SYN|F_DEBUG;
#define R2(N,fn,ER,FR,EX,FX,EY,FY) R(Nm("%s<%d,%d|%d,%d|%d,%d>",N,ER,FR,EX,FX,EY,FY),Nm("f%d,%d f%d,%d",EX,FX,EY,FY),fn<ER,FR,EX,FX,EY,FY>,SD)
#define R1(N,fn,ER,FR,EX,FX) R(Nm("%s<%d,%d|%d,%d>",N,ER,FR,EX,FX),Nm("f%d,%d",EX,FX),fn<ER,FR,EX,FX>,SD)
#define RB(N,fn,EX,FX) R(Nm("%s<%d,%d>",N,EX,FX),Nm("f%d,%d f%d,%d",EX,FX,EX,FX),fn<EX,FX,EX,FX>,F_SYN)
#define RU(N,fn,EX,FX) R(Nm("%s<%d,%d>",N,EX,FX),Nm("f%d,%d",EX,FX),fn<EX,FX>,F_SYN)
// the operators every format supports
template<int E,int F> void reg_core(reg_fn R){
  R2("add",o_add,E,F,E,F,E,F); R2("add_dual",o_add_dual,E,F,E,F,E,F); R2("add_fast",o_add_fast,E,F,E,F,E,F);
  R2("add_single",o_add_single,E,F,E,F,E,F); R2("add_single_v5",o_add_single_v5,E,F,E,F,E,F);
  R2("mul",o_mul,E,F,E,F,E,F); R1("neg",o_neg,E,F,E,F); R1("square",o_square,E,F,E,F);
  RB("equal",o_eq,E,F); RB("not_equal",o_ne,E,F); RB("less_than",o_lt,E,F); RB("less_than_equal",o_le,E,F); RB("greater_than",o_gt,E,F); RB("greater_than_equal",o_ge,E,F);
  R(Nm("compare<%d,%d>",E,F),Nm("f%d,%d f%d,%d",E,F,E,F),o_cmpall<E,F>,F_SYN);
  RU("nextup",o_nextup,E,F); RU("nextdown",o_nextdown,E,F); RU("limits",o_limits,E,F);
  R(Nm("nextafter<%d,%d>",E,F),Nm("f%d,%d n0,2",E,F),o_nextafter<E,F>,F_THROWS|F_HOST);
  R(Nm("ieee<%d,%d>",E,F),Nm("i%d,%d i%d,%d",E,F,E,F),o_ieee<E,F>,F_SYN);
  R(Nm("ieee_to_flopoco<%d,%d>",E,F),Nm("i%d,%d",E,F),o_i2f<E,F>,F_SYN);
  R(Nm("flopoco_to_ieee<%d,%d>",E,F),Nm("f%d,%d",E,F),o_f2i<E,F>,F_SYN);
}
template<int E,int F> void reg_div(reg_fn R){
  R2("div",o_div,E,F,E,F,E,F); R2("div_v2",o_div_v2,E,F,E,F,E,F); R1("inv",o_inv,E,F,E,F);
}
}
