// formats whose fractions exceed one machine word in the product or 32 bits in the operand, and mixtures of them
#include "cat_fp.inc"
namespace {
template<int E,int F,int E2,int F2> void prom(reg_fn R){ R1("promote",o_promote,E,F,E2,F2); R(Nm("promote_ieee<%d,%d|%d,%d>",E,F,E2,F2),Nm("i%d,%d",E2,F2),o_promote_ieee<E,F,E2,F2>,F_SYN); }
template<int E,int F,int E2,int F2> void promi(reg_fn R){ R(Nm("promote_f2i<%d,%d|%d,%d>",E,F,E2,F2),Nm("f%d,%d",E2,F2),o_promote_f2i<E,F,E2,F2>,F_SYN); }
template<int EX,int FX,int EY,int FY> void cmpm(reg_fn R){
#define C(N,fn) R(Nm("%s<%d,%d|%d,%d>",N,EX,FX,EY,FY),Nm("f%d,%d f%d,%d",EX,FX,EY,FY),fn<EX,FX,EY,FY>,F_SYN)
  C("equal",o_eq); C("less_than",o_lt); C("greater_than_equal",o_ge); }
template<int E,int F,int E2,int F2> void conv(reg_fn R){ R1("convert",o_convert,E,F,E2,F2); }
template<int ER,int FR,int EX,int FX,int EY,int FY> void arith(reg_fn R){ R2("add_dual",o_add_dual,ER,FR,EX,FX,EY,FY); R2("mul",o_mul,ER,FR,EX,FX,EY,FY); R2("add_single",o_add_single,ER,FR,EX,FX,EY,FY); }
template<int E,int F> void fma3(reg_fn R){ R(Nm("fma<%d,%d>",E,F),Nm("f%d,%d f%d,%d f%d,%d",E,F,E,F,E,F),o_fma<E,F,E,F,E,F,E,F>,SD); }
}
extern "C" void reg_fp7(reg_fn R){
  prom<11,52,11,40>(R); prom<12,60,11,52>(R); prom<9,40,8,36>(R); prom<8,50,8,33>(R);
  promi<12,60,11,52>(R); promi<9,40,8,36>(R);
  cmpm<11,40,11,52>(R); cmpm<8,36,9,36>(R); cmpm<9,44,9,34>(R);
  conv<11,52,11,40>(R); conv<11,40,11,52>(R); conv<9,44,11,44>(R); conv<11,60,11,34>(R);
  arith<11,40,11,40,11,40>(R); arith<9,36,9,36,9,36>(R); arith<8,33,8,33,8,33>(R);
  fma3<7,16>(R); fma3<8,28>(R); fma3<6,12>(R);
  R2("div",o_div,9,36,9,36,9,36); R2("div_v2",o_div_v2,9,36,9,36,9,36); R1("square",o_square,11,50,11,50); R1("neg",o_neg,11,60,11,60);
}
