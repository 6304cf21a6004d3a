// mixed formats, conversions, reciprocal tables, fma
#include "cat_fp.inc"
namespace {
template<int E,int F> void invt(reg_fn R){ R1("inv_faithful",o_inv_faithful,E,F,E,F); }
template<int E,int F> void invd(reg_fn R){ R1("inv_direct",o_inv_direct,E,F,E,F); }
template<int E,int F,int E2,int F2> void conv(reg_fn R){ R1("convert",o_convert,E,F,E2,F2); }
template<int E,int F,int E2,int F2> void prom(reg_fn R){ R1("promote",o_promote,E,F,E2,F2); R(Nm("promote_ieee<%d,%d|%d,%d>",E,F,E2,F2),Nm("i%d,%d",E2,F2),o_promote_ieee<E,F,E2,F2>,F_SYN); R(Nm("promote_f2i<%d,%d|%d,%d>",E,F,E2,F2),Nm("f%d,%d",E2,F2),o_promote_f2i<E,F,E2,F2>,F_SYN); }
template<int E,int F> void fma3(reg_fn R){ R(Nm("fma<%d,%d>",E,F),Nm("f%d,%d f%d,%d f%d,%d",E,F,E,F,E,F),o_fma<E,F,E,F,E,F,E,F>,SD); }
template<int ER,int FR,int EX,int FX,int EY,int FY> void hmul(reg_fn R){ R2("mul",o_mul,ER,FR,EX,FX,EY,FY); }
template<int ER,int FR,int EX,int FX,int EY,int FY> void hadd(reg_fn R){ R2("add",o_add,ER,FR,EX,FX,EY,FY); R2("add_single",o_add_single,ER,FR,EX,FX,EY,FY); }
}
extern "C" void reg_fp4(reg_fn R){
  invt<8,10>(R); invt<8,23>(R); invt<6,13>(R);
  invd<5,6>(R); invd<4,4>(R); invd<8,10>(R);
  conv<5,10,8,23>(R); conv<8,23,5,10>(R); conv<8,23,11,52>(R); conv<11,52,8,23>(R); conv<4,3,5,2>(R); conv<6,9,6,12>(R); conv<6,12,6,9>(R); conv<11,40,8,52>(R); conv<8,32,8,31>(R);
  prom<9,30,8,23>(R); prom<11,52,8,23>(R); prom<6,10,5,10>(R); prom<12,40,4,3>(R);
  fma3<4,3>(R); fma3<5,10>(R); fma3<8,23>(R);
  hmul<8,23,8,23,8,10>(R); hmul<8,10,8,23,8,23>(R); hmul<9,30,8,23,8,23>(R);
  hadd<8,23,8,10,8,23>(R); hadd<8,23,8,23,8,10>(R);
}
