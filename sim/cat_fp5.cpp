// more mixed-format instances (all of them shapes the repository's own tests also instantiate)
#include "cat_fp.inc"
namespace {
template<int E,int F,int E2,int F2> void o_fpconv(const u128*in,Out&o){ fp_flopoco<E,F> r; flopoco_convert(r,X<E2,F2>(in[0])); put(o,r); fp_flopoco<E,F> q; convert(q,X<E2,F2>(in[0])); put(o,q); }
template<int E,int F,int E2,int F2> void conv(reg_fn R){ R(Nm("flopoco_convert<%d,%d|%d,%d>",E,F,E2,F2),Nm("f%d,%d",E2,F2),o_fpconv<E,F,E2,F2>,F_SYN); }
template<int ER,int FR,int EX,int FX,int EY,int FY> void mulm(reg_fn R){ R2("mul",o_mul,ER,FR,EX,FX,EY,FY); }
template<int ER,int FR,int EX,int FX,int EY,int FY> void adds(reg_fn R){ R2("add_single",o_add_single,ER,FR,EX,FX,EY,FY); }
template<int ER,int FR,int EX,int FX,int EY,int FY> void add5(reg_fn R){ R2("add_single_v5",o_add_single_v5,ER,FR,EX,FX,EY,FY); }
template<int E,int F,int E2,int F2> void invt(reg_fn R){ R1("inv_faithful",o_inv_faithful,E,F,E2,F2); }
template<int ER,int FR,int EX,int FX,int EY,int FY,int EZ,int FZ> void fmam(reg_fn R){
  R(Nm("flopoco_fma<%d,%d|%d,%d|%d,%d|%d,%d>",ER,FR,EX,FX,EY,FY,EZ,FZ),Nm("f%d,%d f%d,%d f%d,%d",EX,FX,EY,FY,EZ,FZ),o_fma<ER,FR,EX,FX,EY,FY,EZ,FZ>,SD); }
}
extern "C" void reg_fp5(reg_fn R){
  adds<10,16,8,16,10,16>(R); adds<10,16,10,16,8,16>(R); adds<12,40,8,40,12,40>(R); adds<8,16,8,10,8,16>(R); adds<8,16,8,16,8,10>(R); adds<8,27,8,26,8,27>(R); adds<8,30,8,30,8,20>(R);
  add5<8,15,8,15,8,14>(R); add5<8,18,8,15,8,18>(R); add5<8,17,8,17,8,16>(R); add5<8,27,8,26,8,27>(R); add5<8,30,8,30,8,20>(R);
  mulm<8,26,8,27,8,26>(R); mulm<8,20,8,26,8,30>(R); mulm<8,10,8,14,8,12>(R); mulm<8,30,8,20,8,26>(R);
  conv<9,23,8,22>(R); conv<9,23,8,25>(R); conv<7,23,8,22>(R); conv<7,23,8,25>(R); conv<8,23,8,25>(R); conv<8,23,8,22>(R);
  invt<8,23,8,18>(R); invt<8,20,8,23>(R); invt<8,27,8,20>(R); invt<8,8,8,8>(R); invt<8,12,8,12>(R); invt<8,16,8,16>(R); invt<8,28,8,28>(R); invt<8,34,8,34>(R); invt<11,40,11,40>(R); invt<11,52,11,52>(R);
  R1("inv_direct",o_inv_direct,8,16,8,16);
  fmam<8,23,8,23,8,25,8,23>(R); fmam<8,23,8,24,8,23,8,23>(R); fmam<8,23,8,23,8,23,8,26>(R);
}
