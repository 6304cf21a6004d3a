// separate from cat_dot.cpp: the two dot-product headers share an include guard. Compiled with -Dthls=thls_dot4
#include "cat.h"
#include "thls/tops/fp_flopoco_dot4_pos_rndd.hpp"
namespace {
template<int E,int F> void o_dot4(const u128*in,Out&o){ put(o,o.debug?(dot4_pos_rndd<E,F,1>(X<E,F>(in[0]),X<E,F>(in[1]),X<E,F>(in[2]),X<E,F>(in[3]),X<E,F>(in[4]),X<E,F>(in[5]),X<E,F>(in[6]),X<E,F>(in[7]))):(dot4_pos_rndd<E,F,0>(X<E,F>(in[0]),X<E,F>(in[1]),X<E,F>(in[2]),X<E,F>(in[3]),X<E,F>(in[4]),X<E,F>(in[5]),X<E,F>(in[6]),X<E,F>(in[7])))); }
template<int E,int F> void o_dot4r(const u128*in,Out&o){ put(o,(dot4_pos_rndd_ref<E,F>(X<E,F>(in[0]),X<E,F>(in[1]),X<E,F>(in[2]),X<E,F>(in[3]),X<E,F>(in[4]),X<E,F>(in[5]),X<E,F>(in[6]),X<E,F>(in[7])))); }
template<int E,int F> void r(reg_fn R){
  R(Nm("dot4<%d,%d>",E,F),Nm("p%d,%d p%d,%d p%d,%d p%d,%d p%d,%d p%d,%d p%d,%d p%d,%d",E,F,E,F,E,F,E,F,E,F,E,F,E,F,E,F),o_dot4<E,F>,F_SYN|F_DEBUG);
  R(Nm("dot4_ref<%d,%d>",E,F),Nm("p%d,%d p%d,%d p%d,%d p%d,%d p%d,%d p%d,%d p%d,%d p%d,%d",E,F,E,F,E,F,E,F,E,F,E,F,E,F,E,F),o_dot4r<E,F>,F_MPFR|F_THROWS|((F+1)*8<52?F_NOENV:0));
}
}
extern "C" void reg_dot4(reg_fn R){ r<4,3>(R); r<5,10>(R); r<6,9>(R); r<8,12>(R); }
