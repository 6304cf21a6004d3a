#include "cat.h"
#include "thls/tops/fp_flopoco_dot2_pos_rndd.hpp"
#include "thls/tops/fp_flopoco_div_v2.hpp"
#include "thls/tops/function_utils.hpp"
namespace {
template<int E,int F> void o_dot2(const u128*in,Out&o){ put(o,o.debug?(dot2_pos_rndd<E,F,1>(X<E,F>(in[0]),X<E,F>(in[1]),X<E,F>(in[2]),X<E,F>(in[3]))):(dot2_pos_rndd<E,F,0>(X<E,F>(in[0]),X<E,F>(in[1]),X<E,F>(in[2]),X<E,F>(in[3])))); }
template<int E,int F> void o_dot2r(const u128*in,Out&o){ put(o,(dot2_pos_rndd_ref<E,F>(X<E,F>(in[0]),X<E,F>(in[1]),X<E,F>(in[2]),X<E,F>(in[3])))); }
template<int E,int F> void r(reg_fn R){
  R(Nm("dot2<%d,%d>",E,F),Nm("p%d,%d p%d,%d p%d,%d p%d,%d",E,F,E,F,E,F,E,F),o_dot2<E,F>,F_SYN|F_DEBUG);
  R(Nm("dot2_ref<%d,%d>",E,F),Nm("p%d,%d p%d,%d p%d,%d p%d,%d",E,F,E,F,E,F,E,F),o_dot2r<E,F>,F_MPFR|F_THROWS|((F+1)*4<52?F_NOENV:0));
}
// the same division instances as in cat_fp1/2: which translation unit's copy is linked must not matter
template<int E,int F> void o_div2(const u128*in,Out&o){ put(o,(div_v2<E,F>(X<E,F>(in[0]),X<E,F>(in[1]),o.debug))); }
template<int E,int F> void d(reg_fn R){ R(Nm("div_v2b<%d,%d>",E,F),Nm("f%d,%d f%d,%d",E,F,E,F),o_div2<E,F>,F_SYN|F_DEBUG); }
}
extern "C" void reg_dot(reg_fn R){ r<4,3>(R); r<8,23>(R); r<5,10>(R); r<6,9>(R); d<4,3>(R); d<8,23>(R); d<11,52>(R); }
