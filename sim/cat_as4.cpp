// add_single_v4: compiled with -Dthls=thls_as4 because the four versions define the same names
#include "cat.h"
#include "thls/tops/fp_flopoco_add_single_v4.hpp"
namespace {
template<int ER,int FR,int EX,int FX,int EY,int FY> void o_as(const u128*in,Out&o){ put(o,(add_single<ER,FR>(X<EX,FX>(in[0]),X<EY,FY>(in[1]),o.debug))); }
template<int E,int F> void r(reg_fn R){ R(Nm("add_single_v4<%d,%d>",E,F),Nm("f%d,%d f%d,%d",E,F,E,F),o_as<E,F,E,F,E,F>,F_SYN|F_DEBUG); }
}
extern "C" void reg_as4(reg_fn R){ r<4,3>(R); r<5,10>(R); r<8,23>(R); r<6,9>(R); r<11,52>(R); r<4,32>(R); }
