// add_single_v3: compiled with -Dthls=thls_as3 because the four versions define the same names
#include "cat.h"
#include "thls/tops/fp_flopoco_add_single_v3.hpp"
namespace {
template<int ER,int FR,int EX,int FX,int EY,int FY> void o_as(const u128*in,Out&o){ put(o,(add_single<ER,FR>(X<EX,FX>(in[0]),X<EY,FY>(in[1]),o.debug))); }
template<int E,int F> void r(reg_fn R){ R(Nm("add_single_v3<%d,%d>",E,F),Nm("f%d,%d f%d,%d",E,F,E,F),o_as<E,F,E,F,E,F>,F_SYN|F_DEBUG); }
}
extern "C" void reg_as3(reg_fn R){ r<8,23>(R); r<6,14>(R); r<5,20>(R); r<11,18>(R); }
