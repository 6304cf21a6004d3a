// random values and random test sources driven by a scripted generator
#include <random>
#include "cat.h"
#include "thls/tops/function_utils.hpp"
#include <new>
namespace {
// Oracles here do not rely on the run being repeated: an exception the generator threw must have reached us, a value being
// randomised must have kept its old value, and what a source yields must be what a new source yields from the same generator values.
template<int W,class G> void o_rand(const u128*in,Out&o){ G g(in);
  for(int i=0;i<3;i++){ G k(g); uint64_t t0=g.s.thrown; bool caught=false,kc=false; fw_uint<W> x,y;
    try { x=random_fw_uint<W>(g); } catch(SimThrow&){ caught=true; }
    if(caught!=(g.s.thrown!=t0)) sim_flag(&o,1);
    uint64_t k0=k.s.thrown; try { y=random_fw_uint<W>(k); } catch(SimThrow&){ kc=true; }
    if(kc!=(k.s.thrown!=k0)) sim_flag(&o,1);
    if(caught!=kc||g.s.pos!=k.s.pos) sim_flag(&o,2); if(!caught&&!kc&&x.bits!=y.bits) sim_flag(&o,2);
    put(o,(int)caught); if(!caught) put(o,x); put(o,(uint64_t)g.s.pos); } }
template<int W> void o_randomise(const u128*in,Out&o){
  Gen g(in); auto x=U<W>(in[3]);
  for(int i=0;i<3;i++){ auto old=x; uint64_t t0=g.s.thrown; bool caught=false; Gen k(g);
    try { randomise(x,g); } catch(SimThrow&){ caught=true; put(o,(int)7); }
    if(caught!=(g.s.thrown!=t0)) sim_flag(&o,1); if(caught&&x.bits!=old.bits) sim_flag(&o,3);
    fw_uint<W> z; bool kc=false; try { randomise(z,k); } catch(SimThrow&){ kc=true; } if(kc!=caught||(!kc&&z.bits!=x.bits)) sim_flag(&o,2);
    put(o,x); } put(o,(uint64_t)g.s.pos); }
struct Std { std::mt19937 r; Std(uint32_t s):r(s){} };
template<int W> void o_mt(const u128*in,Out&o){ std::mt19937 r((uint32_t)in[0]); for(int i=0;i<3;i++) put(o,random_fw_uint<W>(r)); }
template<int E,int F> void cfg(fp_flopoco_random_test_source<E,F> &s,unsigned mask){ typedef fp_flopoco_random_test_source<E,F> S; for(int c=0;c<7;c++) if(mask>>c&1) s.disable_class((typename S::Class)c); }
template<int E,int F,class G> void one(fp_flopoco_random_test_source<E,F> &s,G &g,Out &o,unsigned mask,int n){
  for(int i=0;i<n;i++){ G k(g); uint64_t t0=g.s.thrown; bool caught=false; fp_flopoco<E,F> x;
    try { x=s(g); } catch(SimThrow&){ caught=true; }
    if(caught!=(g.s.thrown!=t0)) sim_flag(&o,1);
    fp_flopoco_random_test_source<E,F> q; cfg(q,mask); fp_flopoco<E,F> y; bool kc=false; try { y=q(k); } catch(SimThrow&){ kc=true; }
    if(kc!=caught||g.s.pos!=k.s.pos) sim_flag(&o,2);
    if(!caught&&!kc&&x.bits.bits!=y.bits.bits) sim_flag(&o,2);
    if(!caught){ put(o,x); unsigned fl=(unsigned)x.get_flags().to_uint64(), sg=(unsigned)x.get_sign().to_uint64(); unsigned c=fl==3?6:(fl<<1|sg);
      if(c>6||(mask>>c&1)) sim_flag(&o,4); } else sim_put(&o,0,0x7777);
    sim_put(&o,0,g.s.pos);
  } }
// a source of its own: configuration mask, number of draws
template<int E,int F,class G> void o_src(const u128*in,Out&o){ fp_flopoco_random_test_source<E,F> s; unsigned m=(unsigned)in[3]; if((m&127)==127) m=0; cfg(s,m); G g(in); one(s,g,o,m,(int)in[4]); }
// a long-lived source kept in a slot across calls: the slot's history must not show
template<int E,int F> void o_slot(const u128*in,Out&o){
  typedef fp_flopoco_random_test_source<E,F> S; unsigned m=(unsigned)in[3]; if((m&127)==127) m=0; int fresh=0;
  S *s=(S*)sim_slot(&o,(int)in[5],sizeof(S),(uint64_t)E<<40|(uint64_t)F<<32|m,&fresh); if(fresh){ new(s) S(); cfg(*s,m); }
  Gen g(in); one(*s,g,o,m,(int)in[4]); }
// copies of a source are independent of it
template<int E,int F> void o_copy(const u128*in,Out&o){ fp_flopoco_random_test_source<E,F> s; unsigned m=(unsigned)in[3]; if((m&127)==127) m=0; cfg(s,m&15); fp_flopoco_random_test_source<E,F> t(s); cfg(t,m); Gen g(in); one(t,g,o,m,(int)in[4]); Gen h(in); one(s,h,o,m&15,(int)in[4]); }
// reconfigured between draws, classes disabled one by one in either order, then assigned to another source that has been used
template<int E,int F> void o_reconf(const u128*in,Out&o){ typedef fp_flopoco_random_test_source<E,F> S; unsigned a=(unsigned)in[3]&(unsigned)in[5],b=(unsigned)in[3]; if((b&127)==127) a=b=0; S s; cfg(s,a); Gen g(in); one(s,g,o,a,2);
  for(int c=6;c>=0;c--) if(b>>c&1){ s.disable_class((typename S::Class)c); one(s,g,o,a|(b>>c<<c),1); } one(s,g,o,b,(int)in[4]); S t; one(t,g,o,0,1); t=s; one(t,g,o,b,(int)in[4]); }
uint64_t f3(uint64_t a,uint64_t b,uint64_t c){ return a*3+b*5+c*7; }
void o_calln(const u128*in,Out&o){ std::array<uint64_t,3> a={{(uint64_t)in[0],(uint64_t)in[1],(uint64_t)in[2]}}; put(o,(uint64_t)callN(f3,a)); }
const unsigned RF=F_RNG;
template<int W> void rw(reg_fn R){ R(Nm("random_uint<%d>",W),"g",o_rand<W,Gen>,RF); R(Nm("random_uint64<%d>",W),"g",o_rand<W,Gen64>,RF); R(Nm("randomise<%d>",W),Nm("g u%d",W),o_randomise<W>,RF); R(Nm("random_mt<%d>",W),"u32",o_mt<W>,F_NOENV); }
template<int E,int F> void rs(reg_fn R){
  R(Nm("test_source<%d,%d>",E,F),"g n0,126 n1,6",o_src<E,F,Gen>,RF|F_NOENV); R(Nm("test_source64<%d,%d>",E,F),"g n0,126 n1,6",o_src<E,F,Gen64>,RF|F_NOENV); R(Nm("test_source31<%d,%d>",E,F),"g n0,126 n1,6",o_src<E,F,Gen31>,RF|F_NOENV);
  R(Nm("test_source_kept<%d,%d>",E,F),"g n0,126 n1,6 n0,3",o_slot<E,F>,RF|F_NOENV|F_SLOT); R(Nm("test_source_copy<%d,%d>",E,F),"g n0,126 n1,4",o_copy<E,F>,RF|F_NOENV); R(Nm("test_source_reconf<%d,%d>",E,F),"g n0,126 n1,3 n0,127",o_reconf<E,F>,RF|F_NOENV); }
}
extern "C" void reg_rng(reg_fn R){
  rw<1>(R); rw<8>(R); rw<31>(R); rw<32>(R); rw<33>(R); rw<64>(R); rw<65>(R); rw<96>(R); rw<128>(R);
  rs<4,3>(R); rs<8,23>(R); rs<11,52>(R); rs<6,40>(R);
  R("callN<3>","u64 u64 u64",o_calln,F_SYN);
}
