#pragma once
#include <stdio.h>
#include <cmath>
#include <string>
#include <vector>
#include <ostream>
#include "api.h"
#include "thls/tops/fp_flopoco.hpp"
#include "thls/tops/fp_ieee.hpp"
namespace {
using namespace thls;
template<int W> inline fw_uint<W> U(u128 v){ return fw_uint<W>::from_bits((typename fw_uint<W>::bits_t)(v & (u128)fw_uint<W>::MASK())); }
template<> inline fw_uint<0> U<0>(u128){ return fw_uint<0>(); }
template<int E,int F> inline fp_flopoco<E,F> X(u128 v){ return fp_flopoco<E,F>(U<3+E+F>(v)); }
template<int E,int F> inline fp_ieee<E,F> I(u128 v){ return fp_ieee<E,F>(U<1+E+F>(v)); }
template<int W> inline void put(Out &o,const fw_uint<W> &x){ u128 v=x.bits; sim_put(&o,(uint64_t)(v>>64),(uint64_t)v); }
template<int E,int F> inline void put(Out &o,const fp_flopoco<E,F> &x){ put(o,x.bits); }
template<int E,int F> inline void put(Out &o,const fp_ieee<E,F> &x){ put(o,x.bits); }
inline void put(Out &o,bool b){ sim_put(&o,0,b); }
inline void put(Out &o,int b){ sim_put(&o,0,(uint64_t)(int64_t)b); }
inline void put(Out &o,uint64_t b){ sim_put(&o,0,b); }
inline void put(Out &o,double d){ uint64_t u; __builtin_memcpy(&u,&d,8); if(d!=d) u=0x7ff8000000000000ull; sim_put(&o,0,u); }
inline void put(Out &o,float d){ uint32_t u; __builtin_memcpy(&u,&d,4); if(d!=d) u=0x7fc00000u; sim_put(&o,0,u); }
inline void put(Out &o,const std::string &s){ sim_text(&o,s.data(),s.size()); }
struct Nm { char b[96]; template<class...A> Nm(const char*f,A...a){ snprintf(b,sizeof b,f,a...);} operator const char*() const{return b;} };
// operand wrappers of the harness itself must not leak when the library throws
struct Mp { mpfr_t v; explicit Mp(int p){ mpfr_init2(v,p);} ~Mp(){ mpfr_clear(v);} Mp(const Mp&)=delete; };
struct Mz { mpz_t v; Mz(){ mpz_init(v);} ~Mz(){ mpz_clear(v);} Mz(const Mz&)=delete; };
inline void put(Out &o,mpfr_ptr m){ // value of an MPFR number, bit by bit
  put(o,(int)mpfr_nan_p(m)); if(mpfr_nan_p(m)) return;
  put(o,(int)mpfr_inf_p(m)); put(o,(int)mpfr_signbit(m)); put(o,(int)mpfr_get_prec(m));
  if(mpfr_zero_p(m)||mpfr_inf_p(m)){ put(o,(int)mpfr_zero_p(m)); return; }
  Mz z; long e=mpfr_get_z_2exp(z.v,m); put(o,(uint64_t)e);
  size_t n=mpz_size(z.v); for(size_t i=0;i<n;i++) put(o,(uint64_t)mpz_getlimbn(z.v,i));
}
inline void put(Out &o,mpz_ptr z){ put(o,mpz_sgn(z)); size_t n=mpz_size(z); for(size_t i=0;i<n;i++) put(o,(uint64_t)mpz_getlimbn(z,i)); }
struct Gen { // 32-bit generator scripted by the simulator
  Script s; typedef uint32_t result_type;
  Gen(const u128*in){ s.kind=(uint64_t)in[0]; s.seed=(uint64_t)in[1]; s.throw_at=(uint64_t)in[2]; s.pos=0; s.last=0; s.thrown=0; }
  static constexpr uint32_t min(){return 0;} static constexpr uint32_t max(){return 0xFFFFFFFFu;}
  uint32_t operator()(){ return (uint32_t)sim_draw(&s); }
};
struct Gen64 {
  Script s; typedef uint64_t result_type;
  Gen64(const u128*in){ s.kind=(uint64_t)in[0]; s.seed=(uint64_t)in[1]; s.throw_at=(uint64_t)in[2]; s.pos=0; s.last=0; s.thrown=0; }
  static constexpr uint64_t min(){return 0;} static constexpr uint64_t max(){return ~0ull;}
  uint64_t operator()(){ uint64_t a=sim_draw(&s)&0xFFFFFFFFu; return a<<32|(a*0x9E3779B1u&0xFFFFFFFFu); }
};
struct Gen31 {
  Script s; typedef uint32_t result_type;
  Gen31(const u128*in){ s.kind=(uint64_t)in[0]; s.seed=(uint64_t)in[1]; s.throw_at=(uint64_t)in[2]; s.pos=0; s.last=0; s.thrown=0; }
  static constexpr uint32_t min(){return 1;} static constexpr uint32_t max(){return 2147483646u;}
  uint32_t operator()(){ uint32_t v=(uint32_t)sim_draw(&s); v&=0x7FFFFFFF; if(v<1)v=1; if(v>2147483646u)v=2147483646u; return v; }
};
}
