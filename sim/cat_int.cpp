// fixed-width integers
#include "cat.h"
namespace {
template<int W> void o_arith(const u128*in,Out&o){ auto a=U<W>(in[0]),b=U<W>(in[1]); int k=(int)in[2];
  put(o,a+b); put(o,a-b); put(o,a&b); put(o,a|b); put(o,a^b); put(o,~a); put(o,a+1); put(o,a-1); put(o,a>>(k%W)); put(o,a<<(k%W));
  put(o,a+(k&(W<7?1:63))); }
template<int W> void o_cmp(const u128*in,Out&o){ auto a=U<W>(in[0]),b=U<W>(in[1]); int k=(int)in[2]&1;
  put(o,a<b); put(o,a<=b); put(o,a==b); put(o,a!=b); put(o,a>=b); put(o,a>b); put(o,a<k); put(o,a==k); put(o,a!=k); put(o,a>=k); put(o,a<=k); }
template<int W,int V> void o_mul(const u128*in,Out&o){ auto a=U<W>(in[0]); auto b=U<V>(in[1]); put(o,a*b); put(o,full_mul(b,a)); }
template<int W> void o_sq(const u128*in,Out&o){ put(o,square(U<W>(in[0]))); }
template<int W> void o_bits(const u128*in,Out&o){ auto a=U<W>(in[0]); put(o,(get_bits<W-1,W/2>(a))); put(o,(get_bits<W/2,W/4>(a))); put(o,(get_bit<W-1>(a))); put(o,(get_bit<0>(a)));
  put(o,take_lsb(a)); put(o,take_msb(a)); put(o,(take_lsbs<W/2>(a))); put(o,(drop_lsbs<W/2>(a))); put(o,(take_msbs<(W+1)/2>(a))); put(o,(drop_msbs<W/2>(a))); }
template<int W,int V> void o_cat(const u128*in,Out&o){ auto a=U<W>(in[0]); auto b=U<V>(in[1]); put(o,concat(a,b)); put(o,concat(b,a)); put(o,zpad_hi<V>(a)); put(o,zpad_lo<V>(a)); put(o,opad_hi<V>(a)); put(o,opad_lo<V>(a)); put(o,(extu<W+V>(a))); put(o,(resize<W/2+1>(a))); put(o,(resize<W+V>(a))); }
template<int W> void o_sel(const u128*in,Out&o){ auto a=U<W>(in[0]),b=U<W>(in[1]); auto c=U<1>(in[2]); auto d=U<1>(in[2]>>1);
  put(o,select(c,a,b)); put(o,select(c,a,d,b,a)); put(o,select(d,zg<W>(),c,b,d,a,og<W>())); put(o,copybit<W>(c)); put(o,zg<W>()); put(o,og<W>()); }
template<int W> void o_cin(const u128*in,Out&o){ auto a=U<W>(in[0]),b=U<W>(in[1]); auto c=U<1>(in[2]); put(o,add_with_cin(a,b,c)); put(o,add_sub(c,a,b)); put(o,add_cin(a,c)); }
template<int W> void o_mpz(const u128*in,Out&o){ auto a=U<W>(in[0]); Mz z; a.to_mpz_t(z.v); fw_uint<W> b(z.v); put(o,b); put(o,z.v); }
template<int W> void o_mpz_in(const u128*in,Out&o){ Mz z; mpz_set_ui(z.v,(uint64_t)in[0]); mpz_mul_2exp(z.v,z.v,(unsigned)in[1]); put(o,fw_uint<W>(z.v)); }
template<int W> void o_dbl(const u128*in,Out&o){ put(o,to_double_approx(U<W>(in[0]))); }
template<int W> void o_misc(const u128*in,Out&o){ auto a=U<W>(in[0]); fw_uint<W> b(a),c; c=a; put(o,b); put(o,c); put(o,fw_uint<W>()); put(o,cg<W>(1)); fw_uint<W> arr[1]={a}; put(o,(concat_array<0,0>(arr))); put(o,(checked_cast<W>(a))); if(W<=32) put(o,(uint64_t)(W<=30?a.to_int():0)); if(W<=64) put(o,a.to_uint64()); }
template<int W,int K> void o_carr(const u128*in,Out&o){ fw_uint<W> a[K]; for(int i=0;i<K;i++) a[i]=U<W>(in[0]>>(i*7)); put(o,(concat_array<K-1,0>(a))); put(o,(concat_array<K-1,1>(a))); }
template<int W> void r0(reg_fn R){
  R(Nm("uint_arith<%d>",W),Nm("u%d u%d n0,127",W,W),o_arith<W>,F_SYN); R(Nm("uint_cmp<%d>",W),Nm("u%d u%d n0,1",W,W),o_cmp<W>,F_SYN);
  R(Nm("uint_sel<%d>",W),Nm("u%d u%d n0,3",W,W),o_sel<W>,F_SYN); R(Nm("uint_misc<%d>",W),Nm("u%d",W),o_misc<W>,F_SYN);
  R(Nm("uint_mpz<%d>",W),Nm("u%d",W),o_mpz<W>,F_MPFR); R(Nm("uint_from_mpz<%d>",W),Nm("u64 n0,80"),o_mpz_in<W>,F_MPFR|F_THROWS);
}
template<int W> void rb(reg_fn R){ R(Nm("uint_bits<%d>",W),Nm("u%d",W),o_bits<W>,F_SYN); R(Nm("uint_cin<%d>",W),Nm("u%d u%d n0,1",W,W),o_cin<W>,F_SYN); }
template<int W,int V> void r2(reg_fn R){ R(Nm("uint_mul<%d,%d>",W,V),Nm("u%d u%d",W,V),o_mul<W,V>,F_SYN); R(Nm("uint_concat<%d,%d>",W,V),Nm("u%d u%d",W,V),o_cat<W,V>,F_SYN); }
template<int W> void rd(reg_fn R){ R(Nm("uint_double<%d>",W),Nm("u%d",W),o_dbl<W>,F_NOENV|F_MPFR); }
}
extern "C" void reg_int(reg_fn R){
  r0<1>(R); r0<2>(R); r0<7>(R); r0<8>(R); r0<16>(R); r0<31>(R); r0<32>(R); r0<33>(R); r0<48>(R); r0<63>(R); r0<64>(R); r0<65>(R); r0<100>(R); r0<127>(R); r0<128>(R);
  rb<4>(R); rb<8>(R); rb<16>(R); rb<31>(R); rb<32>(R); rb<33>(R); rb<64>(R); rb<65>(R); rb<100>(R); rb<127>(R);
  r2<1,1>(R); r2<3,5>(R); r2<16,16>(R); r2<20,12>(R); r2<16,17>(R); r2<32,32>(R); r2<24,40>(R); r2<33,32>(R); r2<53,53>(R); r2<64,64>(R); r2<100,28>(R);
  R("uint_square<8>","u8",o_sq<8>,F_SYN); R("uint_square<24>","u24",o_sq<24>,F_SYN); R("uint_square<64>","u64",o_sq<64>,F_SYN);
  rd<8>(R); rd<40>(R); rd<52>(R); rd<64>(R); rd<100>(R);
  R("concat_array<4,8>","u64",o_carr<4,8>,F_SYN); R("concat_array<9,5>","u64",o_carr<9,5>,F_SYN);
}
