// text forms: host-side formatting, streaming and parsing
#include "cat.h"
#include "thls/tops/fp_flopoco_primitives.hpp"
#include "thls/tops/bit_heap.hpp"
#include "thls/tops/row_heap.hpp"
namespace {
struct Txt { char b[256]; Txt(const u128*in){ unsigned n=(unsigned)in[0]; if(n>255) n=255; __builtin_memcpy(b,in+1,n); b[n]=0; } };
template<int W> void o_tostr(const u128*in,Out&o){ put(o,U<W>(in[0]).to_string()); }
template<int W> void o_parse(const u128*in,Out&o){ Txt t(in); fw_uint<W> x(t.b); put(o,x); }
template<int W> void o_round(const u128*in,Out&o){ std::string s=U<W>(in[0]).to_string(); put(o,s); fw_uint<W> x(s.c_str()); put(o,x); put(o,x.to_string()); }
template<int W> void o_print(const u128*in,Out&o){ auto x=U<W>(in[0]); *o.os<<x; put(o,x); }
template<int E,int F> void o_fstr(const u128*in,Out&o){ put(o,X<E,F>(in[0]).str()); }
template<int E,int F> void o_istr(const u128*in,Out&o){ put(o,I<E,F>(in[0]).str()); }
template<int E,int F> void o_fprint(const u128*in,Out&o){ auto x=X<E,F>(in[0]); *o.os<<x; put(o,x); }
template<int W,int V> void o_bhprint(const u128*in,Out&o){ auto h=merge_bit_heaps(fw_uint_to_bit_heap(U<W>(in[0])),fw_uint_to_bit_heap(U<V>(in[1]))); *o.os<<h; put(o,bit_heap_collapse(compress(h))); }
template<int W> void o_bhprint12(const u128*in,Out&o){ auto a=merge_bit_heaps(fw_uint_to_bit_heap(U<W>(in[0])),fw_uint_to_bit_heap(U<W>(in[1]))); auto b=merge_bit_heaps(a,a); auto c=merge_bit_heaps(b,merge_bit_heaps(b,a)); *o.os<<c; }
// a line of mixed output, as a user's report would hold
template<int E,int F> void o_line(const u128*in,Out&o){ auto x=X<E,F>(in[0]); auto u=U<E+F>(in[1]); *o.os<<x<<u<<X<E,F>(in[1])<<U<3>(in[0]); put(o,x); put(o,u); }
template<int W> void ru(reg_fn R){ R(Nm("to_string<%d>",W),Nm("u%d",W),o_tostr<W>,F_HOST); R(Nm("print_uint<%d>",W),Nm("u%d",W),o_print<W>,F_HOST|F_STREAM); }
template<int W> void rp(reg_fn R){ R(Nm("text_roundtrip<%d>",W),Nm("u%d",W),o_round<W>,F_HOST|F_PARSE); R(Nm("parse<%d>",W),Nm("b%d",W+W/8+12),o_parse<W>,F_HOST|F_PARSE|F_THROWS); }
template<int E,int F> void rf(reg_fn R){ const unsigned f=F_HOST|F_MPFR|F_NOENV; R(Nm("str<%d,%d>",E,F),Nm("f%d,%d",E,F),o_fstr<E,F>,f); R(Nm("print<%d,%d>",E,F),Nm("f%d,%d",E,F),o_fprint<E,F>,f|F_STREAM);
  R(Nm("print_line<%d,%d>",E,F),Nm("f%d,%d f%d,%d",E,F,E,F),o_line<E,F>,f|F_STREAM); }
template<int E,int F> void ri(reg_fn R){ R(Nm("ieee_str<%d,%d>",E,F),Nm("i%d,%d",E,F),o_istr<E,F>,F_HOST|F_NOENV); }
}
extern "C" void reg_text(reg_fn R){
  ru<1>(R); ru<8>(R); ru<9>(R); ru<32>(R); ru<33>(R); ru<64>(R); ru<65>(R); ru<128>(R);
  rp<1>(R); rp<7>(R); rp<8>(R); rp<17>(R); rp<32>(R); rp<33>(R); rp<48>(R); rp<64>(R);
  rf<4,3>(R); rf<5,10>(R); rf<8,23>(R); rf<11,52>(R); rf<8,16>(R);
  ri<4,3>(R); ri<5,10>(R); ri<8,23>(R);
  R("print_bit_heap<8,8>","u8 u8",o_bhprint<8,8>,F_HOST|F_MPFR|F_STREAM); R("print_bit_heap<20,33>","u20 u33",o_bhprint<20,33>,F_HOST|F_MPFR|F_STREAM); R("print_bit_heap10<12>","u12 u12",o_bhprint12<12>,F_HOST|F_MPFR|F_STREAM);
}
