// bit heaps, row heaps, tables, LUT-optimised generators
#include "cat.h"
#include "thls/tops/bit_heap.hpp"
#include "thls/tops/bit_heap_mul.hpp"
#include "thls/tops/row_heap.hpp"
#include "thls/tops/lut_opt.hpp"
namespace {
template<int A,int B,int C> void o_bh(const u128*in,Out&o){
  auto h=merge_bit_heaps(merge_bit_heaps(fw_uint_to_bit_heap(U<A>(in[0])),fw_uint_to_bit_heap(U<B>(in[1]))),fw_uint_to_bit_heap(U<C>(in[2])));
  put(o,bit_heap_collapse(compress(h))); }
template<int W,int K> void o_bh4(const u128*in,Out&o){
  auto a=merge_bit_heaps(fw_uint_to_bit_heap(U<W>(in[0])),fw_uint_to_bit_heap(U<W>(in[1])));
  auto b=merge_bit_heaps(fw_uint_to_bit_heap(U<W>(in[2])),fw_uint_to_bit_heap(U<W>(in[3])));
  auto h=pad_bit_heap<W+K>(merge_bit_heaps(a,b)); put(o,bit_heap_collapse(compress(h))); }
template<int W> void o_bhz(const u128*in,Out&o){ auto h=merge_bit_heaps(fw_uint_to_bit_heap(U<W>(in[0])),fw_uint_to_bit_heap(U<W>(in[1]))); Mz z; bit_heap_to_mpz(z.v,h); put(o,z.v); }
template<int S,int A,int B> void o_bhm(const u128*in,Out&o){ put(o,bit_heap_collapse(compress(bit_heap_mul<S>(U<A>(in[0]),U<B>(in[1]))))); }
template<int W> void o_rh(const u128*in,Out&o){
  auto h=fw_uint_to_row_heap(U<W>(in[0]))+fw_uint_to_row_heap(U<W>(in[1]))+U<W>(in[2])+fw_uint_to_row_heap(U<W>(in[3])); put(o,collapse(compress(h))); }
template<int W,int V> void o_rh7(const u128*in,Out&o){
  auto a=fw_uint_to_row_heap(U<W>(in[0]))+fw_uint_to_row_heap(U<V>(in[1]))+U<W>(in[2]); auto b=a+fw_uint_to_row_heap(U<V>(in[3])); put(o,collapse(compress(a+b))); }
template<int W,int D> void o_rhd(const u128*in,Out&o){ row_heap_holder<W,D> h; for(int i=0;i<D;i++){ u128 v=in[i&3]; int k=(i>>2)*5; v=(v>>k)^(v*(u128)(2*(i>>2)+1)); h.rows[i]=U<W>(v); } put(o,collapse(compress(h))); }
template<int W,int D> void o_rhdz(const u128*in,Out&o){ row_heap_holder<W,D> h; for(int i=0;i<D;i++) h.rows[i]=U<W>((i&1)&&(in[2]>>i&1)?in[1]:in[0]); Mz z; row_heap_to_mpz(z.v,h); put(o,z.v); }
template<int W,int N> struct tall { static auto go(const fw_uint<W> &a,const fw_uint<W> &b) -> decltype(merge_bit_heaps(tall<W,N-1>::go(a,b),fw_uint_to_bit_heap(a))) { return merge_bit_heaps(tall<W,N-1>::go(a,b),fw_uint_to_bit_heap((N&1)?a:b)); } };
template<int W> struct tall<W,1> { static auto go(const fw_uint<W> &a,const fw_uint<W> &) -> decltype(fw_uint_to_bit_heap(a)) { return fw_uint_to_bit_heap(a); } };
template<int W,int N> void o_bht(const u128*in,Out&o){ auto h=tall<W,N>::go(U<W>(in[0]),U<W>(in[1])); put(o,bit_heap_collapse(compress(h))); }
template<int W,int N> void o_bhtz(const u128*in,Out&o){ auto h=tall<W,N>::go(U<W>(in[0]),U<W>(in[1])); Mz z; bit_heap_to_mpz(z.v,h); put(o,z.v); }
template<int W> void o_rhz(const u128*in,Out&o){ auto h=fw_uint_to_row_heap(U<W>(in[0]))+U<W>(in[1]); Mz z; row_heap_to_mpz(z.v,h); put(o,z.v); }
struct Tab { u128 k; unsigned w; int operator()(int i) const { uint64_t x=(uint64_t)k*(2*i+1)+(uint64_t)(k>>64)*i; return (int)((x>>7)&((1u<<w)-1)); } };
template<int D,int A> void o_lut(const u128*in,Out&o){ Tab t={in[0],D}; lut<D,A> l(t); put(o,l(U<A>(in[1]))); put(o,l(U<A>(in[2]))); }
// constant objects made once at start-up and only read afterwards, by every thread: results keep their value while held by reference
struct K1 { int operator()(int i) const { return (int)((uint32_t)(i*2654435761u)>>12); } }; struct K2 { int operator()(int i) const { return (i*37+11)&127; } };
typedef decltype(merge_bit_heaps(merge_bit_heaps(fw_uint_to_bit_heap(fw_uint<8>()),fw_uint_to_bit_heap(fw_uint<11>())),fw_uint_to_bit_heap(fw_uint<8>()))) KB;
struct Kept { lut<20,8> a; lut<7,5> b; fw_uint<24> u[4]; fw_uint<100> w[4]; KB h; row_heap_holder<24,5> r; Kept():a(K1()),b(K2()),h(merge_bit_heaps(merge_bit_heaps(fw_uint_to_bit_heap(U<8>(0xA7)),fw_uint_to_bit_heap(U<11>(0x5F3))),fw_uint_to_bit_heap(U<8>(0xD9)))){ for(int i=0;i<4;i++){ u[i]=U<24>(0x9E3779B1u*(2*i+1)); w[i]=U<100>(((u128)0xC2B2AE3D27D4EB4Full*(i+3))<<31^(u128)i*12345); }
  for(int i=0;i<5;i++) r.rows[i]=U<24>(0x85EBCA6Bu*(i+1)); } };
alignas(64) char kept_mem[sizeof(Kept)]; const Kept *kept;
void o_lutk(const u128*in,Out&o){ const lut<20,8> &t=kept->a; const lut<7,5> &q=kept->b; const fw_uint<20> &x=t(U<8>(in[0])); const fw_uint<7> &y=q(U<5>(in[1])); fw_uint<20> x0=x; fw_uint<7> y0=y; const fw_uint<20> &z=t(U<8>(in[2])); const fw_uint<7> &v=q(U<5>(in[3])); put(o,x); put(o,z); put(o,x+z); put(o,y); put(o,v); put(o,concat(y,v)); if(x.bits!=x0.bits||y.bits!=y0.bits) sim_flag(&o,8); }
void o_uk(const u128*in,Out&o){ const fw_uint<24> &a=kept->u[(int)in[0]&3],&b=kept->u[(int)in[1]&3]; const fw_uint<100> &c=kept->w[(int)in[2]&3],&d=kept->w[(int)in[0]>>1&3]; put(o,a+b); put(o,a*b); put(o,full_mul(a,b)); put(o,a<b); put(o,get_bits<20,3>(a)); put(o,c+d); put(o,c==d); put(o,c>>7); put(o,take_msbs<60>(c)); put(o,a.to_uint64()); put(o,concat(a,b)); put(o,select(a<b,a,b)); put(o,a); put(o,c); }
void o_hk(const u128*in,Out&o){ put(o,bit_heap_collapse(compress(kept->h))); put(o,collapse(compress(kept->r))); put(o,bit_heap_collapse(compress(merge_bit_heaps(kept->h,fw_uint_to_bit_heap(U<8>(in[0])))))); put(o,collapse(compress(kept->r+U<24>(in[1])))); }
void o_hkz(const u128*in,Out&o){ Mz z; bit_heap_to_mpz(z.v,kept->h); put(o,z.v); row_heap_to_mpz(z.v,kept->r); put(o,z.v); kept->w[(int)in[0]&3].to_mpz_t(z.v); put(o,z.v); }
void o_kt(const u128*in,Out&o){ put(o,kept->u[(int)in[0]&3].to_string()); put(o,kept->w[(int)in[0]&3].to_string()); }
template<int N,int T,uint32_t S> void o_lo(const u128*in,Out&o){ auto s=U<N>(in[0]); for(int i=0;i<(int)in[1];i++) s=lut_opt_spec<N,T,S>::step(s); put(o,s); }
template<int A,int B,int C> void rbh(reg_fn R){ R(Nm("bit_heap<%d,%d,%d>",A,B,C),Nm("u%d u%d u%d",A,B,C),o_bh<A,B,C>,F_SYN); }
template<int W,int K> void rbh4(reg_fn R){ R(Nm("bit_heap4<%d,%d>",W,K),Nm("u%d u%d u%d u%d",W,W,W,W),o_bh4<W,K>,F_SYN); R(Nm("bit_heap_mpz<%d>",W),Nm("u%d u%d",W,W),o_bhz<W>,F_MPFR); }
template<int S,int A,int B> void rbhm(reg_fn R,unsigned f){ R(Nm("bit_heap_mul<%d,%d,%d>",S,A,B),Nm("u%d u%d",A,B),o_bhm<S,A,B>,f); }
template<int W> void rrh(reg_fn R){ R(Nm("row_heap<%d>",W),Nm("u%d u%d u%d u%d",W,W,W,W),o_rh<W>,F_SYN); R(Nm("row_heap_mpz<%d>",W),Nm("u%d u%d",W,W),o_rhz<W>,F_MPFR); }
template<int W,int D> void rrd(reg_fn R){ R(Nm("row_heap_deep<%d,%d>",W,D),Nm("u%d u%d u%d u%d",W,W,W,W),o_rhd<W,D>,F_SYN); R(Nm("row_heap_deep_mpz<%d,%d>",W,D),Nm("u%d u%d u%d",W,W,D),o_rhdz<W,D>,F_MPFR); }
template<int W,int N> void rbt(reg_fn R){ R(Nm("bit_heap_tall<%d,%d>",W,N),Nm("u%d u%d",W,W),o_bht<W,N>,F_SYN); R(Nm("bit_heap_tall_mpz<%d,%d>",W,N),Nm("u%d u%d",W,W),o_bhtz<W,N>,F_MPFR); }
template<int D,int A> void rl(reg_fn R){ R(Nm("lut<%d,%d>",D,A),Nm("u128 u%d u%d",A,A),o_lut<D,A>,F_SYN); }
template<int N,int T,uint32_t S> void rlo(reg_fn R){ R(Nm("lut_opt<%d,%d,%u>",N,T,S),Nm("u%d n1,6",N),o_lo<N,T,S>,F_SYN); }
}
extern "C" void reg_heap(reg_fn R){
  kept=new(kept_mem) Kept(); R("kept_lut","u8 u5 u8 u5",o_lutk,F_SYN); R("kept_uint","n0,7 n0,3 n0,3",o_uk,F_SYN); R("kept_heaps","u8 u24",o_hk,F_SYN); R("kept_heaps_mpz","n0,3",o_hkz,F_MPFR); R("kept_text","n0,3",o_kt,F_HOST);
  rbh<8,8,8>(R); rbh<5,9,7>(R); rbh<16,12,20>(R); rbh<33,30,31>(R); rbh4<8,2>(R); rbh4<16,3>(R); rbh4<32,2>(R);
  rbhm<4,4,4>(R,F_SYN); rbhm<8,6,7>(R,F_SYN);
  rbhm<4,8,4>(R,F_MPFR|F_HOST|F_PRINTS); rbhm<4,8,8>(R,F_MPFR|F_HOST|F_PRINTS); rbhm<3,8,7>(R,F_MPFR|F_HOST|F_PRINTS);
  rrh<1>(R); rrh<8>(R); rrh<24>(R); rrh<32>(R); rrh<53>(R); rrh<100>(R); R("row_heap7<20,16>","u20 u16 u20 u16",o_rh7<20,16>,F_SYN); R("row_heap7<64,40>","u64 u40 u64 u40",o_rh7<64,40>,F_SYN);
  rrd<20,8>(R); rrd<32,9>(R); rrd<32,12>(R); rrd<64,17>(R); rrd<100,10>(R); rrd<11,31>(R); rbt<8,7>(R); rbt<12,9>(R); rbt<6,13>(R);
  rl<8,4>(R); rl<3,6>(R); rl<20,8>(R); rl<30,3>(R);
  rlo<16,3,1>(R); rlo<32,4,7>(R); rlo<48,3,99>(R);
}
