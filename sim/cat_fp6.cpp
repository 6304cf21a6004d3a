// comparisons across formats, whole-format predicates, promotions from IEEE, integer operands, more mixed shapes
#include "cat_fp.inc"
namespace {
template<int EX,int FX,int EY,int FY> void cmpm(reg_fn R){
#define C(N,fn) R(Nm("%s<%d,%d|%d,%d>",N,EX,FX,EY,FY),Nm("f%d,%d f%d,%d",EX,FX,EY,FY),fn<EX,FX,EY,FY>,F_SYN)
  C("equal",o_eq); C("not_equal",o_ne); C("less_than",o_lt); C("less_than_equal",o_le); C("greater_than",o_gt); C("greater_than_equal",o_ge); }
template<int E,int F> void o_i2fp(const u128*in,Out&o){ fp_flopoco<E,F> r; promote(r,I<E,F>(in[0])); put(o,r); }
template<int E,int F> void o_same(const u128*in,Out&o){ fp_flopoco<E,F> r; promote(r,X<E,F>(in[0])); put(o,r); fp_ieee<E,F> i; promote(i,I<E,F>(in[0])); put(o,i); fp_flopoco<E,F> a(r),b; b=a; put(o,b); }
template<int E,int F> void o_pred(const u128*in,Out&o){ auto x=X<E,F>(in[0]); put(o,x.get_flags()); put(o,x.get_sign()); put(o,x.get_exp_bits()); put(o,x.get_frac_bits()); put(o,x.is_positive()); put(o,x.is_negative()); put(o,x.is_pos_normal()); put(o,x.is_neg_normal()); put(o,x.is_pos_zero()); put(o,x.is_neg_zero()); put(o,x.is_pos_inf()); put(o,x.is_neg_inf()); }
template<int E,int F> void o_ipred(const u128*in,Out&o){ auto x=I<E,F>(in[0]); put(o,x.get_flags()); put(o,x.get_sign()); put(o,x.get_exp_bits()); put(o,x.get_frac_bits()); put(o,x.is_positive()); put(o,x.is_negative()); put(o,x.is_normal()); put(o,x.is_pos_normal()); put(o,x.is_neg_normal()); put(o,x.is_pos_zero()); put(o,x.is_neg_zero()); put(o,x.is_pos_inf()); put(o,x.is_neg_inf()); }
template<int E,int F> void o_lims(const u128*in,Out&o){ typedef std::numeric_limits<fp_flopoco<E,F>> L; typedef std::numeric_limits<fp_ieee<E,F>> M; (void)in;
  put(o,L::min()); put(o,L::neg_min()); put(o,L::max()); put(o,L::neg_max()); put(o,L::lowest()); put(o,L::infinity()); put(o,L::neg_infinity()); put(o,L::quiet_NaN()); put(o,L::signalling_NaN()); put(o,L::denorm_min()); put(o,L::pos_zero()); put(o,L::neg_zero()); put(o,L::pos_one()); put(o,L::neg_one()); put(o,L::one());
  put(o,M::min()); put(o,M::neg_min()); put(o,M::max()); put(o,M::neg_max()); put(o,M::lowest()); put(o,M::infinity()); put(o,M::neg_infinity()); put(o,M::quiet_NaN()); put(o,M::signalling_NaN()); put(o,M::denorm_min()); put(o,M::pos_zero()); put(o,M::neg_zero()); put(o,M::pos_one()); put(o,M::neg_one()); put(o,M::one()); put(o,M::zero()); }
template<int E,int F> void pred(reg_fn R){ RU("fields",o_pred,E,F); R(Nm("ieee_fields<%d,%d>",E,F),Nm("i%d,%d",E,F),o_ipred<E,F>,F_SYN); R(Nm("promote_i2f<%d,%d>",E,F),Nm("i%d,%d",E,F),o_i2fp<E,F>,F_SYN); RU("promote_same",o_same,E,F); RU("all_limits",o_lims,E,F); }
template<int W> void o_ints(const u128*in,Out&o){ auto a=U<W>(in[0]); int k=(int)in[1]; const int top=W>=31?0x7ffffffe:(int)(((u128)1<<(W<31?W:1))-2); k%=(top+1); auto b=U<W>(in[2]);
  put(o,a&k); if(W>1) put(o,a|(k%top)); put(o,a^k); put(o,a<k); put(o,a<=k); put(o,a>=k); put(o,a==k); put(o,a!=k); put(o,a>k); put(o,a+k); if(W<31) put(o,(int)a.to_int()); if(W<=64) put(o,a.to_uint64()); if(W<=32) put(o,(uint64_t)a.to_uint32());
  put(o,(int)(a==b).to_bool()); put(o,select((in[1]&1)!=0,a,b)); put(o,select((in[1]&1)!=0,a,(in[1]&2)!=0,b,a)); }
template<int A,int B,int C,int D> void o_cat4(const u128*in,Out&o){ auto a=U<A>(in[0]); auto b=U<B>(in[1]); auto c=U<C>(in[2]); auto d=U<D>(in[3]); put(o,concat(a)); put(o,concat(a,b,c)); put(o,concat(a,b,c,d)); put(o,concat(d,c,b,a)); }
template<int W> void ints(reg_fn R){ R(Nm("uint_int<%d>",W),Nm("u%d u31 u%d",W,W),o_ints<W>,F_SYN); }
template<int A,int B,int C,int D> void cat4(reg_fn R){ R(Nm("uint_concat4<%d,%d,%d,%d>",A,B,C,D),Nm("u%d u%d u%d u%d",A,B,C,D),o_cat4<A,B,C,D>,F_SYN); }
template<int ER,int FR,int EX,int FX> void sqm(reg_fn R){ R1("square",o_square,ER,FR,EX,FX); }
template<int E,int F,int E2,int F2> void conv(reg_fn R){ R1("convert",o_convert,E,F,E2,F2); }
template<int ER,int FR,int EX,int FX,int EY,int FY> void divm(reg_fn R){ R2("div",o_div,ER,FR,EX,FX,EY,FY); R2("div_v2",o_div_v2,ER,FR,EX,FX,EY,FY); }
}
extern "C" void reg_fp6(reg_fn R){
  cmpm<4,3,5,10>(R); cmpm<8,23,5,10>(R); cmpm<8,10,8,23>(R); cmpm<8,23,11,52>(R); cmpm<6,9,6,12>(R);
  pred<4,3>(R); pred<5,10>(R); pred<8,23>(R); pred<11,52>(R); pred<6,40>(R);
  ints<1>(R); ints<2>(R); ints<5>(R); ints<16>(R); ints<31>(R); ints<32>(R); ints<33>(R); ints<48>(R); ints<64>(R); ints<65>(R); ints<96>(R); ints<128>(R);
  cat4<1,2,3,4>(R); cat4<8,8,8,8>(R); cat4<16,1,32,15>(R); cat4<20,13,40,55>(R); cat4<2,1,8,23>(R); cat4<2,1,11,52>(R);
  sqm<8,23,8,10>(R); sqm<8,10,8,23>(R); sqm<8,26,8,24>(R);
  conv<5,10,6,20>(R); conv<6,20,5,10>(R); conv<11,20,8,30>(R); conv<8,4,8,3>(R); conv<7,16,6,16>(R); conv<4,8,8,8>(R);
  divm<8,23,8,23,8,20>(R);
}
