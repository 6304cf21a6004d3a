#include "cat_fp.inc"
extern "C" void reg_fp3(reg_fn R){
  reg_core<4,2>(R); reg_div<4,2>(R); reg_core<8,24>(R); reg_div<8,24>(R); reg_core<7,16>(R); reg_div<7,16>(R); reg_core<12,40>(R); reg_div<12,40>(R); reg_core<9,15>(R);
}
