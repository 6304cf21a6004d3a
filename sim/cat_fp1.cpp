#include "cat_fp.inc"
extern "C" void reg_fp1(reg_fn R){
  reg_core<4,3>(R); reg_div<4,3>(R); reg_core<5,10>(R); reg_div<5,10>(R); reg_core<8,23>(R); reg_div<8,23>(R);
}
