#include "cat_fp.inc"
extern "C" void reg_fp2(reg_fn R){
  reg_core<11,52>(R); reg_div<11,52>(R); reg_core<4,32>(R); reg_div<4,32>(R); reg_core<6,9>(R); reg_div<6,9>(R);
}
