// C10: values that are not bytes and negative counts are refused.
#include "hx.h"
int vp_main(void) {
  int k = vp_choose(3, "what"); u32 v = sym32("v"); u8 b[4]; memcpy(b, &v, 4);
  s_s(" .org $1000\n .fill ");
  if (k == 0) { vp_assume(v > 255); s_s("$"); s_hexb(b, 4); s_s(", 2"); }
  else if (k == 1) { vp_assume(v - 1 < 0x7FFFFFFF); s_s("-$"); s_hexb(b, 4); s_s(", 2"); }
  else { vp_assume(v - 1 < 0x7FFFFFFF); s_s("1, -$"); s_hexb(b, 4); }
  s_s("\n .byte 1\n"); asm_run(); vp_check(rc != 0 && rc < 256, "refused"); vp_reach("end"); vp_end_path(); }
