// C10: fill emits exactly count copies of the value.
#include "hx.h"
int vp_main(void) {
  int where = vp_choose(4, "where"), how = vp_choose(TIER ? 5 : 4, "count"), fmt = vp_choose(2, "format"); u8 v = sym8("value"), b = sym8("before"); u16 n = sym16("count"); long at = 0;
  if (how == 4) { static const u16 N[] = { 255, 256, 257, 300, 511, 513 }; n = N[vp_choose(6, "size")]; } else vp_assume(n <= (TIER ? 64 : 20));
  u8 nb[2] = { (u8)n, (u8)(n >> 8) };
  if (fmt) opt("-c64"); at = fmt ? 2 : 0;
  s_s(" .org $1000\n");
  if (where >= 1) { s_s("start: .byte $"); s_hexb(&b, 1); s_s("\n"); }
  if (where == 3) { s_s(" .fill $A5, 3\n"); }
  if (how == 1) { s_s("cnt = $"); s_hexb(nb, 2); s_s("\n"); }
  s_s(" .fill $"); s_hexb(&v, 1); s_s(", ");
  if (how == 0 || how == 4) { s_s("$"); s_hexb(nb, 2); } else if (how == 1 || how == 2) s_s("cnt"); else { s_s("* + $"); s_hexb(nb, 2); s_s(" - *"); }
  s_s("\nbehind:\n");
  if (where == 2) { s_s(" lda #$"); s_hexb(&b, 1); s_s("\n"); }
  s_s(" .word behind, *\n");
  if (how == 2) { s_s("cnt = $"); s_hexb(nb, 2); s_s("\n"); }
  asm_run(); OK_RUN("fill");
  int pre = (where >= 1) + (where == 3 ? 3 : 0), post = where == 2 ? 2 : 0;
  vp_check(outn == at + pre + n + post + 4, "exactly count bytes"); if (outn != at + pre + n + post + 4) vp_end_path();
  if (where >= 1) vp_check(out[at] == b, "the byte before");
  if (where == 3) vp_check(out[at + 1] == 0xA5 && out[at + 2] == 0xA5 && out[at + 3] == 0xA5, "the fill before");
  int ok = 1; for (int i = 0; i < (int)n; i++) ok &= out[at + pre + i] == v; vp_check(ok, "copies of the value");
  if (post) vp_check(out[at + pre + n] == 0xA9 && out[at + pre + n + 1] == b, "the instruction behind");
  u16 a = 0x1000 + pre + n, w = a + post + 2; const u8* e = out + at + pre + n + post;
  vp_check(e[0] == (u8)a && e[1] == a >> 8, "the label behind"); vp_check(e[2] == (u8)w && e[3] == w >> 8, "the address behind");
  vp_reach("end"); vp_end_path(); }
