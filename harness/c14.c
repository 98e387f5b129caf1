// C14: the program format is the plain format behind the two bytes of the origin.
#include "stmts.h"
int vp_main(void) {
  int org, how, a, b; u16 v;
#ifdef PAIRS
  { int q = vp_choose(TIER ? 800 : 80, "pair"); org = vp_choose(4, "origin"); how = 1 + (TIER ? vp_choose(4, "format") : (q + org) % 4); v = q / 3 % 2 ? 0x0801 : 0x1EF0; q = q * (TIER ? 2 : 20) + (how + org) % (TIER ? 2 : 20); a = q / NSTMT; b = q % NSTMT; }
#else
  a = vp_choose(NSTMT, "first"); b = -1; org = vp_choose(4, "origin"); how = 1 + (TIER || org == 0 ? vp_choose(4, "format") : (a + org) % 4); v = sym16("at"); vp_assume((v >= 0x0200) & (v < (a == 39 ? 0x1F00 : 0xE000)));
#endif
  stmt_files();
  if (org == 2) { v = 0x1000; }
  // the two programs differ in the line .c64 only
  if (org == 0) { s_s(" .org "); h16(v); s_s("\n"); } if (org == 1) { s_s("* = "); h16(v); s_s("\n"); } if (org == 3) { s_s(" .org where + 1\n"); t_s("where = $"); u16 w = v - 1; t_hex(w); t_s("\n"); }
  int p1 = sn; stmt(a, 0); s_s("mid:\n"); int p2 = sn; if (b >= 0) stmt(b, 1); s_s("last: .word last, *, mid\n"); s_n(tail_, tn);
  asm_run(); OK_RUN("plain format"); static u8 plain[1024]; long pn = outn; memcpy(plain, out, pn); vp_check(pn > 5, "plain output"); if (pn < 6) vp_end_path();
  if (how == 1) opt("-c64");
  else { int at = how == 2 ? 0 : how == 3 ? p2 : sn; memmove(src + at + 5, src + at, sn - at); memcpy(src + at, ".c64\n", 5); sn += 5; }
  asm_run(); OK_RUN("program format");
  vp_check(outn == pn + 2, "two bytes more than the plain format"); if (outn != pn + 2) vp_end_path();
  vp_check((out[0] == (u8)v) & (out[1] == v >> 8), "the load address is the origin");
  int same = 1; for (int i = 0; i < pn; i++) same &= out[2 + i] == plain[i]; vp_check(same, "the bytes of the plain format follow");
  vp_reach("end"); vp_end_path(); }
