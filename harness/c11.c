// C11: labels equal the address of the byte they precede, whatever statements precede them.
#include "stmts.h"
int vp_main(void) {
  int a = vp_choose(NSTMT, "first");
  stmt_files(); s_s(" .org $1000\n");
#ifdef PAIRS
  int b = vp_choose(NSTMT, "second");
  stmt(a, 0); s_s("mid:\n"); stmt(b, 1);
#ifdef TRIPLES
  int c = vp_choose(NSTMT, "third"); if ((a * 7 + b * 11 + c * 3) % 10 != 0) vp_end_path();
  stmt(c, 2);
#endif
#else
  s_s("mid: nop\n"); stmt(a, 0);
#endif
  s_s("last: .word last, *, mid\n"); s_n(tail_, tn);
  asm_run(); OK_RUN("program");
  vp_check(outn >= 6, "the marker is emitted"); if (outn < 6) vp_end_path();
  u16 at = (u16)(0x1000 + outn - 6);
  vp_check(out[outn - 6] == (u8)at && out[outn - 5] == at >> 8, "the label equals origin plus bytes emitted before it");
  vp_check((out[outn - 4] | out[outn - 3] << 8) == (u16)(at + 2), "the address counter equals origin plus bytes emitted before it");
  u16 mid = out[outn - 2] | out[outn - 1] << 8; vp_check(mid >= 0x1000 && mid <= at, "an inner label lies inside the program");
#ifndef PAIRS
  vp_check(mid == 0x1000 && out[0] == 0xEA, "first label");
#endif
  vp_reach("end"); vp_end_path(); }
