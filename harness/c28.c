// C28: reporting options do not change object code and exit status.
#include "stmts.h"
static const char* const BAD[] = { " lda undefd\n", " .byte 300\n", " bne $9000,x\n", " lda (1\n", "dup: nop\ndup: nop\n", " .ds -1\n nop\n", " .org $3000\n", " .inc \"nofile\"\n", ".if 1\n nop\n", "fa = fb + 1\nfb = fa + 1\n .word fa\n", " sta #1\n", " .load \"nofile\"\n" };
static const char* const OPT[] = { "-v", "-s", "-l", "-log", "-nowarn" }; static const char* const ARG[] = { 0, "a.sym", "a.lst", "a.log", 0 };
int vp_main(void) {
#ifdef DEBUGD // the directives that trace the assembler
#ifdef PRINTV
  static const char* const D[] = { " .print first\n", " .printall last, first + 1\n", " ? \"text\", last - *\n", " .PRINT\n", " ?? *\n", " .PrintAll \"a\", first\n" };
#else
  static const char* const D[] = { ".debug_token on\n", ".debug_bison on\n", " .debug_addlist on\n", ".DEBUG_TOKEN OFF\n", ".debug_bison off\n", " .debug_addlist off\n" };
#endif
  int a = vp_choose(NSTMT, "first"), j = TIER ? vp_choose(10, "second") : 0, b = (a * 7 + j * 17 + 5) % NSTMT, d = vp_choose(3, "directive"), e = vp_choose(2, "inside"), how = (a + d) & 1, o = how ? 4 : 0; const char* TR[3]; for (int i = 0; i < 3; i++) TR[i] = i == 0 ? D[d] : i == 1 ? D[e ? d + 3 : (d + 1) % 3] : D[(d + 2) % 3];
#elif defined(PAIRS)
  int a = vp_choose(NSTMT, "first"), j = vp_choose(TIER ? 20 : 6, "pair"), b = TIER ? (a + j * 2 + 1) % NSTMT : (a * 7 + j * 17 + 5) % NSTMT, how = TIER ? vp_choose(3, "reports") : (a + j) % 3; int o = how == 0 ? 31 : how == 1 ? 5 : 26;
#else
  int a = vp_choose(NSTMT, "first"), b = vp_choose(TIER ? 13 : 3, "error"), how = vp_choose(8, "reports"); if (!TIER && b) b = 1 + (a + b * 5 + how) % 12; int o = how < 5 ? 1 << how : how == 5 ? 31 : how == 6 ? 14 : 17;
#endif
  int pr = 1 + (a + how + b) % 3; static int at[8]; int na = 0; static int len[8];
  stmt_files();
  s_s(" .org $2000\n");
#define MARK(t) do { at[na] = sn; s_s(t); len[na++] = strlen(t); } while (0)
#ifdef DEBUGD
  s_s("first: nop\n"); MARK(TR[0]); stmt(a, 0); MARK(TR[1]); stmt(b, 1); MARK(TR[2]);
#else
  if (pr & 1) MARK(" .print off\n"); stmt(a, 0); if (pr & 2) MARK(" .print on\n");
#ifdef PAIRS
  stmt(b, 1); MARK(" .print off\n");
#else
  if (b) s_s(BAD[b - 1]); MARK(" .print off\n");
#endif
#endif
  s_s("last: nop\n"); s_n(tail_, tn);
#ifndef DEBUGD
  MARK(" .print on\n");
#endif
  (void)pr;
  for (int i = 0; i < 5; i++) if (o >> i & 1) { opt(OPT[i]); if (ARG[i]) opt(ARG[i]); }
  asm_run(); int rc1 = rc; static u8 o1[4096]; long n1 = outn; if (n1 > 4096) { vp_check(0, "size bound"); vp_end_path(); } if (n1 > 0) memcpy(o1, out, n1);
  for (int i = na; i-- > 0;) { memmove(src + at[i], src + at[i] + len[i], sn - at[i] - len[i]); sn -= len[i]; }
  hx_nopts = 0; asm_run();
  vp_check(rc == rc1, "the exit status does not depend on reporting"); if (rc != rc1) vp_end_path();
  if (rc == 0) { vp_check(outn == n1, "the size of the object file does not depend on reporting"); if (outn != n1) vp_end_path(); int bad = 0; for (long i = 0; i < n1; i++) bad |= out[i] ^ o1[i]; vp_check(bad == 0, "the object file does not depend on reporting"); vp_reach("end"); } else vp_reach("refused");
  vp_end_path(); }
