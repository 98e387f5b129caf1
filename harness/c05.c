// C05: operators are 32-bit two's-complement arithmetic (~ within the operand's width: one byte when it fits one, else two).
#include "expr.h"
int vp_main(void) {
  u32 a = sym32("a"), b = 0; int how = vp_choose(3, "operands"), q; u32 want; static char ex[64]; int st;
  // the expression text
#ifdef UNARY
  q = vp_choose(5, "op"); want = unop(q, a);
#else
  q = vp_choose(18, "op"); b = sym32("b"); if (q == 7 || q == 8) vp_assume(b < 32);
#ifdef DIV0
  if (q != 3) vp_end_path(); vp_assume(b == 0);
#else
  if (q == 3) { vp_assume(b != 0); if (how == 2) vp_assume(b < 0x100); }
  want = binop(q, a, b);
#endif
#endif
  s_s(" .org $1000\n");
  if (how == 1) { s_s(" .var p = "); num(a); s_s(", q = "); num(b); s_s("\n"); }
  st = sn;
#ifdef UNARY
  s_s(UN[q]); if (how == 1) s_s(q == 0 ? "(p)" : "p"); else { if (how == 2) s_s("("); num(a); if (how == 2) s_s(")"); }
#else
  if (how == 1) s_s("p"); else { if (how == 2) s_s("("); num(a); if (how == 2) s_s(")"); }
  s_s(" "); s_s(BIN[q]); s_s(" ");
  if (how == 1) s_s("q"); else { if (how == 2) s_s("(0 + "); num(b); if (how == 2) s_s(")"); }
#endif
  int len = sn - st; memcpy(ex, src + st, len); sn = st;
  s_s(" .word ("); s_n(ex, len); s_s(") & $FFFF\n .word (("); s_n(ex, len); s_s(") >> 16) & $FFFF\n");
  asm_run();
#ifdef DIV0
  vp_check(rc != 0 && rc < 256, "division by zero is reported as an error");
#else
  OK_RUN("expression"); vp_check(outn == 4, "two words"); if (outn != 4) vp_end_path();
  vp_check((u32)(out[0] | out[1] << 8) == (want & 0xFFFF), "low half of the operator's value"); vp_check((u32)(out[2] | out[3] << 8) == want >> 16, "high half of the operator's value");
#endif
  vp_reach("end"); vp_end_path(); }
