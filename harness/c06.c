// C06: unparenthesised expressions group by precedence level, left to right within one level; prefix operators take everything to
// their right; parentheses override.
#include "expr.h"
static void emit2(const char* e, int n) { s_s(" .word ("); s_n(e, n); s_s(") & $FFFF, (("); s_n(e, n); s_s(") >> 16) & $FFFF\n"); }
static void cmp2(int k, u32 want, const char* m1) { vp_check((u32)(out[4 * k] | out[4 * k + 1] << 8) == (want & 0xFFFF), m1); vp_check((u32)(out[4 * k + 2] | out[4 * k + 3] << 8) == want >> 16, m1); }
static u32 bop(int q, u32 a, u32 b) { dom(q, b); return binop(q, a, b); }
static char ex[160]; static int en, small, nosp;
static void e_s(const char* s) { while (*s) ex[en++] = *s++; }
static void e_v(u32 v) { u8 b[4]; memcpy(b, &v, 4); e_s("$"); for (int i = 4; i-- > 0;) { ex[en++] = hx_up[b[i] >> 4]; ex[en++] = hx_up[b[i] & 15]; } }
static void e_o(int o) { if (nosp) { e_s(BIN[o]); return; } e_s(" "); e_s(BIN[o]); e_s(" "); }
// operators that would run together with the prefix operator behind them
static int together(int o, int u) { char c = BIN[o][0], d = UN[u][0]; return BIN[o][1] == 0 && (((c == '+') | (c == '-')) & (d == '-') | (c == '<') & ((d == '<') | (d == '>')) | (c == '>') & (d == '>')); }
static void muldiv(int o) { small += o == 2 || o == 3; }
static u32 operand(const char* n) { if (!small) return sym32(n); u8 v = sym8(n); if (small > 1) v &= 31; return v; }
// the left-to-right, precedence-respecting value of v[0] o[0] v[1] o[1] ...
static u32 value(u32* v, int* o, int m) { while (m) { int best = 0; for (int i = 1; i < m; i++) if (LEVEL[o[i]] > LEVEL[o[best]]) best = i;
    v[best] = bop(o[best], v[best], v[best + 1]); for (int i = best + 1; i < m; i++) v[i] = v[i + 1]; for (int i = best; i < m - 1; i++) o[i] = o[i + 1]; m--; } return v[0]; }
int vp_main(void) {
  u32 want[2]; int n = 1;
  s_s(" .org $1000\n");
#ifdef UNARY
  int u = vp_choose(NUN, "unary"), k = vp_choose(TIER ? NBIN : 9, "op"), pos = vp_choose(3, "pos"), o = TIER ? k : k * 2 + (u + pos & 1), o2 = (o + 7) % NBIN; muldiv(o); if (pos == 2) muldiv(o2);
  nosp = vp_choose(2, "no spaces"); if (nosp && pos && together(o, u)) vp_end_path();
  u32 a = operand("a"), b = operand("b"), c = operand("c");
#define W(x) (u == 0 ? (e_s("("), e_v(x), e_s(")")) : e_v(x))
  if (pos == 0) { e_s(UN[u]); W(a); e_o(o); e_v(b); want[0] = u ? unop(u, bop(o, a, b)) : bop(o, unop(u, a), b); }
  else if (pos == 1) { e_v(a); e_o(o); e_s(UN[u]); W(b); want[0] = bop(o, a, unop(u, b)); }
  else { e_v(a); e_o(o); e_s(UN[u]); W(b); e_o(o2); e_v(c);
    if (u) want[0] = bop(o, a, unop(u, bop(o2, b, c))); else { u32 v[3] = { a, unop(u, b), c }; int oo[2] = { o, o2 }; want[0] = value(v, oo, 2); } }
  emit2(ex, en);
#elif defined(STAR)
  // one of the operands is the address counter
  int o1 = vp_choose(NBIN, "op1"), o2 = vp_choose(TIER ? NBIN : 2, "op2"), at = vp_choose(3, "star"); if (!TIER) o2 = o2 ? 13 : (o1 * 5 + at) % NBIN; nosp = vp_choose(2, "no spaces");
  if (nosp & ((at == 1 & o1 == 3) | (at == 2 & o2 == 3))) vp_end_path(); /* opens a comment */ if ((at == 0 & (o1 == 2 | o1 == 3)) | (at == 2 & (o2 == 2 | o2 == 3))) small = 1;
  muldiv(o1); muldiv(o2); u16 org = sym16("origin"); vp_assume(org < 0xFF00); u32 v[3] = { operand("a"), operand("b"), operand("c") }; v[at] = org; int o[2] = { o1, o2 };
  if (small) { vp_assume((org < 256) & (org > 0)); } s_reset(); s_s(" .org $"); u8 ob[2] = { (u8)org, (u8)(org >> 8) }; s_hexb(ob, 2); s_s("\n .var v\nv = ");
  for (int i = 0; i < 3; i++) { if (i == at) e_s("*"); else e_v(v[i]); if (i < 2) e_o(o[i]); }
  s_n(ex, en); s_s("\n"); en = 0; e_s("v"); emit2(ex, en); want[0] = value(v, o, 2);
#elif defined(FOUR)
  static const int R[] = { 7, 8, 4, 16, 9, 13, 6, 5, 0, 1, 2, 3 };
  int o1 = R[vp_choose(12, "op1")], o2 = R[vp_choose(12, "op2")], o3 = R[vp_choose(12, "op3")]; muldiv(o1); muldiv(o2); muldiv(o3); nosp = o1 + o2 + o3 & 1;
  u32 v[4] = { operand("a"), operand("b"), operand("c"), operand("d") }; int o[3] = { o1, o2, o3 };
  e_v(v[0]); e_o(o1); e_v(v[1]); e_o(o2); e_v(v[2]); e_o(o3); e_v(v[3]);
  want[0] = value(v, o, 3); emit2(ex, en);
#else
  int o1 = vp_choose(NBIN, "op1"), o2 = vp_choose(NBIN, "op2"); muldiv(o1); muldiv(o2); nosp = o1 + o2 & 1;
  u32 a = operand("a"), b = operand("b"), c = operand("c");
  if (vp_choose(2, "parens")) { n = 2;
    e_s("("); e_v(a); e_o(o1); e_v(b); e_s(")"); e_o(o2); e_v(c); emit2(ex, en); want[0] = bop(o2, bop(o1, a, b), c);
    en = 0; e_v(a); e_o(o1); e_s("("); e_v(b); e_o(o2); e_v(c); e_s(")"); emit2(ex, en); want[1] = bop(o1, a, bop(o2, b, c)); }
  else { u32 v[3] = { a, b, c }; int o[2] = { o1, o2 }; e_v(a); e_o(o1); e_v(b); e_o(o2); e_v(c); emit2(ex, en); want[0] = value(v, o, 2); }
#endif
  asm_run(); OK_RUN("expression"); vp_check(outn == 4 * n, "one value per expression"); if (outn != 4 * n) vp_end_path();
  for (int k = 0; k < n; k++) cmp2(k, want[k], n == 2 ? "parentheses override" : "grouping by precedence, left to right within a level");
  vp_reach("end"); vp_end_path(); }
