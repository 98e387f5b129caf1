// C12: forward references resolve to the final value.
#include "forms.h"
static int opn(const char* n) { for (int i = 0; i < R_NOPS; i++) if (!strcmp(r_name[i], n)) return i; return -1; }
static int branch(int op) { return ref_op(R_6502, op, R_REL) >= 0 || ref_op(R_65C02, op, R_REL) >= 0; }
static void operand(int f, const char* t) {
  switch (f) { case F_IMM: s_s("#<"); s_s(t); break; case F_V: s_s(t); break; case F_VX: s_s(t); s_s(",x"); break; case F_VY: s_s(t); s_s(",y"); break;
    case F_IND: s_s("("); s_s(t); s_s(")"); break; case F_IX: s_s("("); s_s(t); s_s(",x)"); break; case F_IY: s_s("("); s_s(t); s_s("),y"); break; }
  s_s("\n"); }
#define HX(v) do { u16 hv_ = (v); u8 hb_[2] = { (u8)hv_, (u8)(hv_ >> 8) }; s_s("$"); s_hexb(hb_, 2); } while (0)
// is out[p..] the instruction op in form f with operand value v?  advances p
static int decode(int cpu, int op, int f, u16 v, int* p) {
  int sz, e = enc(cpu, op, f, 1, &sz), q = *p;
  if (f == F_IMM) { int r = (out[q] == e) & (out[q + 1] == (u8)v); *p += 2; return r; }
  if (e >= 0 && sz == 1 && out[q] == e) { *p += 2; return (out[q + 1] == (u8)v) & (v < 256); }
  e = enc(cpu, op, f, 0, &sz); if (e >= 0 && sz == 2 && out[q] == e) { *p += 3; return (out[q + 1] == (u8)v) & (out[q + 2] == v >> 8); }
  return 0; }
#if defined(INSTR)
// every instruction and form with a symbol defined behind it, followed by a marker
int vp_main(void) {
  int cpu = vp_choose(2, "cpu") ? R_65C02 : R_6502, op = vp_choose(R_NOPS, "op"), f = vp_choose(NF - F_IMM, "form") + F_IMM, s1, s2;
  if ((cpu == R_6502 && op >= R_NDOC) || (op >= R_NDOC && op < R_NNMOS) || branch(op)) vp_end_path();
  int e1 = enc(cpu, op, f, 1, &s1), e2 = enc(cpu, op, f, 0, &s2); if (e1 < 0 && e2 < 0) vp_end_path();
  if (cpu == R_65C02) { opt("-65c02"); if (f == F_IND && s1 == 1 && e1 >= 0) vp_end_path(); /* known finding zpi, C01 */ }
  u16 v = sym16("v"); int how = vp_choose(TIER ? 3 : 2, "how");
  s_s(" .org $1000\n "); s_s(r_name[op]); s_s(" "); operand(f, how == 1 ? "f+1" : how == 2 ? "g" : "f"); s_s("last: .word last, f, $A55A\n"); if (how == 2) s_s("g = f\n"); s_s("f = "); HX(v); s_s("\n");
  u16 w = how == 1 ? v + 1 : v; if (how == 1) vp_assume(v < 0xFFFF);
  asm_run();
  int fits = f == F_IMM || e2 >= 0 && s2 == 2 || w < 256; // the widest form takes it
  if (!fits) { vp_check(rc != 0, "a value the instruction cannot hold is refused"); vp_reach("end"); vp_end_path(); }
  OK_RUN("reference to a symbol defined later");
  int p = 0; vp_check((outn == 8) | (outn == 9), "one complete instruction and the marker"); if (outn < 8) vp_end_path();
  vp_check(decode(cpu, op, f, w, &p), "the instruction is complete and has the value as operand");
  vp_check(p + 6 == outn, "the marker follows the instruction"); if (p + 6 != outn) vp_end_path();
  vp_check(((out[p] | out[p + 1] << 8) == 0x1000 + p) & ((out[p + 2] | out[p + 3] << 8) == v) & (out[p + 4] == 0x5A) & (out[p + 5] == 0xA5), "marker");
  vp_reach("end"); vp_end_path(); }
#elif defined(CHAIN)
// definitions that depend on each other in every textual order; references before, between and behind
int vp_main(void) {
  static const char* const nm[] = { "p0", "q1", "r2", "s3", "t4" }; int n = TIER ? 5 : 4, used = 0, ord[5], where = vp_choose(TIER ? n + 1 : 3, "refs at"); if (!TIER && where == 2) where = n;
  u16 v = sym16("v"), c = sym8("c"); vp_assume((v < 0x2000) & (v > 0)); u32 val[5];
  int shape = vp_choose(4, "shape"); if (shape == 3) vp_assume(v >= 0x400); // a difference that is negative without its symbols
  // nm[0] is the base
  val[0] = v; for (int i = 1; i < n; i++) val[i] = shape == 0 ? val[i - 1] + c : shape == 1 ? (i == 1 ? val[0] + 1 : val[i - 1] + val[i - 2]) : shape == 2 ? (val[0] << 1) + i : val[i - 1] - c;
  for (int i = 0; i < n; i++) { int k = vp_choose(n - i, i == 0 ? "o0" : i == 1 ? "o1" : i == 2 ? "o2" : i == 3 ? "o3" : "o4"), j = 0; for (;; j++) if (!(used >> j & 1) && k-- == 0) break; used |= 1 << j; ord[i] = j; }
  s_s(" .org $1000\n");
  for (int i = 0; i <= n; i++) {
    if (i == where) { s_s(" .word "); for (int k = 0; k < n; k++) { if (k) s_s(","); s_s(nm[k]); } s_s("\n"); }
    if (i == n) break;
    int d = ord[i]; s_s(nm[d]); s_s(" = ");
    if (d == 0) HX(v); else if (shape == 0 || shape == 3) { s_s(nm[d - 1]); s_s(shape ? " - " : " + "); HX(c); } else if (shape == 1) { if (d == 1) s_s("p0 + 1"); else { s_s(nm[d - 1]); s_s("+"); s_s(nm[d - 2]); } } else { s_s("(p0 * 2) + "); s_dec(d); }
    s_s("\n"); }
  s_s(" .word "); for (int k = 0; k < n; k++) { if (k) s_s(","); s_s(nm[k]); } s_s("\n");
  asm_run(); OK_RUN("definitions in any order"); vp_check(outn == 4 * n, "size"); if (outn != 4 * n) vp_end_path();
  for (int k = 0; k < 2 * n; k++) vp_check((out[2 * k] | out[2 * k + 1] << 8) == (u16)val[k % n], k < n ? "reference before or between the definitions" : "reference behind the definitions");
  vp_reach("end"); vp_end_path(); }
#else
// labels: sizes of the instructions between depend on the labels
int vp_main(void) {
  static const char* const O[] = { "lda", "ldx", "jmp", "sta", "adc", "jsr", "cmp", "stx" };
  int org = vp_choose(6, "org"); u16 o = org == 0 ? 0x1000 : org == 1 ? 0x10 : 0xF0 + (org - 2) * 4 + vp_choose(4, "fine");
  int n = TIER ? 4 : 3, op[4], to[4], f[4]; int local = vp_choose(3, "local"); static const char* const LL[3][7] = { { "l0", "l1", "l2", "l3", "l4", "l1+1", "l2-1" }, { "l0", "@l1", "@l2", "@l3", "@l4", "@l1+1", "@l2-1" }, { "l0", "l1", "l2", "l3", "l4", "l1+1", "l2-1" } };
  const char* const* L = LL[local]; static const char* const N[] = { "op0", "op1", "op2", "op3" }; static const char* const T[] = { "to0", "to1", "to2", "to3" };
  for (int i = 0; i < n; i++) { op[i] = TIER ? vp_choose(4, N[i]) : i + 1; f[i] = op[i] == 2 || op[i] == 5 ? F_V : i == 1 && TIER ? F_VX : F_V; to[i] = vp_choose(n + 3 > 6 ? 6 : n + 2, T[i]); if (to[i] > n && to[i] < 5) to[i] = 5 + (to[i] - n - 1); op[i] = opn(O[op[i]]); int s; if (enc(R_6502, op[i], f[i], 0, &s) < 0) vp_end_path(); }
  s_s(" .org "); HX(o); s_s("\n");
  for (int i = 0; i < n; i++) { char an[8]; const char* t = L[to[i]]; if (local == 2) { s_s("-\n+\n"); if (to[i] < 5) { int k = 0, m = to[i] > i ? to[i] - i : i - to[i] + 1; for (; k < m; k++) an[k] = to[i] > i ? '+' : '-'; an[k] = 0; t = an; } }
    s_s(L[i]); s_s(": "); s_s(r_name[op[i]]); s_s(" "); operand(f[i], t); }
  if (local == 2) s_s("-\n+\n");
  s_s(L[n]); s_s(": .word "); for (int i = 0; i <= n; i++) { if (i) s_s(","); s_s(L[i]); } s_s("\n");
  asm_run(); OK_RUN("labels");
  u16 lab[5]; int tail = 2 * (n + 1), p = 0; vp_check(outn > tail, "size"); if (outn <= tail) vp_end_path();
  for (int i = 0; i <= n; i++) lab[i] = out[outn - tail + 2 * i] | out[outn - tail + 2 * i + 1] << 8;
  for (int i = 0; i < n; i++) { vp_check(lab[i] == o + p, "label at its position"); u16 w = to[i] < 5 ? lab[to[i]] : to[i] == 5 ? lab[1] + 1 : lab[2] - 1; vp_check(decode(R_6502, op[i], f[i], w, &p), "operand is the label's final value"); }
  vp_check(p == outn - tail & lab[n] == o + p, "end");
  vp_reach("end"); vp_end_path(); }
#endif
