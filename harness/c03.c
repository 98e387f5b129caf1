// C03: operand width, byte order and range.
#include "forms.h"
static const char* const O[] = { "lda", "ldx", "stx", "jmp", "cpx", "asl", "sty", "sta", "jsr", "bit", "slo", "lax" };
static void operand(int f, const char* t) { s_s(" ");
  switch (f) { case F_IMM: s_s("#"); s_s(t); break; case F_V: s_s(t); break; case F_VX: s_s(t); s_s(",x"); break; case F_VY: s_s(t); s_s(",y"); break;
    case F_IND: s_s("("); s_s(t); s_s(")"); break; case F_IX: s_s("("); s_s(t); s_s(",x)"); break; case F_IY: s_s("("); s_s(t); s_s("),y"); break; }
  s_s("\n"); }
#ifdef AGAIN
// one statement assembled twice with different operands: in a loop, in a macro
int vp_main(void) {
  int q = vp_choose(R_NOPS, "op"), f = vp_choose(NF - F_IMM, "form") + F_IMM, loop = vp_choose(TIER ? 3 : 2, "loop"), op = q, s1 = 0, s2 = 0;
  if (op >= R_NDOC && op < R_NNMOS) vp_end_path(); if (ref_op(R_65C02, op, R_REL) >= 0) vp_end_path();
  int cpu = R_65C02; opt("-65c02"); int e1 = enc(cpu, op, f, 1, &s1), e2 = enc(cpu, op, f, 0, &s2); if (e1 < 0 || e2 < 0 || s1 == s2) vp_end_path();
  if (f == F_IND) vp_end_path(); // known finding zpi, C01
  u16 a = vp_choose(2, "first") ? 0x8000 : 0; a |= sym8("a"); u16 b = vp_choose(2, "second") ? 0x0100 : 0; b |= sym8("b"); u8 ab[2] = { (u8)a, (u8)(a >> 8) }, bb[2] = { (u8)b, (u8)(b >> 8) };
  static char t[16]; strcpy(t, loop ? "ii" : "\\1"); s_s(" .org $1000\n .var ii, kk\n");
  if (!loop) { s_s(".macro twice\n "); s_s(r_name[op]); operand(f, t); s_s(".endm\n twice $"); s_hexb(ab, 2); s_s("\n twice $"); s_hexb(bb, 2); s_s("\n"); }
  else { s_s("ii = $"); s_hexb(ab, 2); s_s(loop == 1 ? "\n.for kk = 1 .to 2\n " : "\nkk = 0\n.repeat\n "); s_s(r_name[op]); operand(f, t); s_s("ii = $"); s_hexb(bb, 2); s_s(loop == 1 ? "\n.next kk\n" : "\nkk = kk + 1\n.until kk > 1\n"); }
  s_s(" .byte $EA\n"); asm_run(); OK_RUN("a statement assembled twice");
  u16 v[2] = { a, b }; int p = 0; for (int i = 0; i < 2; i++) { int sz, e = enc(cpu, op, f, v[i] < 256, &sz); vp_check(outn >= p + 1 + sz, "complete instructions"); if (outn < p + 1 + sz) vp_end_path();
    vp_check(out[p] == e, "opcode of the form its value needs"); vp_check(out[p + 1] == (u8)v[i], "low byte first"); if (sz == 2) vp_check(out[p + 2] == (u8)(v[i] >> 8), "high byte second"); p += 1 + sz; }
  vp_check((outn == p + 1), "size"); if (outn == p + 1) vp_check(out[p] == 0xEA, "next statement follows");
  vp_reach("end"); vp_end_path(); }
#else
int vp_main(void) {
  int q = vp_choose(TIER ? 12 : 8, "op"), f = vp_choose(NF - F_IMM, "form") + F_IMM, how = vp_choose(5, "spelling"), op = -1, s1, s2; for (int i = 0; i < R_NOPS; i++) if (!strcmp(r_name[i], O[q])) op = i;
  if (enc(R_6502, op, f, 1, &s1) < 0 && enc(R_6502, op, f, 0, &s2) < 0) vp_end_path();
  opt("-i"); static char t[64]; i64 v; int start;
  s_s(" .org $1000\n");
  // the operand's value v, as a literal, a negated literal, a symbol defined before, a sum, a difference
  u32 a = sym32("a"); vp_assume(a < 0x80000000u); u8 ab[4]; memcpy(ab, &a, 4);
  start = sn; s_s("$"); s_hexb(ab, 4); int len = sn - start; memcpy(t, src + start, len); t[len] = 0; sn = start; v = a;
  if (how == 1) { memmove(t + 1, t, len + 1); t[0] = '-'; v = -(i64)a; }
  if (how == 2) { s_s("foo = "); s_s(t); s_s("\n"); strcpy(t, "foo"); }
  if (how >= 3) { u16 b = sym16("b"); u8 bb[2]; memcpy(bb, &b, 2); vp_assume(a < 0x100000); t[len++] = how == 3 ? '+' : '-'; start = sn; s_s("$"); s_hexb(bb, 2); memcpy(t + len, src + start, sn - start); t[len + sn - start] = 0; sn = start; v = how == 3 ? (i64)a + b : (i64)a - b; }
  s_s(" "); s_s(r_name[op]); operand(f, t); s_s(" .byte $EA\n");
  asm_run();
  int small = v >= 0 && v < 256, sz, e = enc(R_6502, op, f, small, &sz);
  int fits = e >= 0 && (sz == 1 ? v >= (f == F_IMM ? -128 : 0) && v < 256 : v >= -0x8000 && v < 0x10000);
  int wsz, we = enc(R_6502, op, f, 0, &wsz); if (we < 0) enc(R_6502, op, f, 1, &wsz); // the widest form
  int neither = !fits && (wsz == 1 ? v >= -255 && v < 0 : v >= -0xFFFF && v < 0); // negative values that only wrap: left open
  if (neither) { vp_reach("open"); vp_end_path(); }
  if (!fits) vp_check(rc != 0, "a value the instruction's widest operand cannot hold is refused");
  else { OK_RUN("a value the instruction can hold");
    vp_check(outn == 2 + sz, "zero page form exactly for 0..255 where it exists"); if (outn != 2 + sz) vp_end_path();
    vp_check(out[0] == e, "opcode of that form"); vp_check(out[1] == (u8)v, "low byte first"); if (sz == 2) vp_check(out[2] == (u8)(v >> 8), "high byte second"); vp_check(out[1 + sz] == 0xEA, "next statement follows"); }
  vp_reach("end"); vp_end_path();
}
#endif
