// C07: number and character literals denote their value.
#include "hx.h"
static u32 word32(int k) { return (u32)out[4 * k] | (u32)out[4 * k + 1] << 8 | (u32)out[4 * k + 2] << 16 | (u32)out[4 * k + 3] << 24; }
static char lit[48]; static int ln;
static void emit(void) { s_s(" .org $1000\n .word ("); s_n(lit, ln); s_s(") & $FFFF, (("); s_n(lit, ln); s_s(") >> 16) & $FFFF\n lda #<("); s_n(lit, ln); s_s(")\n"); }
static void verdict(u32 v, const char* m) {
  OK_RUN("literal"); vp_check(outn == 6, "one value per literal"); if (outn != 6) vp_end_path();
  vp_check((u32)(out[0] | out[1] << 8) == (v & 0xFFFF), m); vp_check((u32)(out[2] | out[3] << 8) == v >> 16, m); vp_check(out[4] == 0xA9 && out[5] == (u8)v, m); vp_reach("end"); vp_end_path(); }
static void ch(char c) { lit[ln++] = c; }
static const signed char dv[256] = { -1,-1,-1,-1,-1,-1,-1,-1,-1,-1,-1,-1,-1,-1,-1,-1,-1,-1,-1,-1,-1,-1,-1,-1,-1,-1,-1,-1,-1,-1,-1,-1,-1,-1,-1,-1,-1,-1,-1,-1,-1,-1,-1,-1,-1,-1,-1,-1,0,1,2,3,4,5,6,7,8,9,-1,-1,-1,-1,-1,-1,-1,10,11,12,13,14,15,-1,-1,-1,-1,-1,-1,-1,-1,-1,-1,-1,-1,-1,-1,-1,-1,-1,-1,-1,-1,-1,-1,-1,-1,-1,-1,10,11,12,13,14,15,-1,-1,-1,-1,-1,-1,-1,-1,-1,-1,-1,-1,-1,-1,-1,-1,-1,-1,-1,-1,-1,-1,-1,-1,-1,-1,-1,-1,-1,-1,-1,-1,-1,-1,-1,-1,-1,-1,-1,-1,-1,-1,-1,-1,-1,-1,-1,-1,-1,-1,-1,-1,-1,-1,-1,-1,-1,-1,-1,-1,-1,-1,-1,-1,-1,-1,-1,-1,-1,-1,-1,-1,-1,-1,-1,-1,-1,-1,-1,-1,-1,-1,-1,-1,-1,-1,-1,-1,-1,-1,-1,-1,-1,-1,-1,-1,-1,-1,-1,-1,-1,-1,-1,-1,-1,-1,-1,-1,-1,-1,-1,-1,-1,-1,-1,-1,-1,-1,-1,-1,-1,-1,-1,-1,-1,-1,-1,-1,-1,-1,-1,-1,-1,-1,-1,-1,-1,-1,-1,-1,-1,-1,-1,-1,-1,-1,-1,-1,-1,-1,-1,-1,-1 };
static unsigned long acc(unsigned long v, int base, u8 c) { int d = dv[c]; return v * base + d; }
static u8 xdigit(void) { u8 c = sym8("x"); vp_assume((c >= '0') & (c <= '9') | (c >= 'a') & (c <= 'f') | (c >= 'A') & (c <= 'F')); return c; }
static u8 digit(u8 base) { u8 c = sym8("d"); vp_assume((c >= '0') & (c < '0' + base)); return c; }
int vp_main(void) {
#ifdef NUMBERS
  int kind = vp_choose(4, "notation"); unsigned long v = 0; int n;
  if (kind == 0) { n = 1 + vp_choose(9, "digits"); ch('$'); for (int i = 0; i < n; i++) { u8 c = xdigit(); ch(c); v = acc(v, 16, c); } }
  else if (kind == 1) { n = 1 + vp_choose(11, "digits"); for (int i = 0; i < n; i++) { u8 c = digit(10); ch(c); v = acc(v, 10, c); } }
  else { static const int N[] = { 1, 7, 8, 9, 15, 16, 17, 31, 32, 2, 3, 4, 5, 6, 12, 20, 24 }; n = N[vp_choose(TIER ? 17 : 9, "digits")];
    if (kind == 2) ch('%'); else { ch('0'); u8 b = sym8("b"); vp_assume((b | 32) == 'b'); ch(b); }
    for (int i = 0; i < n; i++) { u8 c = digit(2); ch(c); v = acc(v, 2, c); } }
  emit(); asm_run();
  if (v > 0xFFFFFFFFull) { vp_check(rc != 0 && rc < 256, "a literal beyond 32 bits is refused"); vp_reach("big"); vp_end_path(); }
  verdict((u32)v, "positional value of the literal");
#else
  int kind = vp_choose(6, "kind"); unsigned long v;
  if (kind == 0) { u8 c = sym8("c"); vp_assume((c != 0) & (c != '\n') & (c != '\\')); ch('\''); ch(c); ch('\''); v = c; }
  else if (kind == 1) { u8 c = sym8("c"); vp_assume((c != 0) & (c != '\n') & (c != '\\') & (c != '"')); ch('"'); ch(c); ch('"'); v = c; }
  else if (kind == 2 || kind == 3) { static const char E[] = "abfnrtv\\'\"?", V[] = "\a\b\f\n\r\t\v\\'\"?"; int k = vp_choose(11, "escape"); char q = kind == 2 ? '\'' : '"'; ch(q); ch('\\'); ch(E[k]); ch(q); v = (u8)V[k]; }
  else if (kind == 4) { int n = 1 + vp_choose(2, "digits"); v = 0; ch('\''); ch('\\'); ch('x'); for (int i = 0; i < n; i++) { u8 c = xdigit(); ch(c); v = acc(v, 16, c); } ch('\''); }
  else { int n = vp_choose(2, "digits") ? 3 : 1; v = 0; ch('\''); ch('\\'); for (int i = 0; i < n; i++) { u8 c = digit(8); ch(c); v = acc(v, 8, c); } ch('\''); vp_assume(v < 256); }
  emit(); asm_run(); verdict((u32)v, "code of the character");
#endif
}
