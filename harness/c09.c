// C09: data directives emit exactly the listed values.
#include "hx.h"
static void num(u32 v, int d) { u8 b[4]; memcpy(b, &v, 4); s_s("$"); s_hexb(b, d); }
static struct { int kind; u32 v, w; } el[4];
static char fwd[512]; static int fn_; static void f_s(const char* s) { while (*s) fwd[fn_++] = *s++; }
int vp_main(void) {
  static const char* const D[] = { ".byte", ".word", ".db", ".dw", ".dcw" };
  int d = vp_choose(TIER ? 5 : 2, "directive"), size = d == 0 || d == 2 ? 1 : 2, n = 1 + vp_choose(TIER ? 4 : 3, "length"), all_fit = 1, some_bad = 0;
  s_s(" .org $1000\n");
  for (int i = 0; i < n; i++) { int k = el[i].kind = n == 1 || i == 0 || TIER && n < 4 ? vp_choose(8, "element") : i == 1 ? vp_choose(3, "element") * 2 : 1 + (el[0].kind + 3) % 7; char nm[3] = { 'v', (char)('a' + i), 0 };
    switch (k) {
      case 0: el[i].v = n == 1 ? sym32("v") : sym16("v"); break;                    // literal
      case 1: el[i].v = 0u - (n == 1 ? sym32("v") & 0x7FFFFFFF : sym16("v")); break; // negative literal
      case 2: el[i].v = n == 1 ? sym32("v") : sym16("v"); s_s(" .var "); s_s(nm); s_s(" = "); num(el[i].v, 4); s_s("\n"); break; // variable
      case 3: el[i].v = sym16("v"); s_s(nm); s_s(" = "); num(el[i].v, 2); s_s("\n"); break; // symbol defined before
      case 4: el[i].v = sym16("v"); f_s(nm); f_s(" = $"); { u8 h = el[i].v >> 8, l = (u8)el[i].v; fwd[fn_++] = hx_up[h >> 4]; fwd[fn_++] = hx_up[h & 15]; fwd[fn_++] = hx_up[l >> 4]; fwd[fn_++] = hx_up[l & 15]; } f_s("\n"); break; // ... and behind
      case 5: el[i].v = sym16("v"); el[i].w = sym16("w"); break;                    // sum
      case 6: el[i].v = sym16("v"); el[i].w = sym16("w"); break;                    // parenthesised difference
      case 7: el[i].v = sym8("v"); vp_assume((el[i].v >= 32) & (el[i].v != '\\') & (el[i].v != '\'')); break; // character
    } }
  static u32 val[4];
  s_s(" "); s_s(D[d]); s_s(" ");
  for (int i = 0; i < n; i++) { u32 v = el[i].v; char nm[3] = { 'v', (char)('a' + i), 0 }; if (i) s_s(", ");
    switch (el[i].kind) {
      case 0: num(v, n == 1 ? 4 : 2); break;
      case 1: s_s("-"); num(0u - v, n == 1 ? 4 : 2); break;
      case 2: case 3: case 4: s_s(nm); break;
      case 5: num(v, 2); s_s(" + "); num(el[i].w, 2); v += el[i].w; break;
      case 6: s_s("("); num(v, 2); s_s(" - "); num(el[i].w, 2); s_s(")"); v -= el[i].w; break;
      case 7: s_s("'"); s_c((char)v); s_s("'"); break; }
    val[i] = v; int x = (int)v, lim = size == 1 ? 0xFF : 0xFFFF, half = size == 1 ? -0x80 : -0x8000;
    all_fit &= (x <= lim) & (x >= half); some_bad |= (x > lim) | (x < -lim); }
  s_s("\n .byte $55\n"); s_n(fwd, fn_);
  asm_run();
  if (rc != 0) { vp_check(!all_fit, "values that fit are accepted"); vp_reach("refused"); vp_end_path(); }
  vp_check(!some_bad, "a value that does not fit is refused");
  vp_check(outn == n * size + 1, "one element per listed value"); if (outn != n * size + 1) vp_end_path();
  for (int i = 0; i < n; i++) { vp_check(out[i * size] == (u8)val[i], "low byte of the listed value"); if (size == 2) vp_check(out[2 * i + 1] == (u8)(val[i] >> 8), "high byte of the listed value"); }
  vp_check(out[n * size] == 0x55, "the next statement follows");
  vp_reach("end"); vp_end_path(); }
