// C08: a string is emitted as exactly its characters, escapes decoded, in order.
#include "hx.h"
static const signed char hv[23] = { 0,1,2,3,4,5,6,7,8,9,-1,-1,-1,-1,-1,-1,-1,10,11,12,13,14,15 };
static u8 exp_[64]; static int en;
static void put(u8 c) { exp_[en++] = c; }
// one element of a string; prev: the kind before it
static int element(int i, int prev) {
  static const char E[] = "abfnrtv\\'\"?", V[] = "\a\b\f\n\r\t\v\\'\"?";
  int k = vp_choose(6, "element");
  switch (k) {
    case 0: { u8 c = sym8("c"); vp_assume((c >= 32 | c == 9) & (c != '"') & (c != '\\')); if (prev == 2 || prev == 4) vp_assume(!((c >= '0') & (c <= '9') | ((c | 32) >= 'a') & ((c | 32) <= 'f'))); if (prev == 5) vp_assume((c < '0') | (c > '7')); s_c(c); put(c); break; }
    case 1: { int e = i == 0 ? vp_choose(11, "escape") : (i * 4 + 3) % 11; s_c('\\'); s_c(E[e]); put(V[e]); break; }
    case 2: { u8 v = sym8("hex"); s_s("\\x"); s_hexb(&v, 1); put(v); break; }
    case 3: { u8 v = sym8("oct"); s_c('\\'); s_c('0' + (v >> 6)); s_c('0' + (v >> 3 & 7)); s_c('0' + (v & 7)); put(v); break; }
    case 4: { u8 v = sym8("nib"); v &= 15; s_s("\\x"); s_c(hx_lo[v]); put(v); break; }
    case 5: { u8 v = sym8("oct1"); v &= 63; if (v > 7) { s_c('\\'); s_c('0' + (v >> 3)); s_c('0' + (v & 7)); } else { s_c('\\'); s_c('0' + v); } put(v); break; }
  } return k; }
#ifdef BAD
// an escape that stands for no character is refused, wherever in the string
int vp_main(void) {
  static const char* const D[] = { ".byte", ".word", ".str" }; int d = vp_choose(3, "directive"), pre = vp_choose(3, "before"), post = vp_choose(3, "behind"), k = vp_choose(3, "escape"), ok = 0;
  s_s(" .org $1000\n "); s_s(D[d]); s_s(" \""); for (int i = 0; i < pre; i++) s_c('k'); s_c('\\');
  if (k == 0) { u8 c = sym8("c"); vp_assume((c >= 32) & (c < 127)); s_c(c); u8 l = (c >= 'A') & (c <= 'Z') ? c + 32 : c; ok = (l == 'a') | (l == 'b') | (l == 'f') | (l == 'n') | (l == 'r') | (l == 't') | (l == 'v') | (c == 39) | (c == '"') | (c == '?') | (c == 92) | ((c >= '0') & (c <= '7')); }
  else if (k == 1) { u8 h = sym8("h"), v = sym8("v"); h &= 7; s_c('0' + h); s_c('0' + (v >> 3 & 7)); s_c('0' + (v & 7)); ok = h < 4; }
  else { u8 c = sym8("c"); vp_assume((c >= 32) & (c < 127) & (c != '"') & (c != 92)); s_c('x'); s_c(c); ok = ((c >= '0') & (c <= '9')) | (((c | 32) >= 'a') & ((c | 32) <= 'f')); }
  for (int i = 0; i < post; i++) s_c('k'); s_s("\"\n .byte 1\n"); asm_run(); vp_check((rc == 0) == ok, "exactly the escapes that stand for a character are accepted"); if (rc == 0) vp_reach("end"); else vp_reach("refused"); vp_end_path(); }
#else
int vp_main(void) {
  static const char* const D[] = { ".byte", ".word", ".str", ".db", ".dw", ".dcw", ".text", ".string" };
#ifdef LIST // several strings and values in one list
  int d = vp_choose(3, "directive"), word = d == 1, shape = vp_choose(5, "shape"), n = 0; u8 v = sym8("value");
  s_s(" .org $1000\n "); s_s(D[d]); s_s(" ");
  static const char* const SH[] = { "sv", "vs", "ss", "svs", "vsv" };
  for (const char* p = SH[shape]; *p; p++) { if (p != SH[shape]) s_s(","); 
    if (*p == 'v') { s_s("$"); s_hexb(&v, 1); put(v); if (word) put(0); continue; }
    int len = vp_choose(4, "length"), st = en, prev = 0; s_c('"'); for (int i = 0; i < len; i++) { if (i == 1) { u8 w = sym8("hex"); s_s("\\x"); s_hexb(&w, 1); put(w); } else { u8 c = sym8("c"); vp_assume((c > 'f') | (c == ' ')); s_c(c); put(c); } } s_c('"'); (void)prev; if (word && (en - st) % 2) put(0); }
#else
  int d = vp_choose(TIER ? 8 : 3, "directive"), word = d == 1 || d == 4 || d == 5, n = vp_choose(TIER ? 5 : 4, "length"), k = 0;
  s_s(" .org $1000\n "); s_s(D[d]); s_s(" \"");
  for (int i = 0; i < n; i++) k = element(i, k);
  s_s("\""); if (word && n % 2) put(0);
#endif
  s_s("\n .word *\n");
  asm_run(); OK_RUN("string");
  vp_check(outn == en + 2, "nothing before, between or after"); if (outn != en + 2) vp_end_path();
  int ok = 1; for (int i = 0; i < en; i++) ok &= out[i] == exp_[i]; vp_check(ok, "every character in order");
  u16 a = 0x1000 + en; vp_check(out[en] == (u8)a && out[en + 1] == a >> 8, "the address behind the string");
  vp_reach("end"); vp_end_path(); }
#endif
