// C26: the symbol file lists the global symbols and labels the program refers to with their final values.
#define SRCMAX 100000
#include "hx.h"
static char tail_[1024]; static int tn; static void t_s(const char* s) { while (*s) tail_[tn++] = *s++; }
static void h16(u16 v) { u8 b[2] = { (u8)v, (u8)(v >> 8) }; s_s("$"); s_hexb(b, 2); }
static void t_h16(u16 v) { int s = sn; h16(v); memcpy(tail_ + tn, src + s, sn - s); tn += sn - s; sn = s; }
static int hexd(int c) { return c <= '9' ? c - '0' : (c & 15) + 9; }
static const u8* f; static long fn;
static struct { char n[24]; u16 v; } L[800]; static int nl;
static void parse(void) {
  f = vp_file_data("a.sym"); fn = vp_file_size("a.sym"); vp_check(fn > 0, "the symbol file is written"); if (fn <= 0) vp_end_path(); int bad = 0;
  for (long i = 0; i < fn;) { if (f[i] == ' ' || f[i] == '\n') { i++; continue; } int k = 0; while (i < fn && f[i] != ' ' && k < 23) L[nl].n[k++] = f[i++]; L[nl].n[k] = 0;
    if (i + 6 > fn || f[i] != ' ' || f[i + 1] != '$') { bad = 1; break; } i += 2; u32 v = 0; for (k = 0; k < 4; k++) v = v << 4 | hexd(f[i++]); if (i < fn && f[i] != ' ' && f[i] != '\n') bad = 1; L[nl++].v = v; }
  vp_check(!bad, "the symbol file is a list of names and values of four digits"); if (bad) vp_end_path(); }
static int ieq(const char* a, const char* b) { for (; *a && *b; a++, b++) { int x = *a, y = *b; if (x >= 'A' & x <= 'Z') x += 32; if (y >= 'A' & y <= 'Z') y += 32; if (x != y) return 0; } return *a == *b; }
static void want(const char* n, u16 v, int used) { int c = 0, bad = 0; for (int i = 0; i < nl; i++) if (ieq(L[i].n, n)) { c++; bad |= L[i].v ^ v; } if (used) { vp_check(c == 1, "a symbol the program refers to is listed once"); } else vp_check(c <= 1, "a symbol is listed once"); vp_check(bad == 0, "a symbol is listed with its final value"); }
static void ref(int k, const char* n) { // a reference
  switch (k) {
    case 0: s_s(" .word "); s_s(n); s_s("\n"); break; case 1: s_s(" lda "); s_s(n); s_s("\n"); break; case 2: s_s(" ldx #<"); s_s(n); s_s("\n"); break;
    case 3: s_s(".if "); s_s(n); s_s("\n nop\n.endif\n"); break; case 4: s_s(" .str ($1234 - "); s_s(n); s_s(") & 1 + 1\n"); break;
    case 5: s_s(".macro mm\n .word \\1\n.endm\n mm "); s_s(n); s_s("\n"); break; case 6: s_s(".for lv = 1 .to 2\n .word "); s_s(n); s_s("\n.next lv\n"); break;
    case 7: s_s(" .section sec\n .word "); s_s(n); s_s("\n .ends\n"); break; case 8: s_s("other = "); s_s(n); s_s("\n .word other\n"); break;
    case 9: s_s(".macro mn\n .word "); s_s(n); s_s("\n.endm\n mn\n mn\n"); break; case 10: s_s(" .fill 1, "); s_s(n); s_s(" & 3\n"); break; case 11: s_s("vv = "); s_s(n); s_s("\n .word vv\n"); break;
    default: s_s(" jmp ("); s_s(n); s_s(")\n"); break; } }
#ifdef NAMES // many symbols, their names of every kind
static void nam(char* n, int id, int kind) { int k = 0; if (kind & 1) n[k++] = '_'; n[k++] = "qQjZ"[id % 4]; int len = 1 + id % 3 + id % 5; for (u32 v = id * 7 + 3; len > 0 || v; v /= 36, len--) { int d = v % 36; n[k++] = d < 10 ? '0' + d : (kind & 2 ? 'A' : 'a') + d - 10; } n[k] = 0; }
#ifndef PER
#define PER 60
#endif
int vp_main(void) {
  opt("-s"); opt("a.sym"); int p = vp_choose(PER > 60 ? TIER ? 8 : 3 : TIER ? 500 : 100, "names"), at = vp_choose(2, "place"); if (!TIER && at != p % 2) vp_end_path(); u16 v = sym16("value"); vp_assume((v & 0x0F0F) == 0x0104); int sp = p % PER; char n[40];
  s_s(" .org $2000\n");
  if (at) for (int i = 0; i < PER; i++) { nam(n, p * PER + i, i); s_s(n); s_s(" = "); if (i == sp) h16(v); else { s_s("$"); s_hex(0x100 + i, 4); } s_s("\n"); }
  for (int i = 0; i < PER; i++) { nam(n, p * PER + i, i); s_s(" .word "); s_s(n); s_s("\n"); }
  if (!at) for (int i = 0; i < PER; i++) { nam(n, p * PER + i, i); s_s(n); s_s(i % 2 && i != sp ? ": .word " : " = "); if (i == sp) h16(v); else { s_s("$"); s_hex(0x100 + i, 4); } s_s("\n"); }
  asm_run(); OK_RUN("many symbols"); if (outn < 2 * PER) vp_end_path(); parse(); vp_check(nl == PER, "as many entries as symbols");
  for (int i = 0; i < PER; i++) { nam(n, p * PER + i, i); if (i == sp) vp_check((out[2 * i] == (u8)v) & (out[2 * i + 1] == v >> 8), "the value in the program"); want(n, i == sp ? v : out[2 * i] | out[2 * i + 1] << 8, 1); }
  vp_reach("end"); vp_end_path(); }
#else
int vp_main(void) {
  opt("-s"); opt("a.sym");
  int where = vp_choose(8, "definition"), r = vp_choose(13, "reference"), chain = vp_choose(3, "passes"), two = vp_choose(TIER ? 13 : 2, "again");
  u16 v = sym16("value"); u8 w = sym8("w"); int lab = 0; if (where == 5 && TIER == 0 && two) vp_end_path();
  s_s(" .org $2000\n .var lv, vv\n");
  if (where == 0) { s_s("name = "); h16(v); s_s("\n"); } else if (where == 1) { t_s("NAME = "); t_h16(v); t_s("\n"); }
  else if (where == 2) { s_s("name:\n nop\n"); lab = 1; } else if (where == 3) { t_s("name: nop\n"); lab = 2; } else if (where == 4) { s_s("Name\n lda #$"); s_hexb(&w, 1); s_s("\n"); lab = 1; } else if (where == 6) { static char a[8] = "$"; int q = sn; h16(v); memcpy(a, src + q, 5); sn = q; opt("-d"); opt("name"); opt(a); }
  else { if (where == 7) { s_s("name = $"); s_hexb(&w, 1); s_s("\n"); } s_s(" .section sec2\nname = "); h16(v); s_s("\n .ends\n"); }
  if (chain) { s_s(chain == 1 ? " .word fwa\n" : " .word fwa\n lda fwb\n"); t_s("fwa = fwb + 1\nfwb = fwc + 1\nfwc = $"); t_h16(0); tn -= 5; u8 b = w; u16 q = 0x100 | b; (void)q; t_s("1"); { int s = sn; s_hexb(&b, 1); memcpy(tail_ + tn, src + s, 2); tn += 2; sn = s; } t_s("\n"); }
  const char* n = where == 5 | where == 7 ? "sec2.name" : "name";
  ref(r, n); if (two) ref(TIER ? (r + two) % 13 : (r * 5 + 1) % 5, n);
  s_s(" .word end0\n"); s_n(tail_, tn); s_s("end0:\n");
  asm_run(); if (rc != 0) { vp_reach("refused"); vp_end_path(); }
  if (lab == 2 || lab == 1) { // the address of the label
    if (lab == 1) v = 0x2000; else v = 0x2000 + outn - 1; }
  parse(); want(n, v, 1); want("end0", 0x2000 + outn, 1); if (where == 7) want("name", w, 0);
  if (chain) { want("fwa", 0x102 + w, 1); want("fwb", 0x101 + w, 1); want("fwc", 0x100 + w, 1); }
  if (r == 8) want("other", v, 1); else want("other", v, 0);
  for (int i = 0; i < nl; i++) if (!ieq(L[i].n, n) && !ieq(L[i].n, "end0") && !(where == 7 && ieq(L[i].n, "name")) && !ieq(L[i].n, "other") && L[i].n[0] != 'f' && L[i].n[0] != 'F') { vp_check(0, "nothing is listed that the program does not define"); }
  vp_reach("end"); vp_end_path(); }
#endif
