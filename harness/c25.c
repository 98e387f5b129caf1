// C25: the addresses and bytes of the listing are those of the object file.
#ifdef BIG
#define SRCMAX 100000
#endif
#include "stmts.h"
static int hexd(int c) { return c <= '9' ? c - '0' : (c & 15) + 9; }
static void verify(int from, int to, long org) { // the bytes from..to of the object file are listed, those between are not
  const u8* l = vp_file_data("a.lst"); long n = vp_file_size("a.lst"); vp_check(n > 0, "the listing is written"); if (n <= 0) vp_end_path();
  long at = 0, i = 0; int wrong = 0, addr = 0, fmt = 0;
  while (i < n) {
    if (l[i] == '$' && i + 6 < n && l[i + 5] == ':') {
      if (at == from) at = to;
      u16 a = hexd(l[i + 1]) << 12 | hexd(l[i + 2]) << 8 | hexd(l[i + 3]) << 4 | hexd(l[i + 4]); addr |= a ^ (u16)(org + at);
      for (i += 6; i + 3 < n && l[i] == ' ' && l[i + 1] == '$'; i += 4) { u8 b = hexd(l[i + 2]) << 4 | hexd(l[i + 3]); if (at >= outn) { fmt = 1; break; } if (!fmt) wrong |= b ^ out[at]; at++; if (at == from && l[i + 4] == ' ' && l[i + 5] == '$') fmt = 1; }
      if (i < n) fmt |= l[i] != ' '; }
    while (i < n && l[i] != '\n') i++; i++; }
  if (at == from) at = to;
  vp_check(!fmt, "the listing has no more bytes than the object file"); vp_check(at == outn, "every byte of the object file is in the listing"); if (fmt | (at != outn)) vp_end_path();
  vp_check(wrong == 0, "the bytes of the listing are those of the object file, in order"); vp_check(addr == 0, "the addresses of the listing are those of the bytes"); }
int vp_main(void) {
  stmt_files(); opt("-l"); opt("a.lst");
#ifdef BIG // many statements, long strings and lists, long source lines
  int k = vp_choose(6, "kind"), n = TIER ? 900 : 250; u8 v = sym8("v"); s_s(" .org $1000\n");
  if (k == 0) for (int i = 0; i < n; i++) { s_s("zz"); s_dec(i); s_s(i % 3 == 0 ? ": nop\n" : i % 3 == 1 ? ": lda #$" : ": .word zz"); if (i % 3 == 1) { s_hexb(&v, 1); s_c('\n'); } if (i % 3 == 2) { s_dec(i); s_c('\n'); } if (i % 50 == 7) s_s("\n; remark\n"); }
  else if (k == 1) { s_s(" .byte \""); for (int i = 0; i < 3 * n; i++) s_c('A' + i % 26); s_s("\", $"); s_hexb(&v, 1); s_s("\n rts\n"); } else if (k == 2) { s_s(" .word "); for (int i = 0; i < n; i++) { s_dec(i * 9); s_s(", "); } s_s("$"); s_hexb(&v, 1); s_s("\n rts\n"); }
  else if (k == 3) { s_s(" lda #$"); s_hexb(&v, 1); s_s(" ; "); for (int i = 0; i < 12 * n; i++) s_c('a' + i % 26); s_s("\n rts\n tax\n"); } else if (k == 4) { s_s(" .var i\n.for i = 1 .to "); s_dec(n); s_s("\n lda #$"); s_hexb(&v, 1); s_s("\n .word i\n.next i\n rts\n"); }
  else { int q = n / 8; vp_file("inb", " .byte 1\n nop\n", 14); for (int i = 0; i < q; i++) { s_s(" lda #$"); s_hexb(&v, 1); s_s("\n .inc \"inb\"\n"); } s_s(" rts\n"); }
  asm_run(); OK_RUN("large listing"); verify(-1, -1, 0x1000);
#elif defined(STRINGS) // strings of every length, the last character any
  int d = vp_choose(4, "directive"), len = vp_choose(TIER ? 12 : 8, "length"), pos = vp_choose(3, "position"); u8 c = sym8("c"), b = sym8("b");
  u16 org = sym16("org"); vp_assume((org & 0xFF00) == 0x2000); s_s(" .org "); h16(org); s_s("\n nop\n"); s_s(d == 0 ? " .byte " : d == 1 ? " .word " : d == 2 ? " .str " : " .db ");
  if (pos == 1) s_s("7, "); s_s("\""); for (int i = 0; i < len; i++) { if (i == (pos == 2 ? 0 : len - 1)) { s_s("\\x"); s_hexb(&c, 1); } else s_c('A' + i); } s_s("\""); vp_assume(c != 0); if (pos == 2) { s_s(", $"); s_hexb(&b, 1); s_s(", \"xy\\xFF\""); } s_s("\n .byte 9\n");
  asm_run(); OK_RUN("strings"); verify(-1, -1, org);
#elif defined(PRINT)
  // statements listed, not listed and listed again
  int k = vp_choose(TIER ? 8 : 4, "first"), l = vp_choose(TIER ? 8 : 4, "silent"), m = vp_choose(TIER ? 8 : 4, "second"), nl = vp_choose(3, "lines"); static const int K[] = { 1, 12, 29, 16, 0, 34, 20, 15 };
  s_s(" .org $1800\n"); stmt(K[k], 0); s_s("p0:\n .print off\n"); if (nl & 1) s_s("\n\n"); s_s("p1:\n"); stmt(K[l], 1); s_s("p2:\n"); s_s(nl == 2 ? " .PRINT ON\n\n" : " .print on\n"); stmt(K[m], 2); if (nl == 1) s_s(" .print on\n nop\n"); s_s("last: .word p0, p2\n"); s_n(tail_, tn);
  asm_run(); OK_RUN("print"); vp_check(outn >= 4, "size"); if (outn < 4) vp_end_path(); int p0 = (out[outn - 4] | out[outn - 3] << 8) - 0x1800, p2 = (out[outn - 2] | out[outn - 1] << 8) - 0x1800; p0 = vp_concretize(p0); p2 = vp_concretize(p2); verify(p0 == p2 ? -1 : p0, p2, 0x1800);
#else
  int k = vp_choose(NSTMT, "first"), l = TIER ? vp_choose(NSTMT, "second") : (k * 11 + 7) % NSTMT;
  static const u16 O[] = { 0x1000, 0x10FE, 0x1FFD, 0x10FC, 0x10FF, 0x10FB, 0x10F9 }; int org = O[(k + l) % 7]; s_s(" .org $"); s_hex(org, 4); s_s("\n"); stmt(k, 0); if (!TIER && vp_choose(2, "place")) { s_s(".macro wrap\n"); s_s(" sta $1234,x\n .word \\1\n.endm\n wrap $4321\n"); } stmt(l, 1); s_s("last: nop\n"); s_n(tail_, tn);
  asm_run(); if (rc != 0) { vp_reach("refused"); vp_end_path(); } verify(-1, -1, org);
#endif
  vp_reach("end"); vp_end_path(); }
