// C34: the instruction and data shown behind the bytes of a listing line stand for just these bytes.
#include "stmts.h"
#include "forms.h"
static u8 o1[8192]; static long n1;
static int hexd(int c) { return c <= '9' ? c - '0' : (c & 15) + 9; }
// the lines of the listing as a program
static void program(const char* head, long org) {
  const u8* l = vp_file_data("a.lst"); long n = vp_file_size("a.lst"), i = 0; vp_check(n > 0, "the listing is written"); if (n <= 0) vp_end_path();
  n1 = outn; if (n1 > 8192) { vp_check(0, "size bound"); vp_end_path(); } if (n1 > 0) memcpy(o1, out, n1);
  int fmt = 0, wrong = 0; long at = 0; sn = 0; s_s(head); s_s(" .org $"); s_hex(org, 4); s_s("\n");
  while (i < n) {
    if (l[i] == '$' && i + 6 < n && l[i + 5] == ':') {
      int nb = 0; for (i += 6; i + 3 < n && l[i] == ' ' && l[i + 1] == '$'; i += 4) nb++;
      while (i < n && l[i] == ' ') i++;
      if (i + 4 < n && l[i] == '.' && l[i + 1] == 'd' && l[i + 2] == 'b' && l[i + 3] == ' ') { // data: a character in quotes or a number
        i += 4; for (int k = 0;; k++) { u8 v = 0; 
          if (i + 2 < n && l[i] == 39 && l[i + 2] == 39) { v = l[i + 1]; i += 3; } else if (i + 2 < n && l[i] == '$') { v = hexd(l[i + 1]) << 4 | hexd(l[i + 2]); i += 3; } else { fmt = 1; break; }
          if (at < n1) wrong |= v ^ o1[at]; at++; s_s(k ? "," : " .byte "); s_s("$"); s_hexb(&v, 1);
          if (i + 1 < n && l[i] == ',' && l[i + 1] == ' ') { i += 2; continue; }
          if (k + 1 != nb) fmt = 1; break; }
        s_s("\n"); }
      else { // an instruction
        s_s(" "); int k = 0; while (i < n && l[i] != ' ' && l[i] != '\n') { s_c(l[i++]); k++; } if (!k) fmt = 1;
        if (i + 1 < n && l[i] == ' ' && l[i + 1] != ' ' && l[i + 1] != '\n') { i++; s_s(" "); while (i < n && l[i] != ' ' && l[i] != '\n') s_c(l[i++]); }
        at += nb; s_s("\n"); } }
    while (i < n && l[i] != '\n') i++; i++; }
  vp_check(!fmt, "every line with bytes shows an instruction or as many values as bytes"); vp_check(at == n1, "the listing has every byte"); if (fmt | (at != n1)) vp_end_path();
  vp_check(wrong == 0, "the values shown are the bytes"); }
static void again(void) {
  asm_run(); vp_check(rc == 0, "the instructions shown are accepted"); if (rc) vp_end_path();
  vp_check(outn == n1, "size"); if (outn != n1) vp_end_path(); int bad = 0; for (long i = 0; i < n1; i++) bad |= out[i] ^ o1[i]; vp_check(bad == 0, "the instructions shown are those of the bytes"); vp_reach("end"); vp_end_path(); }
int vp_main(void) {
  stmt_files(); opt("-l"); opt("a.lst");
#ifdef INSTR
  int cfg = vp_choose(3, "processor"), cpu = cfg == 2 ? R_65C02 : R_6502, op = vp_choose(R_NOPS, "op"), f = vp_choose(NF, "form");
  if (cfg == 0 ? op >= R_NDOC : cfg == 1 ? op < R_NDOC || op >= R_NNMOS : op >= R_NDOC ? op < R_NNMOS : 0) vp_end_path();
  if (cfg == 1) opt("-i"); if (cfg == 2) opt("-65c02"); u16 v = sym16("v");
  if (f == F_IND && ref_op(cpu, op, R_ZPI) >= 0) vp_end_path(); // the known finding of C01
  if (ref_is_branch(cpu, op)) { if (f != F_V) vp_end_path(); u16 d = v - 0x1002 + 128; vp_assume(d < 256); } else { int z, a; z = enc(cpu, op, f, 1, &a); a = enc(cpu, op, f, 0, &a); if ((z < 0) & (a < 0)) vp_end_path(); if (z < 0) vp_assume(v > 255); if (a < 0) vp_assume(v < 256); }
  int place = vp_choose(2, "place"); s_s(" .org $1000\n"); if (place) { s_s(".macro mm\n"); form(op, f, v); s_s(".endm\n mm\n"); } else form(op, f, v); asm_run(); OK_RUN("an instruction"); program("", 0x1000); again();
#elif defined(NEGATIVE)
  static const char* const F[] = { " lda #", " sta ", " lda ", " ldx ", " jmp (", " lda (", " bne ", " .byte ", " .word ", " .fill ", " ldy #", " asl " }, *const G[] = { "", "", ",x", ",y", ")", "),y", "", "", "", ", 2", "", ",x" };
  int f = vp_choose(12, "form"), how = vp_choose(3, "notation"); u16 v = sym16("v"); int w = (how == 0 ? 0 : how == 1 ? 3 : 0x1001) - v; if ((f < 4) | (f == 11) | (f == 5)) vp_assume((w >= 0) | ((w & 0xFF00) != 0)); // an address in page zero by wrapping round is absolute
  s_s(" .org $1000\n nop\n"); s_s(F[f]); if (how == 0) s_s("-"); else if (how == 1) s_s("3-"); else s_s("*-"); h16(v); s_s(G[f]); s_s("\n nop\n"); asm_run(); if (rc) { vp_reach("refused"); vp_end_path(); } program("", 0x1000); again();
#elif defined(STRINGS)
  int d = vp_choose(4, "directive"), len = vp_choose(TIER ? 9 : 5, "length"), pos = vp_choose(TIER ? 3 : 2, "number"); u8 c = sym8("c"), b = sym8("b"); u16 w = sym16("w");
  s_s(" .org $2000\n"); s_s(d == 0 ? " .byte " : d == 1 ? " .word " : d == 2 ? " .str " : " .db "); if (pos == 1) { h8(b); s_s(", "); } s_s("\""); for (int i = 0; i < len; i++) { if (i == len - 1 || !i) { u8 x = i ? c : b; s_s("\\x"); s_hexb(&x, 1); } else s_c('A' + i); } s_s("\", "); vp_assume((c != 0) & (b != 0)); if (d == 1 || d == 2) h16(w); else h8((u8)w); if (pos == 2) s_s(", \"xy\\xFF\""); s_s("\n .fill "); h8(b); s_s(", 2\n .byte 9\n");
  asm_run(); OK_RUN("strings"); program("", 0x2000); again();
#else
  int k = vp_choose(NSTMT, "first"), l = TIER ? vp_choose(NSTMT, "second") : (k * 13 + 5) % NSTMT;
  s_s(" .org $1000\n"); stmt(k, 0); stmt(l, 1); s_s("last: nop\n"); s_n(tail_, tn); asm_run(); if (rc) { vp_reach("refused"); vp_end_path(); } program("", 0x1000); again();
#endif
}
