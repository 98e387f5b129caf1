// C32: comments, blank lines and white space between tokens never change the output.
#include "stmts.h"
#define NEXTRA 16
static void extra(int k) { u16 v = sym16("v"); switch (k) {
  case 0: s_s(".65c02 on\n stz "); h16(v); s_s("\n bra label\n.6502 on\n.illegal on\n lax "); h16(v); s_s("\n.illegal off\n"); break;
  case 1: s_s("* = $3000\n lda "); h16(v); s_s("\n"); break;
  case 2: s_s(".ifdef nowhere\n lda #1\n.if 1\n.endif\n.else\n lda "); h16(v); s_s("\n.endif\nlab2: jmp lab2\n"); break;
  case 3: s_s(".ifndef last\n lda "); h16(v); s_s("\n.else\n lda #2\n.endif\nlab3: jmp lab3\n"); break;
  case 4: s_s(" .var n = 1\n.repeat\n lda #n\nn = n + 1\n.until n == 3\n lda "); h16(v); s_s("\n"); break;
  case 5: s_s(" .var n = 1\n.do\n lda #n\nn = n + 1\n.while n < 3\n lda "); h16(v); s_s("\n"); break;
  case 6: s_s(".print off\n.warn off\n.print on\n.warn on\n lda "); h16(v); s_s("\n"); break;
  case 7: s_s(" .byte (1 + 2) * 3 - 4 / 2 << 1 | 5 & ~1 ^ 2, 3 == 4, 1 <> 2 || 0 && not 1, 2 >= 1, 3 <= 4, 5 != 5, 6 > 1, 64 >> 2\n .word 0 + ("); h16(v); s_s(" & $FFF) - $10 * -1\n"); break;
  case 8: s_s(".macro one\n lda \\1\n.endmacro\n.mac two\n one \\1 + 1\n one \\2\n.endm\n two 3 , "); h16(v); s_s("\n"); break;
  case 9: s_s(" .db 'a', ';', \"/*\", \"//;\"\n .dw "); h16(v); s_s("\n"); break;
  case 10: s_s("- dex\n bne -\n beq ++\n lda "); h16(v); s_s("\n+ nop\n+ nop\n"); break;
  case 11: s_s(" .var n\n.for n = 1 .to 4 .step 2\n.if n > 1\n lda #n\n.else\n ldx #n\n.endif\n.next n\n lda "); h16(v); s_s("\n"); break;
  case 12: s_s("five .equ 5\nsix = five + 1\n lda #six\n sta ( five ) , y\n sta ( five , x )\n jmp ( "); h16(v); s_s(" )\n"); break;
  case 13: s_s("g1: nop\n@a: bne @a\ng2: nop\n@a: bne @a\n lda "); h16(v); s_s("\n"); break;
  case 14: s_s(" asl a\n rol\n lda <last\n lda #>"); h16(v); s_s("\n .str \"a\\\"b\" , 1\n"); break;
  default: s_s(".for .regy = 3 .downto 1\n nop\n.next y\n.section aa\nlb: nop\n.section bb\nlc: nop\n.ends\n.endsection\n jmp aa.bb.lc\n lda "); h16(v); s_s("\n"); break; } }
// token boundaries of the text: 0 inside a line, 1 at a line start, 2 before a line end, 3 white space only
static int bp[512], bc[512], nb;
static int idc(int i) { char c = src[i]; if (hx_symat[i]) return 1; return ((c >= 'a') & (c <= 'z')) | ((c >= 'A') & (c <= 'Z')) | ((c >= '0') & (c <= '9')) | (c == '_') | (c == '.') | (c == '@') | (c == '$') | (c == '\\'); }
static int at(int i, const char* s) { for (; *s; s++, i++) if (hx_symat[i] | (src[i] != *s)) return 0; return 1; }
static void bound(int p, int c) { bp[nb] = p; bc[nb] = c; nb++; }
static void bounds(int from, int to) { int i = from, start = 1, only = 0; nb = 0;
  while (i < to) { 
    if (start) { bound(i, 1); start = 0; if (src[i] == '\n') { i++; start = 1; continue; } } 
    while ((src[i] == ' ') & !hx_symat[i]) i++;
    if ((src[i] == '\n') & !hx_symat[i]) { if (bc[nb - 1] == 1 || bp[nb - 1] != i) bound(i, 2); else bc[nb - 1] = 2; i++; start = 1; only = 0; continue; }
    if (bp[nb - 1] != i && !(nb && bc[nb - 1] == 1 && bp[nb - 1] == i)) bound(i, only ? 3 : 0); only = 0;
    if (idc(i)) { int b = i; if (at(b, ".ifdef") | at(b, ".ifndef") | at(b, ".65") | at(b, ".warn") | at(b, ".illegal") | at(b, ".print ")) only = 1; while (idc(i)) i++; if (src[i] == ':') i++; }
    else if (src[i] == '"') { i++; while (hx_symat[i] | (src[i] != '"')) i += src[i] == '\\' && !hx_symat[i] ? 2 : 1; i++; }
    else if (src[i] == '\'') { i += 3; }
    else if (at(i, "<<") | at(i, ">>") | at(i, "<=") | at(i, ">=") | at(i, "==") | at(i, "!=") | at(i, "<>") | at(i, "||") | at(i, "&&") | at(i, "++")) i += 2;
    else { if (at(i, "* =")) only = 1; i++; }
    if (src[i] != ' ' && src[i] != '\n' && i < to) { bound(i, only ? 3 : 0); }
  }
  bound(to, 1); }
static u8 o1[4096]; static long n1; static char base[8192]; static u8 base_s[8192]; static int bn;
static u8 ws(const char* n) { u8 b = sym8(n); vp_assume((b == ' ') | (b == '\t')); return b; }
static u8 anyc(const char* n) { if (!TIER && n[1] == '2') return '*'; u8 b = sym8(n); vp_assume(b != '\n'); return b; }
static void put_block(int lf) { u8 a = TIER ? sym8("c1") : '"', b = sym8("c2"); vp_assume(!((a == '*') & (b == '/'))); s_s("/*"); s_c(a); if (lf) s_s("\n"); s_c(b); s_s("*/"); }
// what may stand at a boundary
static void put(int kind) { switch (kind) {
  case 0: s_c(ws("w1")); s_c(ws("w2")); break;
  case 1: put_block(0); break;
  case 2: s_c(';'); s_c(anyc("c1")); s_c(anyc("c2")); break; // before a line end
  case 3: s_s("//"); s_c(anyc("c1")); s_c(anyc("c2")); break;
  case 4: s_c('\r'); break;
  case 5: s_s("\n"); break; // at a line start
  case 6: s_c(ws("w1")); s_s("\n"); break;
  case 7: s_c(ws("w1")); s_c(';'); s_c(anyc("c1")); s_c('\n'); break;
  case 8: put_block(1); s_s("\n"); break;
  case 9: s_s("/**/ "); break; } }
int vp_main(void) {
#ifdef ALL
  int k = vp_choose(NSTMT + NEXTRA, "statement"), all = vp_choose(10, "where everywhere");
#else
  int k = vp_choose(NSTMT + NEXTRA, "statement"), all = -1;
#endif
  stmt_files(); s_s(" .org $2000\nold = 5\nlabel: nop\n@l: nop\n"); int from = sn; if (k < NSTMT) stmt(k, 0); else extra(k - NSTMT); int to = sn;
  s_s("last: rts\n"); s_n(tail_, tn);
  memcpy(base, src, sn); bn = sn; 
#ifdef ALL
  from = 0; to = sn;
#endif
  bounds(from, to); asm_run(); if ((k == 39) & (rc != 0)) vp_end_path(); OK_RUN("the plain text"); n1 = outn; for (int i = 0; i < n1; i++) o1[i] = out[i];
  int w = -1, kind = all; 
  if (all < 0) { w = vp_choose(nb, "boundary"); int c = bc[w];
    static const int K0[] = { 0, 1 }, K1[] = { 0, 1, 5, 6, 7, 8 }, K2[] = { 0, 1, 2, 3, 4 };
    kind = c == 0 ? K0[vp_choose(2, "insert")] : c == 1 ? K1[vp_choose(6, "insert")] : c == 2 ? K2[vp_choose(5, "insert")] : 0; }
  sn = 0; int p = 0; for (int i = 0; i < nb; i++) {
    s_n(base + p, bp[i] - p); p = bp[i]; 
    if (w >= 0 ? w != i : (bc[i] == 3) ? kind != 0 : kind <= 1 || kind == 9 ? 0 : kind <= 4 ? bc[i] != 2 : bc[i] != 1) continue;
    if (all >= 0 && (kind == 1 || kind == 9) && (i & 1)) continue; // comments do not stand at every token
    if (all < 0) put(kind); else switch (kind) { case 0: s_s(" \t "); break; case 1: s_s("/*x*/"); break; case 2: s_s(" ; .endif \" '"); break; case 3: s_s("//.endm /*"); break; case 4: s_s("\r"); break; case 5: s_s("\n\n"); break; case 6: s_s(" \t\n"); break; case 7: s_s("; .if 1 */\n"); break; case 8: s_s("/* .if\n*/\n"); break; default: s_s(" /**/"); } }
  s_n(base + p, bn - p);
  asm_run(); OK_RUN("comments and white space added"); vp_check(outn == n1, "as many bytes"); if (outn != n1) vp_end_path();
  int bad = 0; for (int i = 0; i < n1; i++) bad |= out[i] ^ o1[i]; vp_check(bad == 0, "the same bytes"); vp_reach("end"); vp_end_path(); return 0; }
