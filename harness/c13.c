// C13: undefined symbols and reported errors fail the assembly; programs without errors succeed.
#include "stmts.h"
static const char* const C[] = { " lda #%\n", " lda %\n", " sta %,x\n", " ldx %,y\n", " jmp (%)\n", " lda (%),y\n", " lda (%,x)\n", " lda %+1\n", " lda 1+%\n", " lda #<%\n", " ldx #>%\n", " jsr %\n",
  " .byte <%\n", " .byte 1, <%\n", " .word %\n", " .word 7, %-1, 2\n", " .str <%\n", " .fill <%, 2\n", " .fill 1, % & 1\n", ".if %\n nop\n.endif\n", ".macro m\n lda \\1\n.endm\n m %\n", "e = %\n", "e = %\n .word e\n", " .var e = %\n", " .word e\n .var e = %+1\n",
  ".var i\n.for i = 1 .to % & 1\n nop\n.next i\n", ".while % & 0\n nop\n.wend\n", " .section s\n lda %\n .ends\n", " .word 1 && %\n", ".repeat\n nop\n.until % | 1\n", " bne % - * + * - %\n", " .inc \"part2\"\n", ".if 1\n .word %\n.else\n nop\n.endif\n", " .byte ~% & 1\n", " lda #(<%)+1\n", " .ds % & 0\n", " cmp %*2\n", ".for .regx = 0 .to % & 3 | 4\n nop\n.next x\n" };
#define NC ((int)(sizeof C / sizeof *C))
#ifdef NAMES
// the program defines qaa, Qb2 and q_c (as constant, label and variable); a reference to any name is accepted exactly when it is one of them, whatever the case
static u8 lo(u8 c) { return c | (u8)(((c >= 'A') & (c <= 'Z')) << 5); }
int vp_main(void) {
  int k = vp_choose(NC, "context"), before = vp_choose(2, "order"); u8 s = sym8("name"), t = TIER ? "a2c"[vp_choose(3, "last")] : 'a';
  vp_assume(((s >= 'a') & (s <= 'z')) | ((s >= 'A') & (s <= 'Z')) | ((s >= '0') & (s <= '9')) | (s == '_'));
  int d0 = (lo(s) == 'a') & (t == 'a'), d1 = (lo(s) == 'b') & (t == 'a'), d2 = (s == '_') & (t == 'a'); int def = d0 | d1 | d2;
  char n[4] = { 'q', s, t, 0 }; static const char D[] = "qaa = $41\nQba: nop\n .var q_a = 3\n";
  s_s(" .org $50\n"); if (before) s_s(D);
  for (const char* p = C[k]; *p; p++) if (*p == '%') s_n(n, 3); else s_c(*p);
  if (!before) s_s(D);
  { static char f[32]; int l = 0; const char* a = " lda "; while (*a) f[l++] = *a++; memcpy(f + l, n, 3); l += 3; f[l++] = '\n'; vp_file("part2", f, l); }
  if (!before) vp_assume(!d2); // variables change as the program goes on, so a reference before the definition has no settled value
  asm_run(); if (def) vp_reach("defined"); else vp_reach("undefined");
  if (def) vp_check(rc == 0, "a reference to a defined symbol is accepted"); else vp_check(rc != 0, "a reference to an undefined symbol fails the assembly");
  vp_end_path(); }
#elif defined(HASH)
// whatever the place of the name in the tables: the only undefined symbol is found, and once it is defined nothing else is missing
int vp_main(void) {
  int k = vp_choose(TIER ? 65536 : 8192, "name"), def = vp_choose(2, "defined"); if (def & ((k & (TIER ? 3 : 15)) != 0)) vp_end_path(); u16 v = sym16("value"); vp_assume(v >= 0x100);
  char n[6] = { 'q', 'a' + (k & 15), 'a' + (k >> 4 & 15), 'a' + (k >> 8 & 15), 0, 0 }; if (k >> 12) n[4] = 'a' + (k >> 12) - 1;
  s_s(" .org $1000\n"); if (def) { s_s(n); s_s(" = "); h16(v); s_s("\n"); } s_s(k & 1 ? " .word " : " lda "); s_s(n); s_s("\n rts\n");
  asm_run();
  if (def) { vp_check(rc == 0, "a program with its only symbol defined is accepted"); if (rc == 0) { int o = k & 1 ? 0 : 1; if (outn == 3 + o) vp_check((out[o] == (u8)v) & (out[o + 1] == v >> 8), "its value"); else vp_check(0, "its bytes"); } vp_reach("defined"); }
  else { vp_check(rc != 0, "the only undefined symbol fails the assembly"); vp_reach("undefined"); }
  vp_end_path(); }
#elif defined(ERRS)
static const char* const E[] = { " lda (1\n", " )(\n", ".if 1\n nop\n", ".macro mm\n nop\n", ".endif\n", ".endm\n", ".next v\n", " .ends\n", ".else\n", " .inc \"nofile\"\n", " .load \"nofile\"\n", " jmp #1\n", " .byte 300\n", " .byte a\n", " lda #A\n", " bne a\n", " .byte 1/0\n", " .org $2000\n", " lda @nolocal\n", " bne -\n", " bne ++++\n", " bne ----\n", " mm2 1\n",
  " .byte \"abc\n", " lda #'a\n", " lda #`\n", " sta #1\n", " inx #2\n", " slo $12\n", " stz $12\n", " .byte\n", " .word ,\n", " .fill\n", " lda #1,x\n", " .byte 1,,2\n", " lda $12,z\n", " .word $12345\n", " .word 70000 - 1, 2\n", " lda $123456\n", " .byte 1 +\n", "dup1: nop\ndup1: nop\n", "dup2 = 1\n .word dup2\ndup2 = 2\n", " .var\n", ".for\n", " .section\n", " .macro\n", " .ds -1\n nop\n", "9abc: nop\n", ".while 1\n", ".repeat\n nop\n", ".do\n nop\n", " .byte \"\\q\"\n", " bne 5 5\n", " lda a1 b1\n", " .nosuch\n", " .str 1 2\n", "lab2: lab3: lab4:\n lda lab5\n" };
#define NE ((int)(sizeof E / sizeof *E))
int vp_main(void) {
  int k = vp_choose(NE, "error"), where = vp_choose(4, "where"), how = vp_choose(TIER ? 5 : 3, "options");
  if (how == 1) { opt("-v"); opt("-l"); opt("a.lst"); } if (how == 2) { opt("-s"); opt("a.sym"); opt("-nowarn"); } if (how == 3) { opt("-log"); opt("a.log"); } if (how == 4) opt("-c64");
  s_s(" .org $1000\n"); u16 v = sym16("v");
  if (where == 3) { vp_file("bad", E[k], strlen(E[k])); s_s(" .inc \"bad\"\n"); }
  if (where == 1 || where == 2) { s_s(" lda "); h16(v); s_s("\n"); }
  if (where != 3) s_s(E[k]);
  if (where == 0 || where == 2) { s_s(" .word "); h16(v); s_s("\n"); }
  asm_run();
  vp_check(rc != 0, "a program with an error fails"); vp_reach("end"); vp_end_path(); }
#else
// one arbitrary byte replaces or enters a good line: a reported error fails the assembly, and success leaves an output file
static const char* const G[] = { " lda #1\n", "foo: nop\n", " .byte 1, \"ab\"\n", "k = 3\n", " jmp (vec)\n", ".if 1\n", " .word 'a', *\n", " sta $12,x\n", " .fill 1, 2\n" };
int vp_main(void) {
  int k = vp_choose(9, "line"), n = (int)strlen(G[k]), pos = vp_choose(TIER ? n : n, "position"), ins = vp_choose(2, "insert"); u8 c = sym8("c"); vp_assume(c != 0); if (!TIER && (pos + k) % 2) vp_end_path();
  vp_capture_stderr();
  s_s(" .org $1000\nvec = $20\n"); for (int i = 0; i < n; i++) { if (i == pos) { s_c(c); if (ins) s_c(G[k][i]); } else s_c(G[k][i]); }
  s_s(" nop\n"); if (k == 5) s_s(".endif\n"); s_s(" rts\n");
  asm_run();
  // warnings, and only they, are printed without a count at the end; every message is an error here
  if (vp_file_size("stderr") > 0) { vp_check(rc != 0, "a reported error fails the assembly"); vp_reach("refused"); }
  else { vp_check(rc == 0, "no failure without a reported error"); vp_check(outn >= 1, "output written"); vp_reach("accepted"); }
  vp_end_path(); }
#endif
