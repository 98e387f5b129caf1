// C29: no source text makes the assembler access invalid memory.  The engine checks every access of the program.
#include "hx.h"
#ifdef CUT // one symbolic digit, so that the names that come of it are few
static u8 low8(const char* n) { u8 v = sym8(n); vp_assume(v < 16); return v; }
static u16 low16(const char* n) { u16 v = sym16(n); vp_assume((v & ~0xFu) == 0x120); return v; }
#define sym8 low8
#define sym16 low16
#endif
#include "stmts.h"
static void opts(int o) { if (o & 1) { opt("-v"); } if (o & 2) { opt("-l"); opt("a.lst"); opt("-s"); opt("a.sym"); } if (o & 4) { opt("-log"); opt("a.log"); } if (o & 8) { opt("-65c02"); opt("-i"); } }
static void done(void) { asm_run(); vp_check((rc == 0) | (rc == 255), "the assembler ends with a status"); if (rc) vp_reach("refused"); else vp_reach("accepted"); vp_end_path(); }
#if defined(TOKENS)
static const char* const T[] = { "\n", " lda", " #", " $12", " 300", " foo", " foo:", "\nfoo:", " @loc", " -", "+", "\n+", "\n-", "\\1", " (", " )", ",x", ",y", ",", " <", " >", " *", " =", " ==", " &&", " |", " ~", " '", "\"", " \"ab\"", " 'a'",
  "\n.if", "\n.ifdef", "\n.ifndef", "\n.else\n", "\n.endif\n", "\n.macro mm\n", "\n.endm\n", " mm", "\n.for", " .regx", " .to", " .downto", " .step", "\n.next", "\n.repeat\n", "\n.until", "\n.while", "\n.wend\n", "\n.do\n", "\n.section ss\n", "\n.ends\n", "\n.var", " .byte", " .word", " .str", " .fill", " .ds", " .org", " .inc", " .load", " .print on\n", " .end\n", " bne", " nop\n", " asl", " a\n", ";", "/*", "*/", "//", " ss.foo", "?", "??", "!", "\n.65c02\n", "\n.c64\n", "\n*=", " jmp", "\x80", "`", "{", "}", "[", "]" };
enum { NT = sizeof T / sizeof *T };
int vp_main(void) {
  int a = vp_choose(NT, "a"), b = vp_choose(NT, "b"), c = TIER ? vp_choose(NT, "c") : (a * 31 + b * 17 + 23 * vp_choose(2, "c")) % NT, d = (a * 7 + b * 29 + c * 13) % NT, e = (a + b + c) % NT, pre = (a + 2 * b + c) % 3;
  { int t[5] = { a, b, c, d, e }, loop = 0, sect = 0; for (int i = 0; i < 5; i++) { loop |= !strncmp(T[t[i]], "\n.while", 7) || !strncmp(T[t[i]], "\n.repeat", 8) || !strncmp(T[t[i]], "\n.do\n", 5); sect |= !strncmp(T[t[i]], "\n.section", 9); } if (loop && sect) vp_end_path(); } // an endless loop of sections grows a name a million times
  stmt_files(); opts((a + b) & 15);
  if (pre == 1) s_s("foo = 1\n"); if (pre == 2) s_s(".macro mm\n lda \\1\n.endm\n");
  s_s(T[a]); s_s(T[b]); s_s(T[c]); s_s(T[d]); s_s(T[e]); if ((a ^ b) & 1) s_s("\n"); if (pre == 0) s_s("\nfoo: nop\n");
  done(); }
#elif defined(CUT)
int vp_main(void) { // a valid program cut off anywhere, or with a character missing
  int k = vp_choose(NSTMT, "statement"), at = vp_choose(120, "position"), how = vp_choose(3, "how");
  stmt_files(); opts((k + at) & 7); stmt(k, 0); s_s(" .section s\n nop\n .ends\nlast: nop\n"); s_n(tail_, tn);
  if (at >= sn) vp_end_path();
  if (how == 0) sn = at; else if (how == 1) { memmove(src + at, src + at + 1, sn - at - 1); sn--; } else { char c = src[at]; memmove(src + at + 1, src + at, sn - at); sn++; (void)c; }
  done(); }
#elif defined(LONG)
static const int LEN[] = { 1, 15, 16, 23, 24, 25, 26, 27, 31, 32, 63, 64, 65, 127, 128, 129, 254, 255, 256, 257, 1023, 1024, 2040, 2046, 2047, 2048, 2049, 4094, 4095, 4096, 4097, 5000 };
enum { NL = sizeof LEN / sizeof *LEN };
static void rep(char c, int n) { while (n--) s_c(c); }
int vp_main(void) {
  int what = vp_choose(34, "what"), l = LEN[vp_choose(NL, "length")], o = vp_choose(3, "options"); stmt_files(); opts(o == 2 ? 7 : o); u8 b = sym8("b");
  if (what >= 16 && what < 26 && l > 300) vp_end_path();
  switch (what) {
    case 0: rep('a', l); s_s("b = 1\n .word "); rep('a', l); s_s("b\n"); break;
    case 1: s_s(" .byte \""); rep('q', l); s_c(b & 1 ? 'x' : 'y'); s_s("\"\n"); break;
    case 2: s_s(" .word \""); rep('q', l); s_s("\"\n"); break;
    case 3: s_s(" .str \""); rep('q', l); s_s("\"\n"); break;
    case 4: s_s(" lda #1 ;"); rep('c', l); s_s("\n"); break;
    case 5: s_s(" .byte $"); rep('0', l); s_s("1\n"); break;
    case 6: s_s(" .byte %"); rep('0', l); s_s("1\n"); break;
    case 7: s_s(" .byte "); rep('0', l); s_s("1\n"); break;
    case 8: s_s(" nop"); rep(' ', l); s_s("\n"); break;
    case 9: s_s("/*"); rep('*', l); s_s("*/ nop\n"); break;
    case 10: s_s(".macro "); rep('m', l); s_s("\n lda \\1\n.endm\n "); rep('m', l); s_s(" 5\n"); break;
    case 11: s_s(" .section "); rep('s', l); s_s("\nin: nop\n .ends\n .word "); rep('s', l); s_s(".in\n"); break;
    case 12: s_s(" .inc \""); rep('f', l); s_s("\"\n"); break;
    case 13: s_s(" .load \""); rep('f', l); s_s("\"\n"); break;
    case 14: s_s(" lda undef"); rep('u', l); s_s("\n"); break;
    case 15: s_s(".ifdef "); rep('u', l); s_s("\n nop\n.else\n"); rep('x', l); s_s("\n.endif\n nop\n"); break;
    case 16: s_s("lab: nop\n@"); rep('l', l); s_s(" nop\n bne @"); rep('l', l); s_s("\n"); break;
    case 17: s_s(" lda #"); rep('(', l); s_s("1"); rep(')', l); s_s("\n"); break;
    case 18: s_s(" .word 1"); for (int i = 0; i < l; i++) s_s("+1"); s_s("\n"); break;
    case 19: s_s(" .byte 1"); for (int i = 0; i < l; i++) s_s(",1"); s_s("\n"); break;
    case 20: for (int i = 0; i < (l > 130 ? 130 : l); i++) s_s(".if 1\n"); s_s(" nop\n"); for (int i = 0; i < (l > 130 ? 130 : l); i++) s_s(".endif\n"); break;
    case 21: s_s(".macro mm\n .byte \\1\n.endm\n mm 1"); for (int i = 0; i < l; i++) s_s(",1"); s_s("\n"); break;
    case 22: for (int i = 0; i < (l > 130 ? 130 : l); i++) s_s("- nop\n"); s_s(" bne "); rep('-', l); s_s("\n"); break;
    case 23: s_s(" bne "); rep('+', l); s_s("\n"); for (int i = 0; i < (l > 130 ? 130 : l); i++) s_s("+ nop\n"); break;
    case 24: s_s(".macro mm\n .byte \\"); rep('1', l); s_s("\n.endm\n mm 1\n"); break;
    case 25: for (int i = 0; i < (l > 60 ? 60 : l); i++) s_s(".ifdef aa\n"); s_s(" nop\n"); for (int i = 0; i < (l > 60 ? 60 : l); i++) s_s(".endif\n"); s_s(" nop\n"); break;
    default: { // search directories and names of files about as long as the path may be
      static char dir[12000]; int k = 0, form = what - 26, x = vp_choose(9, "name"), n = x == 0 ? 2 : x == 1 ? 200 : 4096 - 6 + x - l; if (n < 1) vp_end_path(); if (form & 1) { strcpy(dir, "ee;"); k = 3; } for (int i = 0; i < l; i++) dir[k++] = i % 50 == 49 ? '/' : 'd'; if (form & 2) { strcpy(dir + k, "; ff"); k += 4; } dir[k] = 0; opt("-dir"); opt(dir);
      s_s(form & 4 ? " .load \"" : " .inc \""); rep('f', n); s_s("\"\n nop\n"); break; }
  }
  done(); }
#else
static const char* const C[] = { "%", " %", " lda %\n", " lda #%\n", " lda (%\n", " lda %,x\n", " .byte %\n", " .byte \"%\"\n", " .byte \"\\%\"\n", " .byte '%\n", " .word \"%\", 1\n", " .str %\n", ".if %\n nop\n.endif\n", ".ifdef %\n nop\n.endif\n", ".ifdef zz\n%\n.endif\n nop\n", ".%\n", "a% = 1\n", "%a: nop\n bne %a\n", "aa %\n", ".macro %\n nop\n.endm\n", ".macro mm\n lda \\%\n.endm\n mm 1,2\n", ".macro mm\n lda \\1\n.endm\n mm %\n", ".for %\n", ".var i\n.for i=%\n nop\n.next i\n", " .section %\n nop\n .ends\n", " .org %\n", " .fill %\n", " .ds %\n", " .inc \"%\"\n", " .load \"%\n", "/*%*/\n", ";%\n nop\n", "$%\n", " lda $%\n", " lda 1%\n", " lda #1 %\n", ".repeat\n nop\n.until %\n", ".while %\n nop\n.wend\n", "l1: nop\n@%: nop\n bne @%\n", " .word 1%2\n", " bne %\n", "%%" };
enum { NC = sizeof C / sizeof *C };
int vp_main(void) {
  int k = vp_choose(NC, "context"), n = TIER ? 2 + (k % 4 == 0 && k != 16) : 1 + (k % 3 != 1), end = vp_choose(2, "end"); static u8 h[4]; sym(h, n, "text"); stmt_files();
  if (n > 1) for (int i = 0; i < n; i++) { u8 l = h[i] | 32; vp_assume((l < 'a') | (l > 'z') | (l == 'a') | (l == 'x') | (l == 'b')); vp_assume((h[i] < '2') | (h[i] > '8')); } opts(k & 15);
  for (const char* p = C[k]; *p; p++) if (*p == '%') s_n(h, n); else s_c(*p);
  if (end) { while (sn && src[sn - 1] == '\n') sn--; } else s_s(" nop\n");
  done(); }
#endif
