// C18: the letter case of mnemonics, directives, register names, hexadecimal digits and symbol names does not matter.
#include "stmts.h"
#include "ref6502.h"
static u8 first[1024]; static long firstn; static int firstrc;
// every letter outside strings, quoted characters and comments becomes a letter of either case
static void any_case(void) {
  int q = 0; static u8 L[SRCMAX]; int n = 0, w = 0;
  for (int i = 0; i < sn; i++) { char c = src[i]; if (q) { if (c == '\\') i++; else if (c == q) q = 0; continue; } if (hx_symat[i]) continue; if (c == '"' || c == '\'') { q = c; continue; } if (c == ';') { while (src[i] != '\n') i++; continue; } if ((c | 32) >= 'a' && (c | 32) <= 'z') n++; }
  sym(L, n, "case"); q = 0;
  for (int i = 0; i < sn; i++) { char c = src[i]; if (q) { if (c == '\\') i++; else if (c == q) q = 0; continue; } if (hx_symat[i]) continue; if (c == '"' || c == '\'') { q = c; continue; } if (c == ';') { while (src[i] != '\n') i++; continue; } if ((c | 32) >= 'a' && (c | 32) <= 'z') { vp_assume((L[w] == (u8)(c | 32)) | (L[w] == (u8)(c & ~32))); src[i] = L[w++]; } } }
static const char* const KINDS[] = {
  "foo: lda foo\nbar = $12\n sta bar,x\n ldx bar,y\n adc (bar),y\n adc (bar,x)\n jmp (foo)\n asl a\n lda #'q'\n lda #'\\x4b'\n",
  " .byte $ab,$c,0b101\n .db $ef\n .word foo, foo.bar\n .dw $CdeF\n .dcw 2\n .str \"aBc\"\n .text \"DeF\"\n .string \"gH\"\nfoo:\n .section foo\nbar: .ends\n .fill $a, $b\n",
  " .equ1 = 1\n", // not a directive: refused in either case
  " .var vAr, w2=$b, zq\nzQ = zq + w2 * 2\n .word zq, w2\n .for vaR = 1 .to 3 .step 2\n .byte var\n .next VAr\n .for zq=3 .to 1 .step -(1)\n nop\n .next zq\n",
  " .var i1\n .repeat\n .byte i1\ni1 = i1 + 1\n .until i1 > 3\n .do\n inx\ni1=i1-1\n .while i1\n .while i1 < 2\n iny\ni1 = i1 + 1\n .wend\n",
  ".macro mac\n lda \\1\n@loc\n jmp @loc\n.endm\n.mac mc2\n sta \\2,x\n mac \\1\n.endmacro\n mac $ab\n mc2 foo,$CD\nfoo:\n@xy: bne @xy\n",
  ".for .regx = 1 .to $a\n sta $1234,x\n.next x\n.for .regy = 9 .downto 1\n sta $1234,y\n.next y\n",
  ".if not (1 == $b)\n nop\n.else\n inx\n.endif\n.ifdef foo\n inx\n.endif\nfoo = 1\n.ifdef foo\n iny\n.else\n dey\n.endif\n.ifndef foo\n dex\n.endif\n.ifndef zed\n pha\n.else\n pla\n.endif\n",
  " .org $c0de\n .print on\n nop\n .print off\n .ds $b\n* = $c100\n nop\n*.equ $c200\n nop\nfoo .equ 3\n .byte foo\n .warn off\n .warn on\n .end\n lda zz\n",
  " .c64\n .65c02 on\n stz $ab\n bra foo\n .6502 on\n .illegal on\n lax ($ab),y\n .illegal off\nfoo:\n rts\n .load \"bin\"\n .inc \"part\"\nlast:\n",
  " .section sec1\nname = $1a\n .sect sub\nname = $2b\n .word name, sec1.name, Sec1.Sub.Name\n .endsection\n .word name\n .ends\n .word sec1.name\nname:\n .word name\n",
  ".ifdef nothing\n .if 1\n .else\n .endif\n bad bad\n .ifndef x\n .endif\n.else\n nop\n.endif\n.ifndef nothing\n .if 0\n inx\n .else\n iny\n .endif\n.endif\n",
};
#define NK (int)(sizeof KINDS / sizeof *KINDS)
#ifndef NSTMTS
#define NSTMTS NSTMT
#endif
int vp_main(void) {
  int defopt = 0;
#ifdef OPS
  int op = vp_choose(R_NOPS, "op"); // every mnemonic, in every form it is spelled in
  opt("-65c02"); opt("-i"); s_s(" .org $1000\nTgt:\n ."); s_s(vp_choose(2, "cpu") ? "65c02 on\n .illegal on\n" : "6502 on\n .illegal on\n"); int f = vp_choose(7, "form");
  s_s(" "); s_s(r_name[op]); static const char* const F[] = { "", " #$ab", " tgt", " $cd,x", " ($ef),y", " (tGt)", " a" }; s_s(F[f]); s_s("\n");
#elif defined(KIND)
  int k = vp_choose(NK, "kind"); stmt_files(); s_s(KINDS[k]);
#else
  int k = vp_choose(NSTMTS, "statement"); stmt_files(); s_s(" .org $1000\n"); stmt(k, 0); s_s("last: nop\n"); s_n(tail_, tn); if (k == 39) { opt("-d"); opt("dummy"); opt("1"); }
#endif
  asm_run(); firstrc = rc; firstn = outn; if (outn > 0) memcpy(first, out, outn); 
  any_case(); asm_run();
  vp_check(rc == firstrc, "the letter case does not decide whether a program is accepted"); if (firstrc == 0) vp_reach("accepted"); else vp_reach("refused");
  if (rc) vp_end_path(); vp_check(outn == firstn, "the letter case does not change the size"); if (outn != firstn) vp_end_path();
  for (long i = 0; i < outn; i++) vp_check(out[i] == first[i], "the letter case does not change the bytes");
  vp_reach("end"); vp_end_path(); }
