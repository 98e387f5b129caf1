// statements of every kind with symbolic operands; used in pairs and in every position
#pragma once
#include "hx.h"
static char tail_[2048]; static int tn; // definitions that follow the program
static void t_s(const char* s) { while (*s) tail_[tn++] = *s++; }
static void t_hex(u16 v) { u8 b[2] = { (u8)v, (u8)(v >> 8) }; for (int i = 2; i-- > 0;) { tail_[tn++] = hx_up[b[i] >> 4]; tail_[tn++] = hx_up[b[i] & 15]; } }
static void h16(u16 v) { u8 b[2] = { (u8)v, (u8)(v >> 8) }; s_s("$"); s_hexb(b, 2); }
static void h8(u8 v) { s_s("$"); s_hexb(&v, 1); }
static void nm(const char* p, int i) { s_s(p); s_c('a' + i); }
static void t_def(const char* p, int i, u16 v) { t_s(p); tail_[tn++] = 'a' + i; t_s(" = $"); t_hex(v); t_s("\n"); }
#define NSTMT 40
static void stmt(int k, int i) { // i: a letter that keeps names apart; every line ends with a newline; "last" is a label behind the program
  u16 v; u8 b;
  switch (k) {
    case 0: s_s(" lda #"); h8(sym8("b")); s_s("\n"); break;
    case 1: s_s(" lda "); h16(sym16("v")); s_s("\n"); break;
    case 2: v = sym16("v"); s_s(" .var "); nm("va", i); s_s(" = "); h16(v); s_s("\n sta "); nm("va", i); s_s(",x\n"); break;
    case 3: v = sym16("v"); s_s(" lda "); nm("fw", i); s_s("\n"); t_def("fw", i, v); break;
    case 4: s_s(" lda last\n"); break;
    case 5: v = sym16("v"); s_s(" sta "); nm("fw", i); s_s(",x\n"); t_def("fw", i, v); break;
    case 6: v = sym16("v"); s_s(" ldx "); nm("fw", i); s_s(",y\n"); t_def("fw", i, v); break;
    case 7: v = sym8("v"); s_s(" lda ("); nm("fw", i); s_s("),y\n"); t_def("fw", i, v); break;
    case 8: v = sym8("v"); s_s(" lda ("); nm("fw", i); s_s(",x)\n"); t_def("fw", i, v); break;
    case 9: v = sym16("v"); s_s(" jmp ("); nm("fw", i); s_s(")\n"); t_def("fw", i, v); break;
    case 10: v = sym8("v"); s_s(" .byte "); nm("fw", i); s_s(", 1\n"); t_def("fw", i, v); break;
    case 11: v = sym16("v"); s_s(" .word "); nm("fw", i); s_s(", last\n"); t_def("fw", i, v); break;
    case 12: v = sym16("v"); s_s(" .str "); nm("fw", i); s_s("\n"); t_def("fw", i, v); break;
    case 13: s_s(" .str "); h16(sym16("v")); s_s(", \"xyz\"\n"); break;
    case 14: s_s(" .byte \"ab\\x"); b = sym8("b"); s_hexb(&b, 1); s_s("\", 'q'\n"); break;
    case 15: s_s(" .word \"abc\", \"de\", "); h16(sym16("v")); s_s("\n"); break;
    case 16: b = sym8("b"); vp_assume(b < 4); s_s(" .fill 7, "); h8(b); s_s("\n"); break;
    case 17: b = sym8("b"); vp_assume(b < 4); s_s(" .fill 7, "); nm("fw", i); s_s("\n"); t_def("fw", i, b); break;
    case 18: b = sym8("b"); vp_assume(b < 4); s_s(" .var "); nm("lv", i); s_s("\n.for "); nm("lv", i); s_s("=1 .to "); h8(b); s_s("\n lda "); nm("lv", i); s_s("*100\n.next "); nm("lv", i); s_s("\n"); break;
    case 19: v = sym16("v"); s_s(".if "); h16(v); s_s(" > 300\n nop\n.else\n lda "); h16(v); s_s("\n.endif\n"); break;
    case 20: s_s(".macro "); nm("mac", i); s_s("\n lda \\1\n sta \\2,x\n.endm\n "); nm("mac", i); s_s(" "); h16(sym16("v")); s_s(", last\n"); break;
    case 21: s_s(" bne "); h16(sym16("v")); s_s("\n"); break;
    case 22: s_s(" beq last\n"); break;
    case 23: s_s(" .load \"bin\"\n"); break;
    case 24: s_s(" .inc \"part\"\n"); break;
    case 25: s_s(" .section sec"); s_c('a' + i); s_s("\nin: lda in\n lda #<in\n .ends\n"); break;
    case 26: s_s(".ifdef last\n nop\n.endif\n"); break;
    case 27: s_s(" lda *+"); h8(sym8("b")); s_s("\n"); break;
    case 28: s_s(" lda #<last\n ldx #>last\n jsr last\n"); break;
    case 29: nm("pa", i); s_s(":\n lda "); h16(sym16("v")); s_s("\n"); nm("pb", i); s_s(":\n .fill 3, "); nm("pb", i); s_s(" - "); nm("pa", i); s_s("\n"); break;
    case 30: b = sym8("b"); vp_assume((b > 0) & (b < 200)); s_s(".for .regx = 0 .to "); h8(b); s_s("\n sta "); h16(sym16("v")); s_s(",x\n.next x\n"); break;
    case 31: s_s(" .word * - last + "); h16(sym16("v")); s_s(" & $FFF\n"); break;
    case 32: v = sym16("v"); s_s(" lda "); nm("fw", i); s_s(" + 1\n"); vp_assume(v < 0xFFFF); t_def("fw", i, v); break;
    case 33: s_s(" .byte <last, >last\n"); break;
    case 34: nm("pa", i); s_s(": dex\n bne "); nm("pa", i); s_s("\n"); break;
    case 35: s_s(" bne +\n lda "); h16(sym16("v")); s_s("\n+ nop\n"); break;
    case 36: v = sym16("v"); s_s(" cmp #<"); nm("fw", i); s_s("\n cpx #>"); nm("fw", i); s_s("\n"); t_def("fw", i, v); break;
    case 37: v = sym16("v"); s_s(" stx "); h16(v); s_s(",y\n"); vp_assume(v < 256); break;
    case 38: b = sym8("b"); s_s(" .var "); nm("lv", i); s_s(" = 0\n.while "); nm("lv", i); s_s(" < ("); h8(b); s_s(" & 3)\n inc $1234\n"); nm("lv", i); s_s(" = "); nm("lv", i); s_s(" + 1\n.wend\n"); break;
    case 39: v = sym16("v"); vp_assume(v < 0xE000); s_s(" .word "); h16(v); s_s(" + last\n"); break;
  } }
static void stmt_files(void) { static u8 d[5]; for (int i = 0; i < 5; i++) d[i] = 0x41 + i; vp_file("bin", d, 5); vp_file("part", " lda #1\nfoo = last\n .byte 2\n", 28); }
