// C15: origin, address assignment, reserved storage.
#include "stmts.h"
static void lohi(u16 v, int i, const char* m) { vp_check((out[i] == (u8)v) & (out[i + 1] == v >> 8), m); }
static void org(int k, u16 v) { if (k == 0) { s_s(" .org "); h16(v); s_s("\n"); } if (k == 1) { s_s("* = "); h16(v); s_s("\n"); } if (k == 2) { s_s(" .org orgsym\n"); t_s("orgsym = $"); t_hex(v); t_s("\n"); } if (k == 3) { s_s("*.equ "); h16(v); s_s("\n"); } if (k == 4) { s_s("oo = "); h16(v); s_s("\n*=oo\n"); } }
static void space(int k, u16 n) { if (k == 0) { s_s(" .ds "); h16(n); s_s("\n"); } if (k == 1) { s_s(" .ds space\n"); t_s("space = $"); t_hex(n); t_s("\n"); } if (k == 2) { s_s("spb = "); h16(n); s_s("\n .ds spb\n"); } if (k == 3) { s_s(" .ds ("); h16(n); s_s(" + 1) - 1\n"); } }
int vp_main(void) {
  int shape = vp_choose(7, "shape"); u16 v = sym16("v"), w = sym16("w"); u8 b = sym8("b");
  if (shape == 0) { // an origin
    int k = vp_choose(5, "how"), f = vp_choose(2, "first"); vp_assume(v <= 0xFFF0); if (f) s_s("pre = $11\n\n; remark\n"); org(k, v);
    s_s("s0: .word s0, *, s1, s2\ns1: lda #$"); s_hexb(&b, 1); s_s("\ns2: .byte <*, >*\n"); s_n(tail_, tn); asm_run(); OK_RUN("origin"); vp_check(outn == 12, "size"); if (outn != 12) vp_end_path();
    lohi(v, 0, "the first byte is at the origin"); lohi(v + 2, 2, "address counter"); lohi(v + 8, 4, "second label"); lohi(v + 10, 6, "third label"); vp_check((out[8] == 0xA9) & (out[9] == b), "instruction"); vp_check((out[10] == (u8)(v + 10)) & (out[11] == (u8)((u16)(v + 11) >> 8)), "address counter in a list"); }
  else if (shape == 1) { // a second origin
    int k = vp_choose(2, "how") ? 2 : 0, m = vp_choose(3, "between"); vp_assume((v <= 0xFF00) & (w <= 0xFF00) & (v != w)); org(k, v); if (m == 1) s_s(" nop\n"); if (m == 2) s_s(" .byte 1\n .ds 2\n"); org(0, w); s_s("s0: .word s0\n"); s_n(tail_, tn); asm_run(); vp_check(rc != 0, "a second, different origin is refused"); }
  else if (shape == 2) { // reserved storage: the labels advance, nothing is emitted
    int k = vp_choose(4, "how"), n = 1 + vp_choose(3, "times"); vp_assume((v <= 0x7000) & (w <= 0x2000)); org(0, v); s_s("k0: .word k1, k2, k3, k4\n lda #1\nk1:\n"); space(k, w); s_s("k2:\n"); if (n > 1) { s_s(" .ds "); h16(w); s_s("\n"); } s_s("k3:\n"); if (n > 2) { s_s(" .ds $"); s_hexb(&b, 1); s_s("\n"); } s_s("k4:\n"); s_n(tail_, tn);
    asm_run(); OK_RUN("reserved storage"); vp_check(outn == 10, "reserving emits nothing"); if (outn != 10) vp_end_path();
    u16 a = v + 10, c = a + w, d = n > 1 ? (u16)(c + w) : c, e = n > 2 ? (u16)(d + b) : d; lohi(a, 0, "label before"); lohi(c, 2, "the address advances by the reserved number of bytes"); lohi(d, 4, "reserved twice"); lohi(e, 6, "reserved three times"); }
  else if (shape == 3) { // a variable area before the code: reserved, then the address is assigned
    vp_assume((v <= 0x7000) & (w >= 0x8000) & (w < 0xFF00)); int k = vp_choose(2, "how"); org(k == 0 ? 1 : 3, v); s_s("k1: .ds 1\nk2: .ds $"); s_hexb(&b, 1); s_s("\nk3: .ds 2\n"); org(1, w); s_s("k4: .word k1, k2, k3, k4, *\n"); asm_run(); OK_RUN("address assignment"); vp_check(outn == 10, "size"); if (outn != 10) vp_end_path();
    lohi(v, 0, "first variable"); lohi(v + 1, 2, "second variable"); lohi(v + 1 + b, 4, "third variable"); lohi(w, 6, "the assigned address"); lohi(w + 8, 8, "address counter"); }
  else if (shape == 4) { // address assignments between code: labels follow the assignment, the bytes follow one another
    vp_assume((v <= 0xFE00) & (w <= 0xFF00)); int k = vp_choose(3, "how"); org(k == 2 ? 0 : 1, v); s_s("k1: .word k1, *, k2\n"); if (k == 1) { s_s("* = * + $"); s_hexb(&b, 1); s_s("\n"); w = v + 6 + b; vp_assume(w <= 0xFF00); } else org(1, w); s_s("k2: .word k1, k2, *\n"); asm_run(); OK_RUN("address assignment"); vp_check(outn == 12, "size"); if (outn != 12) vp_end_path();
    lohi(v, 0, "label before"); lohi(v + 2, 2, "address counter before"); lohi(w, 4, "label behind, forward"); lohi(v, 6, "label before, backward"); lohi(w, 8, "label behind"); lohi(w + 4, 10, "address counter behind"); }
  else if (shape == 5) { // an origin outside the address space
    u32 q = sym32("far"); int k = vp_choose(3, "how"); vp_assume(q > 0xFFFF); s_s(k == 0 ? " .org $" : k == 1 ? "* = $" : "*=0-$"); if (k == 2) vp_assume(q <= 0x7FFFFFFF); { u8 t[4] = { (u8)q, (u8)(q >> 8), (u8)(q >> 16), (u8)(q >> 24) }; s_hexb(t, 4); } s_s("\n nop\n"); asm_run(); vp_check(rc != 0, "an origin outside the address space is refused"); }
  else { // no origin: the default address
    int k = vp_choose(4, "how"); if (k == 0) s_s(" nop\n nop\n"); if (k == 1) { s_s(" .byte $"); s_hexb(&b, 1); s_s(", 1\n"); } if (k == 2) s_s(" .fill 7, 2\n"); if (k == 3) s_s("\nabc: lda #2\n");
    s_s("k: .word k, *\n"); asm_run(); OK_RUN("no origin"); vp_check(outn == 6, "size"); if (outn != 6) vp_end_path(); u16 a = out[2] | out[3] << 8; lohi(a + 2, 4, "label and address counter are relative to one origin"); vp_check(out[0] == (k == 0 ? 0xEA : k == 1 ? b : k == 2 ? 7 : 0xA9), "first byte"); }
  vp_reach("end"); vp_end_path(); }
