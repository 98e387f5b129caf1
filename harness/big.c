// Many, long and deep: the same guarantees where counts, lengths and nesting are large. P: the number of the property.
#define SRCMAX 400000
#include "hx.h"
static u8 e[140000]; static int m; static void E(int x) { e[m++] = (u8)x; } static void EW(int x) { E(x); E(x >> 8); }
static u8 v; static void hv(void) { s_s("$"); s_hexb(&v, 1); }
static void sd(const char* a, int i, const char* b) { s_s(a); s_dec(i); s_s(b); }
static void same(void) { OK_RUN("large program"); vp_check(outn == m, "as many bytes as expected"); if (outn != m) vp_end_path(); int d = 0; for (int i = 0; i < m; i++) d |= out[i] ^ e[i]; vp_check(d == 0, "the bytes expected"); vp_reach("end"); vp_end_path(); }
#define PICK(name, T, Q) static const int name[] = { T }; int name##n = (int)(sizeof name / sizeof *name); (void)name##n
#define N_OF(q, t, what) vp_choose(TIER ? t : q, what)
int vp_main(void) {
  v = sym8("v"); s_s(" .org $0400\n");
#if P == 8 // long strings
  static const int L[] = { 30, 100, 255, 256, 257, 511, 512, 1000, 1023, 1024, 2000, 4095, 4096, 4097, 8000 }; int n = L[N_OF(12, 15, "length")], k = vp_choose(3, "directive"), at = vp_choose(3, "escape"); vp_assume((v > ' ') & (v < 127) & (v != '"') & (v != '\\') & (v != '\'')); if ((v >= '0') & (v <= '9')) vp_end_path(); if ((v >= 'a') & (v <= 'f')) vp_end_path(); if ((v >= 'A') & (v <= 'F')) vp_end_path();
  s_s(k == 0 ? " .byte \"" : k == 1 ? " .word \"" : " .str \""); int pos = at == 0 ? 0 : at == 1 ? n / 2 : n - 1;
  for (int i = 0; i < n; i++) { if (i == pos) { s_s("\\n"); E('\n'); } else if (i == (pos ? pos - 1 : 1)) { s_c(v); E(v); } else { s_c('g' + i % 19); E('g' + i % 19); } } s_s("\"\n"); if (k == 1 && n % 2) E(0); s_s("e: .word e\n"); EW(0x400 + m); asm_run(); same();
#elif P == 9 // long lists
  static const int L[] = { 8, 9, 15, 16, 17, 31, 32, 33, 63, 64, 65, 100, 127, 128, 129, 200, 255, 256, 257, 400, 512, 800 }; int n = L[N_OF(18, 22, "length")], k = vp_choose(2, "directive"), at = vp_choose(3, "place"), pos = at == 0 ? 0 : at == 1 ? n / 2 : n - 1;
  s_s(k ? " .word " : " .byte "); for (int i = 0; i < n; i++) { if (i) s_c(','); if (i == pos) { hv(); if (k) EW(v); else E(v); } else if (i % 5 == 3) { s_s("<e"); int t = 0x400 + (k ? 2 * n : n); if (k) EW(t & 255); else E(t); } else { s_dec(i & 255); if (k) EW(i & 255); else E(i); } } s_s("\ne: .word e\n"); EW(0x400 + m); asm_run(); same();
#elif P == 10 // large fills
  static const int L[] = { 1000, 1023, 4096, 4097, 8193, 32769, 1024, 4095, 16385, 32767, 32768, 40000, 60000 }; int n = L[N_OF(6, 13, "count")], k = vp_choose(2, "how"); if (n == 32769 && k && !TIER) vp_end_path();
  if (k) { s_s(" .fill "); hv(); s_s(", big\nbig = "); s_dec(n); s_s("\n"); } else { s_s(" .fill "); hv(); s_c(','); s_dec(n); s_s("\n"); } for (int i = 0; i < n; i++) E(v); s_s("e: .word e\n"); EW(0x400 + m); asm_run(); same();
#elif P == 15 // much storage
  static const int L[] = { 0x2001, 0x3FFF, 0x4000, 0x7FFF, 0x8000, 0x8001, 0xC000, 0xF000, 0xFA00 }; int n = L[vp_choose(9, "size")], k = vp_choose(3, "how"), r = vp_choose(3, "again");
  s_s(" .byte "); hv(); s_s("\n .word k2, k3\n"); E(v); int a = 0x405 + n, b = a + r * 3; EW(a); EW(b); if (k == 0) sd(" .ds ", n, "\n"); if (k == 1) sd(" .ds sz\nsz = ", n, "\n"); if (k == 2) { sd("sy = ", n - 1, "\n"); s_s(" .ds sy + 1\n"); } s_s("k2:\n"); if (r) sd(" .ds 3*", r, "\n"); s_s("k3:\n"); asm_run(); same();
#elif P == 16 // many scopes
  int k = vp_choose(4, "kind"), n = (TIER ? 300 : 60); u8 w = v;
  if (k == 0) { for (int i = 0; i < n; i++) { sd("lab", i, ":\n"); s_s("@in: jmp @in\n jmp @out\n@out: nop\n"); EW(0x4C + (((0x400 + 7 * i) & 255) << 8)); E((0x400 + 7 * i) >> 8); E(0x4C); EW(0x400 + 7 * i + 6); E(0xEA); } }
  else if (k == 1) { for (int i = 0; i < n; i++) { sd(" .section s", i, "\n"); sd("q = $", 0, ""); sn--; s_hex(0x100 + i, 4); s_s("\n .word q\n .ends\n"); EW(0x100 + i); } for (int i = n; i--;) { sd(" .word s", i, ".q\n"); EW(0x100 + i); } }
  else if (k == 2) { int d = TIER ? 24 : 10; for (int i = 0; i < d; i++) { sd(" .section n", i, "\n"); s_s("q = $"); if (i == d / 2) s_hexb(&w, 1); else s_hex(0x200 + i, 4); s_s("\n .word q\n"); EW(i == d / 2 ? w : 0x200 + i); } for (int i = d; i--;) { s_s(" .word q\n .ends\n"); EW(i == d / 2 ? w : 0x200 + i); } s_s(" .word "); for (int i = 0; i < d; i++) sd("n", i, "."); s_s("q\n"); EW(0x200 + d - 1); }
  else { for (int i = 0; i < n; i++) { sd("@l", i, ": .byte "); s_dec(i & 255); s_c('\n'); E(i); } for (int i = 0; i < n; i += 7) { sd(" .word @l", i, "\n"); EW(0x400 + i); } s_s("other: nop\n"); E(0xEA); for (int i = 0; i < 9; i++) { sd("@l", i, ": nop\n"); E(0xEA); } for (int i = 0; i < 9; i++) { sd(" .word @l", i, "\n"); EW(0x400 + n + 2 * ((n + 6) / 7) + 1 + i); } }
  s_s(" .byte "); hv(); s_c('\n'); E(v); asm_run(); same();
#elif P == 17 // many anonymous labels
  static const int L[] = { 12, 33, 64, 100, 130, 250 }; int n = L[N_OF(4, 6, "labels")], k = vp_choose(3, "kind"), q = vp_choose(8, "reference"), c = q < 3 ? q + 1 : q == 3 ? n / 2 : q == 4 ? n - 1 : q == 5 ? n : q == 6 ? n / 3 : n + 1;
  // k: 0 minus, 1 plus, 2 both; the reference stands in the middle of 2n labels, c of them away
  int ref = 0; for (int i = 0; i < 2 * n; i++) { if (i == n) { s_s("ref: jmp "); if (k == 1) for (int j = 0; j < c; j++) s_c('+'); else for (int j = 0; j < c; j++) s_c('-'); s_s("\n"); ref = m; E(0x4C); EW(0); }
    if (k == 2) { s_s(i % 2 ? "+ .byte " : "- .byte "); } else s_s(k ? "+ .byte " : "- .byte "); if (i == n + 1) { hv(); E(v); } else { s_dec(i & 255); E(i); } s_c('\n'); }
  int t = -1; if (k == 0) { if (c <= n) t = 0x400 + n - c; } else if (k == 1) { if (c <= n) t = 0x403 + n + c - 1; } else { int z = 0; for (int i = n - 1; i >= 0 && t < 0; i--) if (i % 2 == 0 && ++z == c) t = 0x400 + i; }
  asm_run(); if (t < 0) { vp_check(rc != 0, "a reference without a label is an error"); vp_reach("missing"); vp_end_path(); } e[ref + 1] = (u8)t; e[ref + 2] = t >> 8; same();
#elif P == 19 // many macros, many calls, many parameters, deep calls
  int k = vp_choose(4, "kind"); if (k == 0) { int n = TIER ? 400 : 120; s_s(".macro mm\n@l:\n .byte \\1, <\\2\n .word @l\n.endm\n"); for (int i = 0; i < n; i++) { s_s(" mm "); if (i == n / 2) { hv(); E(v); } else { s_dec(i & 255); E(i); } sd(",", (i * 3) & 255, "\n"); E(i * 3); EW(0x400 + 4 * i); } }
  else if (k == 1) { int n = TIER ? 120 : 50; for (int i = 0; i < n; i++) { sd(".macro m", i, "\n"); sd(" .byte \\1, ", i, "\n.endm\n"); } for (int i = n; i--;) { sd(" m", i, " "); hv(); s_s("\n"); E(v); E(i); } }
  else if (k == 2) { int n = TIER ? 20 : 10, d = 1; s_s(".macro d0\n .byte \\1, \\2\n.endm\n"); for (d = 1; d < n; d++) { sd(".macro d", d, "\n"); sd(" d", d - 1, " \\2, \\1 + 1\n .byte \\1\n.endm\n"); } sd(" d", n - 1, " 3, 5\n .byte "); sn -= 8; s_s("\n .byte "); hv(); s_s("\n");
    { static int A[32], B[32]; int a = 3, b = 5; for (int i = n - 1; i > 0; i--) { A[i] = a; int t = b; b = a + 1; a = t; } E(a); E(b); for (int i = 1; i < n; i++) E(A[i]); (void)B; E(v); } }
  else { int n = TIER ? 20 : 14; s_s(".macro pp\n .byte "); for (int i = n; i > 0; i--) { sd("\\", i, i > 1 ? ", " : "\n.endm\n"); } for (int c = 0; c < 2; c++) { s_s(" pp "); for (int i = 1; i <= n; i++) { if (i == n / 2) hv(); else s_dec(i * 7 + c); s_s(i < n ? ", " : "\n"); } for (int i = n; i > 0; i--) { if (i == n / 2) E(v); else E(i * 7 + c); } } }
  asm_run(); same();
#elif P == 20 // deep and many conditionals
  int k = vp_choose(3, "kind"), d = (TIER ? (int[]){ 5, 9, 17, 33, 60 } : (int[]){ 5, 9, 17, 33 })[vp_choose(TIER ? 5 : 4, "depth")], f = vp_choose(d, "false"); if (!TIER && d > 9 && f % 5 != 1 && f != d - 1 && f != 0) vp_end_path(); s_s("def = 1\nvv = "); hv(); s_s("\n");
  // block f is the only one not chosen; every block has something in front, an inner block, and an else part
  for (int i = 0; i < d; i++) { int z = i == f; if (k == 0 || (k == 2 && i % 2)) s_s(z ? ".if vv != vv\n" : ".if vv == vv\n"); else if (i % 3) s_s(z ? ".ifdef nodef\n" : ".ifdef def\n"); else s_s(z ? ".ifndef def\n" : ".ifndef nodef\n"); sd(" .byte ", i, "\n"); if (i < f) E(i); }
  for (int i = d; i--;) { s_s(".else\n"); sd(" .byte ", i + 100, "\n"); if (i == f) E(i + 100); s_s(".endif\n"); sd(" .byte ", i, "\n"); if (i <= f) E(i); } s_s(" .byte vv\n"); E(v); asm_run(); same();
#elif P == 21 // long and deep loops
  int k = vp_choose(6, "kind"); static const int L[] = { 200, 255, 256, 257, 300, 500, 1000, 3000, 10000 }; int n = L[vp_choose(TIER ? 9 : 7, "count")]; s_s(" .var i, j, k, l\n");
  if (k == 0) { s_s(".for i = 1 .to "); s_dec(n); s_s("\n .byte <i\n.next i\n"); for (int i = 1; i <= n; i++) E(i); } else if (k == 1) { s_s("i = 0\n.while i < "); s_dec(n); s_s("\n .byte "); hv(); s_s("\ni = i + 1\n.wend\n"); for (int i = 0; i < n; i++) E(v); }
  else if (k == 2) { s_s("i = 0\n.repeat\n .byte <i\ni = i + 2\n.until i >= "); s_dec(2 * n); s_s("\n"); for (int i = 0; i < n; i++) E(2 * i); } else if (k == 3) { s_s("i = "); s_dec(n); s_s("\n.do\n .byte <i\ni = i - 1\n.while i > 0\n"); for (int i = n; i > 0; i--) E(i); }
  else if (k == 4) { s_s(".for i = "); s_dec(n * 3); s_s(" .downto 1 .step 0-3\n"); sn = 0; s_s(" .org $0400\n .var i\n.for i = "); s_dec(n * 3); s_s(" .to 1 .step -3\n .byte <i\n.next i\n"); for (int i = n * 3; i >= 1; i -= 3) E(i); }
  else { int q = n / 100 + 1; if (q > 6) q = 6; s_s(".for i = 1 .to 3\n.for j = 1 .to 2\n.for k = 1 .to "); s_dec(q); s_s("\n.for l = 2 .to 3\n .byte i*50+j*20+k*2+l\n.next l\n.next k\n.next j\n.next i\n"); for (int i = 1; i <= 3; i++) for (int j = 1; j <= 2; j++) for (int x = 1; x <= q; x++) for (int l = 2; l <= 3; l++) E(i * 50 + j * 20 + x * 2 + l); }
  s_s(" .byte "); hv(); s_s("\n"); E(v); asm_run(); same();
#elif P == 30 // large loads, deep and many includes
  int k = vp_choose(3, "kind"); if (k == 0) { static const int L[] = { 1000, 1023, 1024, 1025, 4095, 4096, 4097, 8191, 8192, 8193, 16385, 33000 }; int n = L[vp_choose(TIER ? 12 : 10, "size")]; for (int i = 0; i < n; i++) E(i * 7 + (i >> 8)); e[n / 2] = v; e[n - 1] = v; vp_file("bin", e, n); s_s(" .load \"bin\"\ne: .word e\n"); EW(0x400 + m); }
  else if (k == 1) { int d = (TIER ? (int[]){ 4, 8, 16, 25, 40 } : (int[]){ 4, 8, 16, 25 })[vp_choose(TIER ? 5 : 4, "depth")]; static char nm[64][8]; for (int i = d; i > 0; i--) { sn = 0; sd(" .byte ", i, "\n"); if (i < d) sd(" .inc \"fi", i + 1, "\"\n"); sd("lf", i, ":\n"); sd(" .word lf", i, "\n .byte "); sn -= 7; hv(); sn -= 3; sd(" .byte ", i + 100, "\n"); static char t[8]; int q = 0; t[q++] = 'f'; t[q++] = 'i'; if (i > 9) t[q++] = '0' + i / 10; t[q++] = '0' + i % 10; t[q] = 0; memcpy(nm[i], t, 8); vp_file(nm[i], src, sn); }
    sn = 0; s_s(" .org $0400\n .inc \"fi1\"\n .byte "); hv(); s_s("\n"); for (int i = 1; i <= d; i++) E(i); for (int i = d; i > 0; i--) { EW(0x400 + m); E(i + 100); } E(v); }
  else { int n = TIER ? 120 : 40; vp_file("fi", " .byte 1, 2\n .byte 3\n", 21); for (int i = 0; i < n; i++) { s_s(" .inc \"fi\"\n"); E(1); E(2); E(3); if (i % 9 == 4) { s_s(" .byte "); hv(); s_s("\n"); E(v); } } }
  asm_run(); same();
#elif P == 5 // long and deep expressions
  int k = vp_choose(4, "kind"), n = (TIER ? (int[]){ 9, 17, 40, 90, 200 } : (int[]){ 9, 17, 40, 90 })[vp_choose(TIER ? 5 : 4, "length")]; u32 r = v; s_s("vv = "); hv(); s_s("\n .word "); 
  if (k == 0) { s_s("vv"); for (int i = 1; i < n; i++) { if (i % 3 == 0) { sd(" - ", i, ""); r -= i; } else { sd(" + ", i * 2, ""); r += i * 2; } } } else if (k == 1) { for (int i = 0; i < n; i++) s_s("(1 + "); s_s("vv"); for (int i = 0; i < n; i++) s_c(')'); r += n; }
  else if (k == 2) { for (int i = 0; i < n; i++) s_c('('); s_s("vv"); for (int i = 0; i < n; i++) { sd(" ^ ", i, ")"); r ^= i; } } else { s_s("vv"); for (int i = 0; i < n; i++) s_s(i % 2 ? " & $FFFF" : " | $100"); r |= 0x100; }
  s_s("\n"); vp_assume(1); EW((int)r); asm_run(); same();
#elif P == 11 // many labels and statements of every size
  int n = TIER ? 1200 : 300; static int at[2000]; int pc = 0x400; for (int i = 0; i < n; i++) { at[i] = pc; pc += (int[]){ 1, 2, 3, 5, 7, 2, 4 }[i % 7]; } int end = pc;
  for (int i = 0; i < n; i++) { int o = at[(i * 37 + 11) % n]; sd("lb", i, ": "); switch (i % 7) { case 0: s_s("nop\n"); E(0xEA); break; case 1: s_s("lda #"); hv(); s_s("\n"); E(0xA9); E(v); break; case 2: sd("jmp lb", (i * 37 + 11) % n, "\n"); E(0x4C); EW(o); break; case 3: s_s(".byte \"abc\", <*, 1\n"); E('a'); E('b'); E('c'); E(at[i] + 3); E(1); break; case 4: s_s(".fill 2, 7\n"); for (int j = 0; j < 7; j++) E(2); break; case 5: sd("ldx #<lb", (i * 37 + 11) % n, "\n"); E(0xA2); E(o); break; default: sd(".word *, lb", (i * 37 + 11) % n, "\n"); EW(at[i]); EW(o); } }
  s_s("end: .word end\n"); EW(end); asm_run(); same();
#elif P == 32 // long comments and white space, many blank lines
  int k = vp_choose(7, "kind"), n = (TIER ? (int[]){ 300, 1023, 1024, 4095, 4097, 17000, 10000, 40000 } : (int[]){ 300, 1023, 1024, 4095, 4097, 17000 })[vp_choose(TIER ? 8 : 6, "length")]; s_s("l1: lda #"); hv(); E(0xA9); E(v);
  if (k == 0) { s_s(" ; "); for (int i = 0; i < n; i++) s_c("ab *'\"/+"[i % 8]); s_s("\n"); } else if (k == 1) { s_s(" // "); for (int i = 0; i < n; i++) s_c("ab *'\"/+"[i % 8]); s_s("\n"); } else if (k == 2) { s_s(" /* "); for (int i = 0; i < n; i++) s_c("ab *'\"+\n"[i % 8]); s_s(" */\n"); } else if (k == 3) { s_s("\n"); for (int i = 0; i < n; i++) s_c('\n'); } else if (k == 4) { for (int i = 0; i < n; i++) s_c(i % 3 ? ' ' : '\t'); s_s("\n"); } else if (k == 5) { s_s("\n"); for (int i = 0; i < n / 8; i++) s_s("; remark\n"); } else { s_s("\n"); for (int i = 0; i < n / 8; i++) s_s("/* c */ \n"); }
  s_s("- jmp l2\n bne -\nl2: rts\n"); E(0x4C); EW(0x407); E(0xD0); E(0xFB); E(0x60); asm_run(); same();
#elif P == 33 // many input files
  int n = (TIER ? (int[]){ 3, 5, 9, 17, 30 } : (int[]){ 3, 5, 9, 17 })[vp_choose(TIER ? 5 : 4, "files")]; static char nm[40][8]; char* av[48]; int c = 0; av[c++] = (char*)"pasm"; av[c++] = (char*)"-o"; av[c++] = (char*)"a.out";
  for (int i = 0; i < n; i++) { if (i) sn = 0; sd("f", i, ": .byte "); if (i == n / 2) { hv(); E(v); } else { s_dec(i); E(i); } s_s("\n"); sd(" .word f", n - 1 - i, "\n"); if (i && i % 3 == 0) { sd(" jmp f", i - 1, "\n"); } nm[i][0] = 'f'; nm[i][1] = 'a' + i / 10; nm[i][2] = '0' + i % 10; vp_file(nm[i], src, sn); av[c++] = nm[i]; }
  static int at[40]; int pc = 0x400; for (int i = 0; i < n; i++) { at[i] = pc; pc += 3 + (i && i % 3 == 0 ? 3 : 0); } m = 0; for (int i = 0; i < n; i++) { E(i == n / 2 ? v : i); EW(at[n - 1 - i]); if (i && i % 3 == 0) { E(0x4C); EW(at[i - 1]); } }
  av[c] = 0; rc = vp_pasm(c, av); outn = vp_file_size("a.out"); out = outn > 0 ? vp_file_data("a.out") : (const u8*)""; same();
#elif P == 4 // targets far away
  static const int L[] = { 300, 1000, 2000, 5000, 12000 }; int n = L[vp_choose(TIER ? 5 : 4, "distance")], b = vp_choose(8, "branch"), f = vp_choose(2, "forward"); static const char* const B[] = { "bpl", "bmi", "bvc", "bvs", "bcc", "bcs", "bne", "beq" };
  int a0 = 0x400, t; if (f) { s_s(" "); s_s(B[b]); s_s(" tt\n .byte "); hv(); sd("\n .fill 0, ", n, "\ntt: nop\n"); t = a0 + 6 + n; } else { s_s("tt: nop\n .byte "); hv(); sd("\n .fill 0, ", n, "\n "); s_s(B[b]); s_s(" tt\n"); t = a0; }
  if (!f) { E(0xEA); E(v); for (int i = 0; i < n; i++) E(0); } E((0x10 + 0x20 * b) ^ 0x20); E(3); E(0x4C); EW(t); if (f) { E(v); for (int i = 0; i < n; i++) E(0); E(0xEA); } asm_run(); same();
#elif P == 27 // many symbols on the command line, among many other options
  int n = (TIER ? (int[]){ 5, 12, 30, 60 } : (int[]){ 5, 12, 30 })[vp_choose(TIER ? 4 : 3, "symbols")], k = vp_choose(4, "order"); static char nm[64][8], val[64][12]; char* av[256]; int c = 0; av[c++] = (char*)"pasm"; if (k & 1) { av[c++] = (char*)"a.asm"; av[c++] = (char*)"-nowarn"; }
  for (int i = 0; i < n; i++) { nm[i][0] = 's'; nm[i][1] = 'a' + i / 10; nm[i][2] = '0' + i % 10; int x = (i * 977 + 300) & 0xFFFF; if (i == n / 2) x = v << 8 | 0x34; char* q = val[i]; *q++ = '$'; for (int j = 12; j >= 0; j -= 4) *q++ = hx_up[x >> j & 15]; av[c++] = (char*)(i & 1 ? "/D" : "-d"); av[c++] = nm[i]; av[c++] = val[i]; if (i == n / 3) { av[c++] = (char*)"-o"; av[c++] = (char*)"a.out"; } if (i == 3) { av[c++] = (char*)"-s"; av[c++] = (char*)"a.sym"; } if (i == 2 && k & 2) { av[c++] = (char*)"-c64"; } E(x); E(x >> 8); }
  if (!(k & 1)) { av[c++] = (char*)"-v"; av[c++] = (char*)"a.asm"; } av[c] = 0; for (int i = 0; i < n; i++) { s_s(" .word "); s_s(nm[i]); s_s("\n"); } vp_file("a.asm", src, sn);
  if (k & 2) { memmove(e + 2, e, m); e[0] = 0; e[1] = 4; m += 2; }
  rc = vp_pasm(c, av); outn = vp_file_size("a.out"); out = outn > 0 ? vp_file_data("a.out") : (const u8*)""; same();
#elif P == 13 // an error among very many good statements
  static const char* const X[] = { " lda undefd\n", " .word undefd\n", " )(\n", " .byte 300\n", " bne --------\n", " lda #\n", " jmp #1\n", " .byte 1/0\n", " .fill 300, 1\n", " .inc \"nofile\"\n" }; int k = vp_choose(10, "error"), at = vp_choose(5, "place"), pr = vp_choose(4, "print"), n = TIER ? 400 : 80, pos = at * n / 4;
  for (int i = 0; i <= n; i++) { if (i == pos) s_s(X[k]); if (i < n) { if (i % 3 == 1) { s_s(" .byte "); hv(); s_s("\n"); } else if (i % 3) s_s(" nop\n"); else sd("z", i, ":\n"); } if (pr && i == pos) s_s(pr == 1 ? " .print z0\n" : pr == 2 ? " .printall z0\n" : " .print \"text\", z0 + 1\n"); if (pr && i + 1 == pos) s_s(pr == 1 ? " ? z0\n" : " ?? z0\n"); } asm_run(); vp_check(rc != 0, "a program with one error fails"); vp_reach("end"); vp_end_path();
#endif
}
