// C33: several input files on the command line are one program, in their order.
#include "stmts.h"
static u8 o1[4096], y1[4096]; static long n1, m1; static int rc1;
#define NSEG 5
static char seg[NSEG][2600]; static int sl[NSEG];
static void put(int i) { memcpy(seg[i], src, sn); sl[i] = sn; sn = 0; }
static const char* const NAME[] = { "a.asm", "b.asm", "d1/c.asm", "e.asm", "f.asm" };
static const char* const ARG[] = { "a.asm", "b.asm", "c.asm", "e.asm", "f.asm" };
// how: 0 as usual, 1 the options between the files, 2 the options last, 3 no line end at the end of the files, 4 CR LF... see below
static int files(int cut, int how) { // the segments, a new file behind segment i for every bit i of cut
  char* av[24]; int n = 0, k = 0; av[n++] = (char*)"pasm"; int optat = how == 1 ? 1 : how == 2 ? 99 : 0;
#define OPTS() do { av[n++] = (char*)"-o"; av[n++] = (char*)"a.out"; av[n++] = (char*)"-s"; av[n++] = (char*)"a.sym"; av[n++] = (char*)"-dir"; av[n++] = (char*)"d1"; av[n++] = (char*)"-nowarn"; if (how == 5) { av[n++] = (char*)"-l"; av[n++] = (char*)"a.lst"; av[n++] = (char*)"-v"; } } while (0)
  sn = 0;
  for (int i = 0; i < NSEG; i++) { s_n(seg[i], sl[i]); if (i == NSEG - 1 || (cut >> i & 1)) {
    if (how == 3 && sn) sn--; // no line end
    if (how == 4 && cut) s_s("\n ; end of a file\n\n");
    if (k == optat) OPTS();
    vp_file(NAME[k], src, sn); av[n++] = (char*)ARG[k++]; sn = 0; } }
  if (optat >= k) OPTS(); av[n] = 0; vp_remove("a.out"); vp_remove("a.sym");
  rc = vp_pasm(n, av); outn = vp_file_size("a.out"); out = outn > 0 ? vp_file_data("a.out") : (const u8*)"";
  { u8 r[6]; r[0] = (u8)rc; r[1] = (u8)(rc >> 8); for (int i = 0; i < 4; i++) r[2 + i] = (u8)((outn < 0 ? 0 : outn) >> (8 * i)); vp_observe("run", r, 6); if (outn > 0) vp_observe("out", out, outn < 300 ? outn : 300); }
  return k; }
int vp_main(void) {
  vp_file("d1/x", "", 0); stmt_files(); sn = 0;
#ifdef STATE
  // what one file sets up is there in the next ones
  static const char* const SET[] = { " .65c02 on\n", ".illegal on\n", ".c64\n", " .var vv = 3\n", ".macro mm\n lda \\1\n@k dex\n bne @k\n.endm\n", ".section ss\nin: nop\n.ends\n", "top:\n@k dex\n", "cc = 7\n", ".warn off\n", " .org $3000\n", ".print off\n", ".end\n", ".ifdef nono\n nop\n.endif\n", " .section op\nm1: nop\n", "*= *\n", "- dex\n" };
  static const char* const USE[] = { " stz $12\n", " lax $1234\n", " .word *\n", "vv = vv + 1\n .byte vv\n", " mm cc2\n", " .word ss.in\n", " bne @k\n", " .word cc2 + cc\n", " bne $8000\n", ".ifdef cc\n .byte 1\n.else\n .byte 2\n.endif\n", " .word op.m1\n.ends\n", " ldx #<top\n", "late = last - *\n", "@k dex\n bne @k\n", ".print on\n .byte $55\n", " nop\n- bne -\n" };
  int s = vp_choose(16, "first"), u = vp_choose(16, "second"), cut = 1 + vp_choose(TIER ? 15 : 3, "files"), how = (s + u + cut) % 6; u16 v = sym16("v"), w = sym16("w"); if (!TIER) cut = cut == 1 ? 4 : cut == 2 ? 15 : 5;
  s_s("@k nop\n .byte 1\n"); put(0); s_s(SET[s]); put(1); s_s(" lda "); h16(v); s_s("\n"); put(2); s_s(USE[u]); put(3); s_s("cc2 = "); h16(w); s_s("\nlast: .word cc2, last\n"); put(4);
#else
  int a = vp_choose(NSTMT, "first"), j = vp_choose(TIER ? 12 : 2, "second"), cut = 1 + vp_choose(TIER ? 15 : 3, "files"), how = (a + j + cut) % 6, b = (a * 7 + j * 19 + cut * 3 + 3) % NSTMT; if (!TIER) cut = cut == 1 ? 2 : cut == 2 ? 12 : 15;
  if (a == 35 || b == 35) vp_end_path(); // anonymous labels belong to their file
  s_s(" .org $2000\nold = 5\nlabel: nop\n@l: nop\n"); put(0); stmt(a, 0); put(1); stmt(b, 1); put(2); s_s(" bne @l\n .word old, label\n"); put(3); s_s("last: nop\n"); s_n(tail_, tn); put(4);
#endif
  files(0, how == 3 ? 0 : how); rc1 = rc; n1 = outn; if (n1 > 4096) { vp_check(0, "size bound"); vp_end_path(); } if (n1 > 0) memcpy(o1, out, n1);
  m1 = vp_file_size("a.sym"); if (m1 > 4096) { vp_check(0, "size bound"); vp_end_path(); } if (m1 > 0) memcpy(y1, vp_file_data("a.sym"), m1);
  int k = files(cut, how); (void)k;
  vp_check((rc == 0) == (rc1 == 0), "a program is accepted in one file and in several"); if ((rc == 0) != (rc1 == 0)) vp_end_path();
  if (rc) { vp_reach("refused"); vp_end_path(); }
  vp_check(outn == n1, "size of the object file"); if (outn != n1) vp_end_path(); int bad = 0; for (long i = 0; i < n1; i++) bad |= out[i] ^ o1[i]; vp_check(bad == 0, "the object file");
  long m = vp_file_size("a.sym"); vp_check(m == m1, "size of the symbol file"); if (m != m1) vp_end_path(); bad = 0; const u8* y = m > 0 ? vp_file_data("a.sym") : out; for (long i = 0; i < m; i++) bad |= y[i] ^ y1[i]; vp_check(bad == 0, "the symbol file");
  vp_reach("end"); vp_end_path(); }
