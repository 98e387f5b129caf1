// C30: including a file equals inserting its text; .load inserts the bytes of the file; search directories.
#include "stmts.h"
static u8 o1[4096]; static long n1; static int rc1;
#ifdef LOAD
int vp_main(void) {
  static const int SZ[] = { 0, 1, 2, 3, 4, 5, 7, 8, 16, 31, 255, 256, 257, 1000 }; int z = vp_choose(TIER ? 14 : 12, "size"), n = SZ[z], how = vp_choose(8, "how"), org = vp_choose(2, "origin"); static u8 d[1000], e[4096]; int k = n < 8 ? n : 8, m = 0; sym(d, k, "data"); for (int i = 0; i < n; i++) { if (i >= k) d[i] = (u8)(i * 37 + 11); }
  if (n > k) { d[n - 1] = sym8("last"); d[n / 2] = sym8("mid"); }
  vp_file("bin", d, n); if (org) s_s(" .org $2000\n");
#define E1(x) (e[m++] = (u8)(x))
#define EF() do { memcpy(e + m, d, n); m += n; } while (0)
#define L " .load \"bin\"\n"
  int b = org ? 0x2000 : 0x1000, x = -1; static char lit[] = " lda lab\n";
  switch (how) {
    case 0: s_s(L); EF(); break;
    case 1: s_s(" nop\n" L " rts\n"); E1(0xEA); EF(); E1(0x60); break;
    case 2: s_s(L L); EF(); EF(); break;
    case 3: s_s(".if 1\n nop\n" L " rts\n.endif\n"); E1(0xEA); EF(); E1(0x60); break;
    case 4: s_s(" .var i\n.for i = 1 .to 3\n" L " .byte i\n.next i\n"); for (int i = 1; i <= 3; i++) { EF(); E1(i); } break;
    case 5: s_s(".macro m\n" L " .byte \\1\n.endm\n m 1\n m 2\n"); EF(); E1(1); EF(); E1(2); break;
    case 6: s_s(" jmp lab\n" L "lab: nop\n .word lab - *\n"); x = b + 3 + n; E1(0x4C); E1(x); E1(x >> 8); EF(); E1(0xEA); E1(0xFF); E1(0xFF); break;
    default: s_s(" .section s\n" L " .ends\n .byte \"ab\"\n .word 1\n" L); EF(); E1('a'); E1('b'); E1(1); E1(0); EF(); break; }
  asm_run(); if (m == 0) { vp_check(rc == 0, "an empty file may be loaded"); vp_reach("end"); vp_end_path(); }
  OK_RUN("load"); vp_check(outn == m, "size"); if (outn != m) vp_end_path(); int bad = 0; for (int i = 0; i < m; i++) bad |= out[i] ^ e[i]; vp_check(bad == 0, "the bytes of the file"); vp_reach("end"); vp_end_path(); }
#elif defined(DIRS)
int vp_main(void) { // the file may be in any of: the current directory, d1, d2, d3/e
  int in = vp_choose(16, "present"), what = vp_choose(3, "what"), form = vp_choose(6, "form"), nd = vp_choose(4, "directories"); static const char* const DN[] = { "", "d1/", "d2/", "d3/e/" }; static const char* const DI[6][3] = { { "d1", "d2", "d3/e" }, { "d1/", "d2/", "d3/e/" }, { "d1", "d2/", "d3/e" }, { "d1/", " d2", "\t d3/e/" }, { "./d1", "d2/", "./d3/e" }, { "none", "d2", "d1" } };
  if (form == 4) { DI[0][0]; vp_end_path(); }
  static char dirs[64]; int m = 0; for (int i = 0; i < nd; i++) { if (i) dirs[m++] = ';'; for (const char* p = DI[form][i]; *p; p++) dirs[m++] = *p; } dirs[m] = 0; static u8 v[4]; sym(v, 4, "v");
  int first = -1; if (in & 1) first = 0; for (int i = 0; i < nd && first < 0; i++) { int w = form == 5 ? (i == 0 ? 0 : i == 1 ? 2 : 1) : i + 1; if (w && (in >> w & 1)) first = w; }
  vp_file("d1/x", "", 0); vp_file("d2/x", "", 0); vp_file("d3/e/x", "", 0);
  static char nm[16]; const char* base = what == 2 ? "src.asm" : "fi";
  for (int w = 0; w < 4; w++) if (in >> w & 1) { static char t[40]; int q = 0; for (const char* p = DN[w]; *p; p++) nm[q++] = *p; for (const char* p = base; *p; p++) nm[q++] = *p; nm[q] = 0; if (what == 1) { u8 b = v[w]; vp_file(nm, &b, 1); } else { sn = 0; s_s(" .byte $"); s_hexb(&v[w], 1); s_s("\n"); vp_file(nm, src, sn); } }
  sn = 0; if (what == 0) s_s(" .inc \"fi\"\n"); if (what == 1) s_s(" .load \"fi\"\n"); s_s(" .byte 7\n"); vp_file("a.asm", src, sn);
  char* av[10]; int n = 0; av[n++] = "pasm"; if (nd) { av[n++] = "-dir"; av[n++] = dirs; } av[n++] = "-o"; av[n++] = "a.out"; av[n++] = (char*)(what == 2 ? "src.asm" : "a.asm"); av[n] = 0;
  rc = vp_pasm(n, av); outn = vp_file_size("a.out"); out = outn > 0 ? vp_file_data("a.out") : (const u8*)"";
  if (first < 0) { vp_check(rc != 0, "a file that is in none of the directories fails"); vp_reach("absent"); vp_end_path(); }
  OK_RUN("a file in one of the directories is found"); int el = what == 2 ? 1 : 2; vp_check(outn == el, "size"); if (outn != el) vp_end_path(); vp_check(out[0] == v[first], "the file of the first directory that has it"); vp_reach("end"); vp_end_path(); }
#else
static char fa[4096], fb[4096]; static int na, nb;
int vp_main(void) {
  int a = vp_choose(NSTMT, "first"), how = vp_choose(14, "how"), j = vp_choose(TIER ? 12 : 2, "second"), b = TIER ? (a + how + 3 * j + 1) % NSTMT : (a * 7 + how * 11 + j * 19 + 3) % NSTMT;
  if (a == 35 || b == 35) vp_end_path(); stmt_files();
  sn = 0; stmt(a, 0); memcpy(fa, src, sn); na = sn; sn = 0; stmt(b, 1); memcpy(fb, src, sn); nb = sn; sn = 0;
#define A s_n(fa, na)
#define B s_n(fb, nb)
#define I1 s_s(" .inc \"f1\"\n")
  static char T[4096]; int inl = 0, blk = how >= 11;
  for (inl = 0; inl < 2; inl++) {
    sn = 0; 
    // the files
    if (!inl) {
      if (how == 1) { A; sn--; } else if (how == 2) { s_s("\n; first\n\n"); A; B; } else if (how == 3) { s_s(" .inc \"f2\"\n"); B; } else if (how == 4) { A; s_s(" .inc \"f2\" ; more\n"); } else if (how == 5) { s_s(" nop\n .inc \"f2\""); } else if (how == 6) { } else A;
      vp_file("f1", src, sn); sn = 0; if (how == 3) A; else { B; if (how == 5) sn--; } vp_file("f2", src, sn); sn = 0; }
    s_s(" .org $2000\nold = 5\nlabel: nop\n@l: nop\n");
    switch (how) {
      case 0: if (inl) A; else I1; B; break;
      case 1: if (inl) A; else I1; B; break; // without a last line end
      case 2: if (inl) { s_s("\n; first\n\n"); A; B; } else I1; break;
      case 3: if (inl) { A; B; } else I1; s_s(" lda #1\n"); break;
      case 4: if (inl) { A; B; } else I1; s_s(" lda #1\n"); break;
      case 5: if (inl) { s_s(" nop\n"); B; A; } else { I1; A; } break;
      case 6: if (!inl) I1; A; B; break; // an empty file
      case 7: if (inl) { A; B; } else { I1; s_s(" .inc \"f2\"\n"); } break;
      case 8: s_s(" .section se\n"); if (inl) { A; } else I1; s_s(" .byte 1\n .ends\n"); B; break;
      case 9: s_s("here:"); if (inl) { s_s("\n"); A; } else I1; s_s(" .word here\n"); B; break;
      case 10: s_s(".if old == 5\n"); if (inl) { s_s(".endif\n"); A; } else { I1; s_s(".endif\n"); } B; break; // last in a block
      case 11: s_s(".if old == 5\n"); if (inl) A; else I1; s_s(" .byte 1\n.endif\n"); B; break;
      case 12: s_s(".macro mi\n"); if (inl) A; else I1; s_s(" .byte 1\n.endm\n mi\n"); B; break;
      default: s_s(".repeat\n"); if (inl) A; else I1; s_s(" .byte 1\n.until 1\n"); B; break; }
    s_s(" bne @l\n .word old\nlast: nop\n"); s_n(tail_, tn); if (inl && how == 5) { }
    asm_run(); if (inl) break; rc1 = rc; n1 = outn; if (n1 > 4096) { vp_check(0, "size bound"); vp_end_path(); } if (n1 > 0) memcpy(o1, out, n1); }
  vp_check_kf((rc == 0) == (rc1 == 0), blk, "inc-in-block", "a program is accepted with its text included and in place"); if ((rc == 0) != (rc1 == 0)) vp_end_path();
  if (rc) { vp_reach("refused"); vp_end_path(); }
  vp_check_kf(outn == n1, blk, "inc-in-block", "size"); if (outn != n1) vp_end_path(); int bad = 0; for (long i = 0; i < n1; i++) bad |= out[i] ^ o1[i]; vp_check_kf(bad == 0, blk, "inc-in-block", "the object file"); vp_reach("end"); vp_end_path(); }
#endif
