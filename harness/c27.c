// C27: the command line.
#include "hx.h"
static int argc_; static char* argv_[40]; static char args[40][16];
// an option: any prefix, any letter case
static void o(const char* name) { char* p = args[argc_]; int n = 0; u8 b = sym8("letters"); p[n++] = (b & 1) ? '/' : '-'; for (; *name; name++, n++) { u8 c = *name; if (c >= 'a' && c <= 'z') { c ^= (u8)((b >> (1 + n % 7)) & 1) << 5; } p[n] = c; } p[n] = 0; argv_[argc_++] = p; }
static void a(const char* v) { argv_[argc_++] = (char*)v; }
static const char* const NAME[] = { "o", "s", "l", "log", "c64", "v", "65c02", "6502", "i", "nowarn", "dir", "d" };
static const char* const ARG[] = { "a.out", "a.sym", "a.lst", "a.log", 0, 0, 0, 0, 0, 0, "d/", "dsym" };
enum { NO = 12 };
static const char* dval = "$2345";
static void add(int k) { o(NAME[k]); if (ARG[k]) a(ARG[k]); if (k == 11) a(dval); }
static void go(void) { argv_[argc_] = 0; vp_file("a.asm", src, sn); vp_remove("a.out"); vp_remove("a.sym"); vp_remove("a.lst"); vp_remove("a.log"); rc = vp_pasm(argc_, argv_); outn = vp_file_size("a.out"); out = outn > 0 ? vp_file_data("a.out") : (const u8*)"";
  { u8 r[8]; r[0] = (u8)rc; for (int i = 0; i < 4; i++) r[1 + i] = (u8)(outn >> (8 * i)); vp_observe("run", r, 5); if (outn > 0) vp_observe("out", out, outn < 300 ? outn : 300); } }
#if defined(VALUES)
int vp_main(void) {
  static char v[40]; int how = vp_choose(5, "notation"); static const int ND[] = { 5, 17, 5, 17, 6 }; int nd = 1 + vp_choose(TIER ? ND[how] + (how == 4) : how == 4 ? 7 : how & 1 ? 17 : 5, "digits"), n = 0, more = vp_choose(3, "other"), neg = 0; if (how == 4 && nd == 7) nd = 10; if (how == 4 && more == 1) neg = vp_choose(2, "minus");
  u8 cs = sym8("prefix"); if (how == 0) v[n++] = '$'; if (how == 1) v[n++] = '%'; if (how == 2 | how == 3) { v[n++] = '0'; v[n++] = (how == 2 ? 'x' : 'b') ^ ((cs & 1) << 5); }
  if (neg) v[n++] = '-';
  int base = how == 4 ? 10 : how & 1 ? 2 : 16; unsigned long x = 0; static u8 dg[24]; sym(dg, nd, "d");
  for (int i = 0; i < nd; i++) { u8 d = dg[i], c;
    if (base == 2) { if (!TIER && i > 3 && i + 3 < nd) { vp_assume(d == (i & 1)); d = i & 1; } else vp_assume(d < 2); c = '0' + d; }
    else if (base == 10) { if (nd == 10 & i > 0 & i < 7) { vp_assume(d == "0294967"[i] - '0'); d = "0294967"[i] - '0'; } else vp_assume(d < 10); c = '0' + d; } else { vp_assume(d < 22); c = d < 10 ? '0' + d : d < 16 ? 'a' - 10 + d : 'A' - 16 + d; d = d < 16 ? d : d - 6; }
    v[n++] = c; x = x * base + d; }
  v[n] = 0; int fits = neg ? x == 0 : x < 0x10000;
  a("pasm"); if (more == 1) { o("d"); a("other"); a("1000"); } o("d"); a("dsym"); a(v); if (more == 2) { o("D"); a("Dsy"); a("0x77"); } o("o"); a("a.out"); a("a.asm");
  s_s(" .byte <dsym, >dsym\n"); if (more == 1) s_s(" .word other\n"); if (more == 2) s_s(" .word dsy\n");
  go(); if (rc) { vp_check(!fits, "a symbol of the command line with a 16-bit value is accepted"); vp_check(outn < 0, "nothing is assembled"); vp_reach("refused"); vp_end_path(); } vp_check(fits, "a value that no symbol can have is refused");
  vp_check(rc == 0, "a program that uses a symbol of the command line is accepted"); if (rc) vp_end_path();
  vp_check(outn == (more ? 4 : 2), "size"); if (outn != (more ? 4 : 2)) vp_end_path();
  vp_check((out[0] | out[1] << 8) == (int)x, "the symbol has the value written"); if (more == 1) vp_check((out[2] | out[3] << 8) == 1000, "the other symbol has its value (1000)"); if (more == 2) vp_check((out[2] | out[3] << 8) == 0x77, "the other symbol has its value (0x77)");
  vp_reach("end"); vp_end_path(); }
#elif defined(ERRS)
int vp_main(void) { // missing and repeated arguments, no input, help
  int k = vp_choose(NO, "option"), what = vp_choose(8, "what"), w = vp_choose(NO + 1, "with"); if (w == k) vp_end_path();
  s_s(" .byte 1\n"); a("pasm");
  if (what == 0) { if (!ARG[k]) vp_end_path(); if (w < NO) add(w); a("a.asm"); o(NAME[k]); } // argument missing
  else if (what == 1) { if (k == 11) vp_end_path(); add(k); if (w < NO) add(w); add(k); a("a.asm"); } // repeated
  else if (what == 2) { add(k); if (w < NO) add(w); } // no input file
  else if (what == 3) { add(k); o(w & 1 ? "?" : "h"); if (w < NO) add(w); a("a.asm"); }
  else if (what == 4) { o("?"); add(k); if (w < NO) { add(w); add(w); } }
  else if (what == 5) { if (k != 11) vp_end_path(); if (w < NO) add(w); a("a.asm"); o("d"); a("dsym"); }
  else if (what == 6) { o("d"); a("one"); a("1"); add(k); if (w < NO) add(w); o("d"); a("two"); a("2"); a("a.asm"); }
  else { add(k); a("nofile.asm"); if (w < NO) add(w); }
  go(); int help = what == 3 | what == 4;
  if (what == 6) { vp_check(rc == (((k == 6) & (w == 7)) | ((k == 7) & (w == 6)) ? 255 : 0), "several symbols may be defined"); }
  else if (what == 3) { if ((k == 6 & w == 7) | (k == 7 & w == 6)) vp_end_path(); vp_check(rc == 0, "help is no failure"); }
  else if (what == 4) vp_check(rc == 0, "help is no failure");
  else vp_check(rc != 0, "a command line with an error fails");
  if (what != 6) vp_check(outn < 0, "nothing is assembled");
  vp_reach("end"); vp_end_path(); }
#else
int vp_main(void) {
  int probe = vp_choose(6, "program"), x = vp_choose(NO + 1, "first"), y = vp_choose(NO + 1, "second"), where = vp_choose(3, "input"), all = vp_choose(TIER ? 2 : 1, "others"); int on[NO] = { 0 };
  if (x == NO ? y != NO : x == y) vp_end_path();
  if ((!TIER | all) && x != NO && y != NO && where != (x + y + probe) % 3) vp_end_path();
  u16 v = sym16("v"); u8 b[2] = { (u8)v, (u8)(v >> 8) };
  vp_file("d/part", " .byte $99\n", 11); if (probe == 5 || x == 5 || y == 5) { vp_capture_stderr(); }
  s_s(" lda #$"); s_hexb(b, 1); s_s("\n .word $"); s_hexb(b, 2); s_s("\n"); static const char* const P[] = { "", " stz $12\n", " lax $12\n", " .word dsym\n", " .inc \"part\"\n", " bne $8000\n" }; s_s(P[probe]);
  a("pasm"); if (where == 0) a("a.asm");
  if (all) { for (int i = 0; i < NO; i++) if (i != x && i != y && i != 7) { add(i); on[i] = 1; } if (where == 1) a("a.asm"); }
  else { if (x < NO) { add(x); on[x] = 1; } if (where == 1) a("a.asm"); if (y < NO) { add(y); on[y] = 1; } if (!on[0]) { } }
  if (where == 2) a("a.asm");
  if (on[5]) vp_capture_stdout();
  go();
  int ok = 1; if (on[6] & on[7]) { vp_check(rc != 0, "two processors are refused"); vp_reach("refused"); vp_end_path(); }
  if (probe == 1) ok = on[6]; if (probe == 2) { if (on[6]) vp_end_path(); ok = on[8]; } if (probe == 3) ok = on[11]; if (probe == 4) ok = on[10];
  vp_check((rc == 0) == ok, "accepted exactly with the option it needs");
  if (probe == 5) vp_check((vp_file_size("stderr") > 0) == !on[9], "the warning is printed unless it is turned off");
  vp_check((vp_file_size("a.log") >= 0) == on[3], "log file written if asked for");
  if (rc) { vp_reach("refused"); vp_end_path(); }
  vp_check((outn >= 0) == on[0], "output file written if asked for"); vp_check((vp_file_size("a.sym") >= 0) == on[1], "symbol file written if asked for"); vp_check((vp_file_size("a.lst") >= 0) == on[2], "listing written if asked for");
  if (on[5]) vp_check(vp_file_size("stdout") > 150, "verbose output is printed");
  if (on[0]) { u8 e[16]; int n = 0; if (on[4]) { e[n++] = 0; e[n++] = 0x10; } e[n++] = 0xA9; e[n++] = b[0]; e[n++] = b[0]; e[n++] = b[1]; if (probe == 1) { e[n++] = 0x64; e[n++] = 0x12; } if (probe == 2) { e[n++] = 0xA7; e[n++] = 0x12; } if (probe == 3) { e[n++] = 0x45; e[n++] = 0x23; } if (probe == 4) e[n++] = 0x99; if (probe == 5) { e[n++] = 0xF0; e[n++] = 3; e[n++] = 0x4C; e[n++] = 0; e[n++] = 0x80; }
    vp_check(outn == n, "size of the object file"); if (outn != n) vp_end_path(); int bad = 0; for (int i = 0; i < n; i++) bad |= out[i] ^ e[i]; vp_check(bad == 0, "object file"); }
  vp_reach("end"); vp_end_path(); }
#endif
