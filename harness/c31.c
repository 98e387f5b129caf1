// C31: the line-ending converter (the whole program, on files in its samples directory).
#include "hx.h"
static int is_eolc(u8 c) { return (c == 10) | (c == 13); }
// reference: CR LF is one line end, so are LF and CR alone
static int ref(const u8* p, int n, u8* o) { int m = 0; for (int i = 0; i < n; i++) { if (p[i] == 13) { o[m++] = 10; if (i + 1 < n && p[i + 1] == 10) i++; } else o[m++] = p[i]; } return m; }
static int run(void) { char* av[2] = {(char*)"eolconvert", 0}; return vp_eol(1, av); }
#ifndef LEN
#define LEN (TIER ? 9 : 7)
#endif
#define F "CMakePasm/samples/a"
#if defined(TREE) // every set of files in a tree of directories, and files of many lengths
static const char* const P[] = { "a", "k/b.asm", "k/l/m", "k/l/n/o", "0/1/2/3/4.x", "z/y", "Z/y" };
static u8 got[9000];
static void converted(const char* p, const u8* b, int n, const char* m) { // b: text
  static u8 want[9000]; int k = ref(b, n, want); long sz = vp_file_size(p); vp_check(sz == k, m); if (sz != k) vp_end_path(); const u8* d = vp_file_data(p); int bad = 0; for (int i = 0; i < k; i++) bad |= d[i] ^ want[i]; vp_check(bad == 0, m); }
int vp_main(void) {
  int set = vp_choose(128, "files"), which = vp_choose(TIER ? 7 : 2, "which"), twice = vp_choose(2, "again"); u8 b = sym8("byte"), c = sym8("next"); char nm[64]; if (!TIER) { which = which ? (set * 5 + 3) % 7 : (set + 1) % 7; }
  if (!(set >> which & 1)) vp_end_path(); vp_assume(!((b == 10) & (c == 13)));
  for (int i = 0; i < 7; i++) if (set >> i & 1) { strcpy(nm, "CMakePasm/samples/"); strcat(nm, P[i]); if (i == which) { u8 t[4] = { 'p', b, c, 'q' }; vp_file(nm, t, 4); } else vp_file(nm, "x\r\ny\rz\n\n", 8); }
  int r = run(); vp_check(r == 0, "the converter ends normally"); if (twice) run();
  for (int i = 0; i < 7; i++) if (set >> i & 1) { strcpy(nm, "CMakePasm/samples/"); strcat(nm, P[i]);
    if (i == which) { u8 t[4] = { 'p', b, c, 'q' }; int text = (((b >= 32) & (b < 127)) | is_eolc(b)) & (((c >= 32) & (c < 127)) | is_eolc(c)); if (text) { vp_reach("text"); converted(nm, t, 4, "every text file below the samples directory is converted"); } else { vp_reach("binary"); long z = vp_file_size(nm); vp_check(z == 4, "a binary file keeps its size"); if (z != 4) vp_end_path(); const u8* d = vp_file_data(nm); vp_check((d[1] == b) & (d[2] == c) & (d[0] == 'p') & (d[3] == 'q'), "a binary file keeps its bytes"); } }
    else converted(nm, (const u8*)"x\r\ny\rz\n\n", 8, "every text file below the samples directory is converted"); }
  vp_end_path(); }
#elif defined(LONGF)
static const int LN[] = { 15, 16, 17, 63, 64, 127, 128, 129, 255, 256, 257, 511, 512, 513, 1023, 1024, 1025, 2048, 4095, 4096, 4097, 8191, 8192 }; static u8 B[9000], want[9000];
int vp_main(void) {
  int n = LN[vp_choose(TIER ? 23 : 17, "length")], at = vp_choose(4, "position"), style = vp_choose(4, "style"); u8 b[3]; sym(b, 3, "bytes");
  for (int i = 0; i < n; i++) B[i] = i % 11 == 5 ? (style & 1 ? 13 : 10) : i % 11 == 6 && style == 3 ? 10 : 'a' + i % 11;
  int p = at == 0 ? 0 : at == 1 ? n - 3 : at == 2 ? (n & ~7) / 2 - 1 : n / 11 * 11 - 3; for (int i = 0; i < 3; i++) B[p + i] = b[i];
  vp_file(F, B, n); int r = run(); vp_check(r == 0, "the converter ends normally"); long m = vp_file_size(F); const u8* d = vp_file_data(F);
  int text = 1, odd = 0; for (int i = 0; i < 3; i++) text &= ((b[i] >= 32) & (b[i] < 127)) | is_eolc(b[i]); for (int i = p > 0 ? p - 1 : 0; i < p + 3 && i + 1 < n; i++) odd |= (B[i] == 10) & (B[i + 1] == 13); vp_assume(!odd);
  if (!text) { vp_check(m == n, "a binary file keeps its size"); if (m != n) vp_end_path(); int bad = 0; for (int i = 0; i < n; i++) bad |= d[i] ^ B[i]; vp_check(bad == 0, "a binary file keeps its bytes"); vp_reach("binary"); return 0; }
  int k = ref(B, n, want); vp_check(m == k, "every line end becomes one line feed: size"); if (m != k) vp_end_path(); int bad = 0; for (int i = 0; i < k; i++) bad |= d[i] ^ want[i]; vp_check(bad == 0, "every line end becomes one line feed and other bytes stay");
  vp_reach("text"); return 0; }
#else
int vp_main(void) {
  int n = vp_choose(LEN + 1, "n"); u8 b[16], want[32];
  for (int i = 0; i < n; i++) b[i] = sym8("byte");
  vp_file(F, b, n); vp_file("CMakePasm/samples/z/y", "x\ry", 3);
  int r = run(); vp_observe("rc", &r, 1);
  vp_check(r == 0, "the converter ends normally");
  long m = vp_file_size(F); const u8* d = vp_file_data(F); vp_observe("out", d, m);
  int text = 1; for (int i = 0; i < n; i++) text &= ((b[i] >= 32) & (b[i] < 127)) | is_eolc(b[i]);
  if (!text) { vp_check(m == n, "a binary file keeps its size"); for (int i = 0; i < n; i++) vp_check(d[i] == b[i], "a binary file keeps its bytes"); vp_reach("binary"); return 0; }
  int odd = 0; for (int i = 0; i + 1 < n; i++) odd |= (b[i] == 10) & (b[i + 1] == 13); // LF CR: which convention is meant is not settled
  vp_assume(!odd);
  int k = ref(b, n, want);
  vp_check(m == k, "every line end becomes one line feed: size");
  for (int i = 0; i < k; i++) vp_check(d[i] == want[i], "every line end becomes one line feed and other bytes stay");
  u8 one[32]; for (int i = 0; i < m; i++) one[i] = d[i];
  long y = vp_file_size("CMakePasm/samples/z/y"); const u8* e = vp_file_data("CMakePasm/samples/z/y"); vp_check((y == 3) && e[1] == 10, "files in directories below are converted");
  run(); long m2 = vp_file_size(F); d = vp_file_data(F); vp_check(m2 == m, "converting again changes nothing: size"); for (int i = 0; i < m2; i++) vp_check(d[i] == one[i], "converting again changes nothing");
  vp_reach("text"); return 0;
}
#endif
