// C16: scoped symbols (sections) and local @ labels resolve to their own definition.
#include "stmts.h"
static int fixn; static struct { u32 val; int label; } want[40]; static int nw; // expected words: constants, or offset of a label in the output
static int emitted; static int bad;
static void ref(const char* n) { s_s(" .word "); s_s(n); s_s("\n"); emitted += 2; }
struct def { int kind; u16 v; int at; }; // 0 none, 1 constant at the start, 2 constant at the end, 3 label at the start, 4 label at the end
static void start(struct def* d, const char* n) { if (d->kind == 1) { s_s(n); s_s(" = "); h16(d->v); s_s("\n"); } if (d->kind == 3) { s_s(n); s_s(":\n"); d->at = emitted; } }
static void end(struct def* d, const char* n) { if (d->kind == 2) { s_s(n); s_s(" = "); h16(d->v); s_s("\n"); } if (d->kind == 4) { s_s(n); s_s(":\n"); d->at = emitted; } }
static u16 ORG = 0x1000;
static u16 value(struct def* d) { return d->kind <= 2 ? d->v : (u16)(ORG + d->at); }
#define MAXR 32
static struct def* expect[MAXR]; static int nr;
static void use(const char* n, struct def* own, struct def* glob) { ref(n); struct def* d = own && own->kind ? own : glob; expect[nr++] = d && d->kind ? d : 0; }
static void verify(const char* what) {
  int undef = 0; for (int i = 0; i < nr; i++) undef |= !expect[i];
  asm_run();
  if (undef) { vp_check(rc != 0, "a name without a definition in reach fails the assembly"); vp_reach("undefined"); vp_end_path(); }
  OK_RUN("scopes"); vp_check(outn == emitted, "size"); if (outn != emitted) vp_end_path();
  int at = 0; for (int i = 0; i < nr; i++) { u16 v = value(expect[i]); vp_check((out[2 * i] == (u8)v) & (out[2 * i + 1] == v >> 8), what); }
  vp_reach("end"); vp_end_path(); }
#ifdef LOCALS
// three ordinary labels (globals, or one of them in a section), each with @one and @two defined before, behind or not, and references
int vp_main(void) {
  int pl[3][2]; int nt = TIER ? 2 : 1; int shape = vp_choose(5, "shape"); // 4: nothing in front of the first local labels
  static const char* const L[] = { "lab1", "lab2", "other" }; static const char* const N[] = { "@one", "@two" };
  static struct def d[3][2]; int c = vp_choose(729, "places"); for (int i = 0; i < 3; i++) for (int j = 0; j < 2; j++) { pl[i][j] = c % 3; c /= 3; } if (!TIER) { c = 0; for (int i = 0; i < 3; i++) for (int j = 0; j < 2; j++) c += pl[i][j] * (i * 2 + j + 1); if (c % 3) vp_end_path(); }
  s_s(" .org $1000\n");
  for (int i = 0; i < 3; i++) {
    if (shape == 1 && i == 1) s_s(" .section scp\n"); if (shape == 3) s_s(i == 0 ? " .section seca\n" : i == 1 ? ".section secb\n" : " .section secc\n");
    if (shape != 4 || i) { s_s(shape == 3 ? "same" : L[i]); s_s(i == 1 ? "\n" : ":\n"); } if (shape == 2 && i == 1) s_s("konst = $1234\n .var vv = 3\n");
    for (int j = 0; j < 2; j++) if (pl[i][j] == 1) { s_s(N[j]); s_s(j ? ":\n" : "\n"); d[i][j].kind = 3; d[i][j].at = emitted; s_s(" .word $7777\n"); emitted += 2; static struct def k; k.kind = 1; k.v = 0x7777; expect[nr++] = &k; }
    static struct def own; if (i == 0) { own.kind = 3; own.at = 0; }
    for (int j = 0; j < 2; j++) if (pl[i][j]) { ref(N[j]); expect[nr++] = &d[i][j]; }
    for (int j = 0; j < 2; j++) if (pl[i][j] == 2) { s_s(N[j]); s_s(":\n"); d[i][j].kind = 4; d[i][j].at = emitted; }
    if (shape == 1 && i == 1) s_s(" .ends\n"); if (shape == 3) s_s(" .endsection\n"); }
  ref("lab9"); static struct def k9; k9.kind = 1; k9.v = sym16("v"); expect[nr++] = &k9; s_s("lab9 = "); h16(k9.v); s_s("\n");
  verify("a local label resolves to the one of its own ordinary label"); }
#elif defined(MISSING)
// a reference to a @ name that only other labels have is undefined
int vp_main(void) {
  int where = vp_choose(3, "where"), at = vp_choose(2, "before"); u8 c = sym8("c"); vp_assume((c >= 'a') & (c <= 'z'));
  char n[4] = { '@', 'p', c, 0 }; s_s(" .org $1000\n"); for (int i = 0; i < 3; i++) { s_s("lb"); s_c('0' + i); s_s(":\n"); if (i == where && !at) { s_s(" lda "); s_n(n, 3); s_s("\n"); } s_s(i == 0 ? "@pa: nop\n" : i == 1 ? "@pb: nop\n@pc:\n" : "@pd: inx\n"); if (i == where && at) { s_s(" lda "); s_n(n, 3); s_s("\n"); } }
  int def = where == 0 ? c == 'a' : where == 1 ? (c == 'b') | (c == 'c') : c == 'd'; asm_run(); if (def) { vp_check(rc == 0, "the label's own local label is found"); vp_reach("end"); } else { vp_check(rc != 0, "another label's local label is not found"); vp_reach("undefined"); } vp_end_path(); }
#elif defined(DEEP)
// sections nested three deep: the end of each leads back into the one around it
int vp_main(void) {
  static struct def d[4]; int k = vp_choose(TIER ? 625 : 256, "definitions"), base = TIER ? 5 : 4, two = vp_choose(2, "twice"); static const char* const S[] = { "", "out", "mid", "inn" };
  for (int i = 0; i < 4; i++) { d[i].kind = k % base; k /= base; d[i].v = sym16("v"); }
  static char q[4][32]; strcpy(q[0], "nam"); strcpy(q[1], "out.nam"); strcpy(q[2], "out.mid.nam"); strcpy(q[3], "out.mid.inn.nam");
  s_s(" .org $1000\n"); start(&d[0], "nam");
  for (int i = 1; i < 4; i++) { s_s(i == 2 ? ".section " : " .sect "); s_s(S[i]); s_s("\n"); start(&d[i], "nam"); use("nam", &d[i], &d[0]); }
  for (int i = 3; i > 0; i--) { end(&d[i], "nam"); s_s(i == 2 ? " .ends\n" : ".endsection\n"); if (i > 1 || d[0].kind) use("nam", &d[i - 1], &d[0]);
    if (two && i == 2) { s_s(" .section more\n"); use("nam", 0, &d[0]); if (d[1].kind) use("out.nam", &d[1], 0); s_s(" .ends\n"); use("nam", &d[1], &d[0]); } }
  end(&d[0], "nam"); for (int i = 0; i < 4; i++) if (d[i].kind) use(q[i], &d[i], 0);
  verify("behind the end of a section a name is that of the section around it"); }
#elif defined(QDEF)
// a definition under the full name is the section's own, wherever it stands
static struct def d, g; static int place; static int k; static const char* N[3];
static void here(int p) { if (place != p) return; const char* n = p == 0 ? N[0] : N[1]; if (d.kind == 1) { s_s(n); s_s(" = "); h16(d.v); s_s("\n"); } else { static struct def l; s_s(n); s_s(k ? ":\n" : "\n"); d.at = emitted; s_s("@loc: .word $7777\n"); l.kind = 3; l.at = emitted; emitted += 2; static struct def c; c.kind = 1; c.v = 0x7777; expect[nr++] = &c; ref("@loc"); expect[nr++] = &l; static struct def f; f.kind = 3; ref("@fwd"); expect[nr++] = &f; f.at = emitted; s_s("@fwd:\n"); } }
int vp_main(void) {
  int shape = vp_choose(TIER ? 4 : 2, "section"); place = vp_choose(8, "place"); d.kind = vp_choose(2, "kind") ? 3 : 1; g.kind = vp_choose(3, "global"); if (g.kind == 2) g.kind = 4; k = (place + shape) & 1;
  d.v = sym16("d"); g.v = sym16("g"); const char* S = shape & 1 ? "sct.inn" : "sct"; static char q[40]; N[0] = shape & 2 ? "v1" : "name"; strcpy(q, S); strcat(q, "."); strcat(q, N[0]); N[1] = q;
  s_s(" .org $1000\n"); start(&g, N[0]); use(q, &d, 0); here(2); here(7); use(q, &d, 0); if (g.kind) use(N[0], &g, 0);
  s_s(" .section other\n"); use(q, &d, 0); here(3); use(q, &d, 0); if (g.kind) use(N[0], 0, &g); s_s(" .ends\n .section sct\n"); if (shape & 1) s_s(" .section inn\n");
  use(N[0], &d, &g); here(0); use(q, &d, 0); here(1); use(N[0], &d, &g); s_s(".section deep\n"); here(6); use(q, &d, 0); if (g.kind) use(N[0], 0, &g); s_s(".ends\n"); use(N[0], &d, &g); if (shape & 1) { s_s(" .ends\n"); if (g.kind) use(N[0], 0, &g); } s_s(" .ends\n");
  if (g.kind) use(N[0], &g, 0); s_s(" .section other\n"); here(4); use(q, &d, 0); s_s(" .ends\n"); here(5); use(q, &d, 0); end(&g, N[0]);
  verify("a definition under its full name is the section's"); }
#else
int vp_main(void) {
  static struct def g, a, b, c; int k = vp_choose(625, "definitions"), shape = vp_choose(TIER ? 4 : 2, "shape"); 
  g.kind = k % 5; a.kind = k / 5 % 5; b.kind = k / 25 % 5; c.kind = k / 125; g.v = sym16("g"); a.v = sym16("a"); b.v = sym16("b"); c.v = sym16("c");
  if (!TIER && shape == 1 && k % 3) vp_end_path();
  const char* n = shape == 1 ? "va_2" : "name", *A = shape == 1 ? "name2" : "alpha", *B = shape == 1 ? "alpha1" : "beta";
  static char qa[32], qb[32], qc[32]; strcpy(qa, A); strcat(qa, "."); strcpy(qb, B); strcat(qb, "."); strcpy(qc, qa); strcat(qc, "gam."); strcat(qa, n); strcat(qb, n); strcat(qc, n);
  s_s(" .org $1000\n"); start(&g, n);
  if (g.kind) use(n, &g, 0); if (a.kind) use(qa, &a, 0); if (c.kind) use(qc, &c, 0);
  s_s(" .section "); s_s(A); s_s("\n"); start(&a, n); use(n, &a, &g); if (b.kind) use(qb, &b, 0);
    s_s(" .sect gam\n"); start(&c, n); use(n, &c, &g); if (a.kind) use(qa, &a, 0); end(&c, n); s_s(" .endsection\n");
  if (shape >= 2) { s_s(" .ends\n .section "); s_s(A); s_s("\n"); } // the same section again
  use(n, &a, &g); end(&a, n); s_s(" .ends\n");
  s_s(" .section "); s_s(B); s_s("\n"); start(&b, n); use(n, &b, &g); end(&b, n); if (c.kind) use(qc, &c, 0); s_s(" .ends\n");
  if (g.kind) use(n, &g, 0); if (a.kind) use(qa, &a, 0); if (b.kind) use(qb, &b, 0); if (c.kind) use(qc, &c, 0);
  end(&g, n); if (g.kind) use(n, &g, 0);
  verify("a name resolves to its section's own definition, otherwise to the global one"); }
#endif
