// C17: a reference of n minus (plus) signs is the n-th nearest anonymous minus label at or before (plus label after) it.
#include "stmts.h"
#define NL (TIER ? 6 : 5)
#define MAXR 80
static struct { int at, kind, target; u16 next; } R[MAXR]; static int nr; // kind 0: word, 1: instruction operand, 2: branch
static int mark[8], at[8], off, added; static u8 cnt; static int fixed_at;
static void name(int plus, int depth) { for (int i = 0; i < depth; i++) s_c(plus ? '+' : '-'); }
static int target(int line, int plus, int depth) { // the line of the label meant, or -1
  if (plus) { for (int i = line + 1; i < NL; i++) if (mark[i] == 2 && --depth == 0) return i; }
  else for (int i = line; i >= 0; i--) if (mark[i] == 1 && --depth == 0) return i;
  return -1; }
static void refer(int form, int line, int plus, int depth) {
  R[nr].target = target(line, plus, depth); R[nr].at = off;
  switch (form) {
    case 0: s_s(" .word "); name(plus, depth); s_s("\n"); R[nr].kind = 0; off += 2; break;
    case 1: s_s(" lda "); name(plus, depth); s_s("\n"); R[nr].kind = 1; off += 3; break;
    case 2: s_s(" bne "); name(plus, depth); s_s("\n"); R[nr].kind = 2; off += 2; break;
    case 3: s_s(".if 1\n jmp "); name(plus, depth); s_s("\n .endif\n"); R[nr].kind = 1; off += 3; break;
    case 4: s_s(" .word $1111, "); name(plus, depth); s_s(" + 1 - 1\n"); R[nr].at = off + 2; R[nr].kind = 0; off += 4; break;
    case 5: s_s(" mac "); name(plus, depth); s_s("\n"); R[nr].kind = 0; off += 2; break; }
  nr++; }
#ifdef FILES // a file includes another: the labels of each are its own
static const char* const NM[] = { "0p", "a.as", "A.B", "bb", "z9", "_q", "a.asm2" };
int vp_main(void) {
  int lay = vp_choose(TIER ? 729 : 243, "layout"), nm_ = vp_choose(7, "name"), form = vp_choose(3, "form"), pos = 1 + vp_choose(2, "position"), N = TIER ? 6 : 5; int mk[6]; for (int i = 0, c = lay; i < N; i++) { mk[i] = c % 3; c /= 3; }
  if (!TIER && (nm_ + lay) % 3 != form) vp_end_path();
  u16 org = sym16("org"); vp_assume((org >= 0x200) & (org < 0xE000)); u8 q = sym8("b");
  // the file a.asm has the lines 0, 1 and 2, the included one, behind the line pos, the lines 3 and up
  int addr[6], refs = 0; struct { int at, to; } r[40]; static char inc[512]; int in = 0;
  { s_s(" .org "); h16(org); s_s("\n");
    static const int O1[] = { 0, 3, 4, 5, 1, 2 }, O2[] = { 0, 1, 3, 4, 5, 2 }; int keep = sn;
    for (int j = 0; j < 6; j++) { int i = (pos == 1 ? O1 : O2)[j]; if (i >= N) continue; int lo = i < 3 ? 0 : 3, hi = i < 3 ? 3 : N;
      if (i == 3) { s_s(" .inc \""); s_s(NM[nm_]); s_s("\"\n"); keep = sn; }
      addr[i] = off; if (mk[i]) s_s(mk[i] == 1 ? "-" : "+"); s_s(" ldx #"); h8(q); s_s("\n"); off += 2;
      for (int plus = 0; plus < 2; plus++) for (int d = 1; d <= 3; d++) { int t = -1, k = d; if (plus) { for (int x = i + 1; x < hi; x++) if (mk[x] == 2 && --k == 0) { t = x; break; } } else for (int x = i; x >= lo; x--) if (mk[x] == 1 && --k == 0) { t = x; break; }
        if (t < 0) continue; s_s(form == 0 ? " .word " : form == 1 ? " jmp " : " bne "); name(plus, d); s_s("\n"); r[refs].at = off; r[refs++].to = t; off += form == 1 ? 3 : 2; }
      if (i == N - 1 && i >= 3) { in = sn - keep; memcpy(inc, src + keep, in); sn = keep; } } }
  vp_file(NM[nm_], inc, in);
  asm_run(); OK_RUN("anonymous labels in two files"); vp_check(outn == off, "size"); if (outn != off) vp_end_path();
  for (int i = 0; i < refs; i++) { int a = r[i].at; u16 t = org + addr[r[i].to];
    if (form == 2) vp_check((u8)out[a + 1] == (u8)(t - (org + a + 2)), "a branch goes to the n-th neighbouring anonymous label of its file");
    else { if (form == 1) a++; vp_check((out[a] == (u8)t) & (out[a + 1] == t >> 8), "the n-th neighbouring anonymous label of the file"); } }
  vp_reach("end"); vp_end_path(); }
#else
int vp_main(void) {
  int lay = vp_choose(TIER ? 729 : 243, "layout"), form = vp_choose(6, "form"), shape = vp_choose(3, "shape"); // shape 2: one reference to a label that does not exist
  for (int i = 0, c = lay; i < NL; i++) { mark[i] = c % 3; c /= 3; }
  if (shape != form % 2 && shape != 2 && !TIER) vp_end_path();
  if (shape == 2 && !TIER && lay % 3 != form % 3) vp_end_path();
  u16 org = sym16("org"); vp_assume((org >= 0x200) & (org < 0xE000)); if (TIER) { cnt = sym8("count"); vp_assume(cnt < 4); } else cnt = (lay + form) % 4;
  if (form == 5) s_s(".macro mac\n .word \\1\n.endm\n"); if (form == 0 && shape == 1 && mark[0]) ; else { s_s(" .org "); h16(org); s_s("\n"); }
  int bare = form == 0 && shape == 1 && mark[0]; // a label on the very first line; the origin is the default one
  for (int i = 0; i < NL; i++) {
    at[i] = off; if (mark[i]) s_s(mark[i] == 1 ? "-" : "+");
    if (mark[i] && (shape == 0 || form == 3)) s_s("\n");
    if (shape == 2) { if (i == lay % NL) { int plus = vp_choose(2, "plus"), depth = 1; while (target(i, plus, depth) >= 0) depth++; refer(form, i, plus, depth); } else { s_s(" nop\n"); off++; } }
    else { int any = 0; for (int plus = 0; plus < 2; plus++) for (int d = 1; d <= 4; d++) if (target(i, plus, d) >= 0) { refer(form, i, plus, d); any = 1; } if (!any) { s_s(" inx\n"); off++; } }
    if (i == 2) { fixed_at = off; s_s(" .fill 7, "); h8(cnt); s_s("\n"); } }
  asm_run();
  if (shape == 2) { vp_check(rc != 0, "a reference to an anonymous label that does not exist fails the assembly"); vp_reach("missing"); vp_end_path(); }
  OK_RUN("anonymous labels"); vp_check(outn == off + cnt, "size"); if (outn != off + cnt) vp_end_path();
  u16 o = bare ? 0x1000 : org;
  for (int i = 0; i < nr; i++) {
    int c = R[i].at >= fixed_at ? cnt : 0, a = R[i].at + c, ta = at[R[i].target]; u16 t = o + ta + (R[i].target > 2 ? cnt : 0);
    if (R[i].kind == 2) vp_check((u8)out[a + 1] == (u8)(t - (o + a + 2)), "a branch goes to the n-th neighbouring anonymous label");
    else { if (R[i].kind == 1) a++; vp_check((out[a] == (u8)t) & (out[a + 1] == t >> 8), "the n-th neighbouring anonymous label"); } }
  vp_reach("end"); vp_end_path(); }
#endif
