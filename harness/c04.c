// C04: branches reach their target exactly when their condition holds, near or far.
#include "forms.h"
#include "sim6502.h"
static const char* const B[] = { "bpl", "bmi", "bvc", "bvs", "bcc", "bcs", "bne", "beq", "bra" };
static cpu6502 flags(void) { cpu6502 p; u8 f = sym8("flags"); p.a = p.x = p.y = p.s = 0; p.n = f & 1; p.v = f >> 1 & 1; p.z = f >> 2 & 1; p.c = f >> 3 & 1; return p; }
static int cond(int q, const cpu6502* p) { switch (q) { case 0: return !p->n; case 1: return p->n; case 2: return !p->v; case 3: return p->v; case 4: return !p->c; case 5: return p->c; case 6: return !p->z; case 7: return p->z; } return 1; }
static int refop(int q) { for (int i = 0; i < R_NOPS; i++) if (!strcmp(r_name[i], B[q])) return ref_op(R_65C02, i, R_REL); return -1; }
// the code for branch q at address at (image img from org, n bytes) goes to target iff the condition holds, else to `next`
static void run_branch(const u8* img, u16 org, long n, int q, u16 at, long len, u16 target) {
  cpu6502 p = flags(); int c = cond(q, &p), k; p.pc = at;
  for (k = 0; k < 4; k++) { if (!sim_step(&p, img, org, n)) { vp_check(0, "the generated code consists of branches and jumps"); vp_end_path(); } if (p.pc == target && c) break; if (p.pc < at || p.pc >= at + len) break; }
  vp_check(p.pc == (c ? target : (u16)(at + len)), "the generated code goes to the target exactly when the condition holds"); }
#ifdef ABSOLUTE
int vp_main(void) { // target: any 16-bit address
  int q = vp_choose(9, "branch"); if (q == 8) opt("-65c02");
  u16 t = sym16("target"), o = 0x1000; int how = vp_choose(2, "how");
  if (TIER) { int w = vp_choose(3, "origin"); if (w == 1) o = 0x80; if (w == 2) o = 0xC0F0; }
  s_s(" .org $"); s_hex(o, 4); s_s("\n");
  if (how) { s_s("there = $"); s_hex(t, 4); s_s("\n"); }
  s_s(" "); s_s(B[q]); if (how) s_s(" there"); else { s_s(" $"); s_hex(t, 4); } s_s("\n .byte $55\n"); if (TIER) s_s("end: .word end\n");
  asm_run(); OK_RUN("branch to a 16-bit address");
  long len = outn - (TIER ? 3 : 1); int d = (int)t - (o + 2);
  vp_check(outn > 0 && out[len] == 0x55, "the next statement follows"); 
  if (d >= -128 && d <= 127) { vp_check(len == 2, "a near target takes two bytes"); if (len != 2) vp_end_path(); vp_check(out[0] == refop(q), "branch opcode"); vp_check(out[1] == (u8)d, "exact displacement"); vp_reach("near"); }
  else { vp_check(len == (q == 8 ? 3 : 5), "a far target takes the inverted branch and a jump"); vp_reach("far"); }
  run_branch(out, o, outn, q, o, len, t);
  if (TIER) { u16 e = (u16)(o + len + 1); vp_check(out[len + 1] == (u8)e && out[len + 2] == e >> 8, "the following label's address accounts for the branch"); }
  vp_reach("end"); vp_end_path(); }
#elif defined(LABELS)
int vp_main(void) { // targets: labels of every kind around blocks of bytes of every size near the limits; several branches in one program
  int q = vp_choose(TIER ? 9 : 4, "branch"), dir = vp_choose(2, "dir"); if (!TIER) q = q * 2 + dir; if (q == 8) opt("-65c02");
  int g = vp_choose(TIER ? 20 : 11, "gap"), n = TIER ? (g < 4 ? g : g < 18 ? 116 + g : 200 + g * 5) : (g < 1 ? 0 : 120 + g), two = vp_choose(2, "two"), kind = vp_choose(8, "kind"), org = vp_choose(TIER ? 4 : 2, "origin"); static const u16 OG[] = { 0x1000, 0, 0x20, 0xFF }; org = OG[org];
  if (kind != 0 | org != 0x1000) if (!TIER & ((g % 3 != 1) | (q >> 1) != (g / 3 & 3))) vp_end_path();
  u8 f = sym8("fill"); const char* const def = kind == 0 ? "aa:\n" : kind == 1 ? dir ? "+\n" : "-\n" : kind == 2 | kind == 4 | kind >= 6 ? "@aa\n" : "aa:\n"; const char* const use = kind == 0 ? " aa\n" : kind == 1 ? dir ? " +\n" : " -\n" : kind == 2 | kind == 4 | kind >= 6 ? " @aa\n" : " aa\n";
  s_s(" .org $"); s_hex(org, 4); s_s("\n"); if (kind == 3) s_s(".section s1\n"); if (kind == 2) s_s("start\n"); if (kind == 4) s_s(".macro mm\n"); if (kind == 5) s_s(".ifndef zz\n"); if (kind == 6) s_s(".section s1\n.macro mm\n"); if (kind == 7) s_s(".macro mm\n.if \\1\n");
  #define DEF() s_s(def)
  if (dir == 0) DEF(); for (int k = 0; k <= two; k++) { if (dir == 0) break; s_s(" "); s_s(B[q]); s_s(use); }
  if (n) { s_s(" .fill $"); s_hex(f, 2); s_s(","); s_dec(n); s_s("\n"); }
  if (dir == 1) DEF(); else for (int k = 0; k <= two; k++) { s_s(" "); s_s(B[q]); s_s(use); }
  if (kind == 3) s_s(".ends\n"); if (kind == 7) s_s(".endif\n"); if (kind == 4) s_s(".endm\n mm\n"); if (kind == 5) s_s(".endif\n"); if (kind == 6) s_s(".endm\n mm\n.ends\n"); if (kind == 7) s_s(".endm\n mm 1\n"); s_s(" .word *\n");
  asm_run(); OK_RUN("branch to a label");
  long body = outn - 2 - n; int first = dir == 0 ? n : 0;
  // sizes from the output itself: each branch is 2 bytes or the far form
  int far = q == 8 ? 3 : 5, nb = two + 1; long at = first; u16 target = dir == 0 ? org : (u16)(org + outn - 2);
  vp_check(body >= 2 * nb && body <= far * nb, "only the branches, the block and the marker are emitted");
  for (int k = 0; k < nb; k++) { if (at + 1 >= outn) { vp_check(0, "the branch is emitted"); vp_end_path(); }
    int isfar = q == 8 ? out[at] == 0x4C : out[at] != refop(q); long len = isfar ? far : 2; int d = (int)target - (int)(org + at + 2);
    vp_check(isfar == !(d >= -128 && d <= 127), "the far form exactly when the target is out of reach"); 
    run_branch(out, org, outn, q, (u16)(org + at), len, target); at += len; }
  vp_check(at + (dir == 0 ? 0 : n) + 2 == outn, "nothing else is emitted");
  for (int k = 0; k < n; k++) vp_check(out[dir == 0 ? k : at + k] == f, "the block is intact");
  u16 pc = (u16)(org + outn - 2); vp_check(out[outn - 2] == (u8)pc && out[outn - 1] == pc >> 8, "the address after the branches is the real one");
  vp_reach("end"); vp_end_path(); }
#else
int vp_main(void) { // the same branch statement assembled several times by a loop: each copy on its own
  int q = vp_choose(9, "branch"), n = 2 + vp_choose(2, "times"); if (q == 8) opt("-65c02"); u16 t = sym16("target");
  s_s(" .org $1000\n .var v\n.for v=1 .to "); s_dec(n); s_s("\n "); s_s(B[q]); s_s(" $"); s_hex(t, 4); s_s("\n.next v\n .byte $55\n");
  asm_run(); OK_RUN("branch in a loop");
  long at = 0; for (int k = 0; k < n; k++) { if (at + 1 >= outn) { vp_check(0, "every copy is emitted"); vp_end_path(); }
    int d = (int)t - (int)(0x1000 + at + 2), isfar = !(d >= -128 && d <= 127); long len = isfar ? (q == 8 ? 3 : 5) : 2; run_branch(out, 0x1000, outn, q, (u16)(0x1000 + at), len, t); at += len; }
  vp_check(outn == at + 1 && out[at] == 0x55, "the next statement follows");
  vp_reach("end"); vp_end_path(); }
#endif
