// C22: the code of register loops runs the body exactly once for each value, in order.
#include "hx.h"
#include "sim6502.h"
static char tail_[512]; static int tn; static void t_s(const char* s) { while (*s) tail_[tn++] = *s++; }
static int nsy;
static void num(u8 v, int how) { u8 b = v;
  switch (how % 5) { case 0: s_s("$"); s_hexb(&b, 1); break;
    case 1: s_s("sy"); s_c('a' + nsy); t_s("sy"); tail_[tn++] = 'a' + nsy++; t_s(" = $"); tail_[tn++] = hx_up[v >> 4]; tail_[tn++] = hx_up[v & 15]; t_s("\n"); break;
    case 2: s_s("($1"); s_hexb(&b, 1); s_s(" - $100)"); break;
    case 3: s_s("<($5"); s_hexb(&b, 1); s_s(")"); break;
    default: s_s("($"); s_hexb(&b, 1); s_s(" * 2) / 2"); } }
typedef struct rl { int y, down; u8 s, e; } rl; // .for .regX = s .to e
static int empty(const rl* l) { return l->down ? l->s < l->e : l->s > l->e; }
static u8 reg(const rl* l, const cpu6502* p) { return l->y ? p->y : p->x; }
static cpu6502 any(const char* n) { cpu6502 p; u8 f = sym8(n); p.a = f * 3 + 1; p.x = f ^ 0x5A; p.y = f + 7; p.s = 0xFD; p.n = f & 1; p.v = f >> 1 & 1; p.z = f >> 2 & 1; p.c = f >> 3 & 1; p.pc = 0; return p; }
static u16 at[6]; // body, its end, behind the loop; of the outer and the inner loop
// from p to one of the addresses; the number of the address, or -1
static int go(cpu6502* p, u16 body, u16 end, long n) { for (int k = 0; k < 8; k++) { if (!sim_step(p, out, 0x1000, n)) return -1; if (p->pc == body) return 0; if (p->pc == end) return 1; } return -1; }
static void verify(const rl* l, u16 entry, const u16* a, int down0) {
  cpu6502 p = any("before"); p.pc = entry; long n = outn;
  if (empty(l)) { if (p.pc != a[2]) { int r = go(&p, 0xFFFF, a[2], n); vp_check(r == 1, "a loop without values does not run its body"); } vp_reach("empty"); return; }
  int r = p.pc == a[0] ? 0 : go(&p, a[0], a[2], n);
  vp_check(r == 0, "the loop enters its body"); if (r != 0) vp_end_path();
  vp_check(reg(l, &p) == l->s, "the register holds the start value first");
  u8 v = sym8("value"); vp_assume(l->down ? (v <= l->s) & (v >= l->e) : (v >= l->s) & (v <= l->e));
  p = any("after"); if (l->y) p.y = v; else p.x = v; p.pc = a[1];
  r = p.pc == a[2] ? 1 : go(&p, a[0], a[2], n);
  int kf = l->down & (l->e == 0) & (l->s > 0);
  vp_check_kf(r >= 0, down0 & kf, "downto0", "behind the body the loop control goes back or on"); if (r < 0) vp_end_path();
  vp_check_kf((r == 1) == (v == l->e), down0 & kf, "downto0", "the loop ends behind the body for the end value, and only then");
  if (r == 0) vp_check(reg(l, &p) == (u8)(l->down ? v - 1 : v + 1), "the register holds the next value"); }
static void open(const rl* l, int i, int how) { s_s(how & 1 ? " .FOR .Reg" : ".for .reg"); s_c(l->y ? 'y' : 'X'); s_s(" = "); num(l->s, how); s_s(l->down ? " .downto " : " .to "); num(l->e, how / 2 + 1); s_s("\n"); s_c('p'); s_c('0' + 3 * i); s_s(" = *\n"); }
static void shut(const rl* l, int i) { s_c('p'); s_c('1' + 3 * i); s_s(" = *\n.next "); s_c(l->y ? 'Y' : 'x'); s_s("\n"); s_c('p'); s_c('2' + 3 * i); s_s(" = *\n"); }
int vp_main(void) {
  static const int LEN[] = { 1, 118, 119, 120, 121, 122, 123, 124, 125, 126, 127, 200, 300 };
  rl l, m; l.y = vp_choose(2, "register"); l.down = vp_choose(2, "direction"); int b = vp_choose(TIER ? 18 : 12, "body"), how = vp_choose(TIER ? 10 : 3, "spelling"); if (!TIER) how = how * 4 + b + 1;
  l.s = sym8("start"); l.e = sym8("end"); int two = b < 2, len = 1;
  if (two) { m.y = !l.y; m.down = b; m.s = sym8("start2"); m.e = how & 1 ? 0x55 : 0xFF; if (m.down) { m.e = how & 1 ? 3 : 0x80; } }
  s_s(" .org $1000\n .var p0, p1, p2, p3, p4, p5, ii\n.macro mm\n .byte \\1, $DB\n.endm\n nop\n"); if (how & 4) s_s("before: nop\n");
  open(&l, 0, how);
  if (two) { s_s(" nop\n"); open(&m, 1, how + 1); s_s(" sta $1234,x\n"); shut(&m, 1); s_s(" nop\n"); }
  else if (b == 2) s_s(" sta $1234,x\n lda ($12),y\n"); else if (b == 3) s_s(".for ii = 1 .to 3\n .byte $DB, ii\n.next ii\n"); else if (b == 4) s_s(" mm 5\n.if ii + 1\n mm 6\n.endif\n");
  else { len = TIER ? LEN[b - 5] : LEN[(b - 5) * 2 % 13 + (how & 1 && b < 11)]; s_s(" .fill $DB, "); s_dec(len); s_s("\n"); }
  shut(&l, 0); s_s(" nop\n");
  if (how % 3 == 0) { open(&l, 0, how + 2); s_s(" dex\n"); shut(&l, 0); } // the same again
  s_s(" .word p0, p1, p2, p3, p4, p5\n"); s_n(tail_, tn);
  asm_run(); OK_RUN("register loop");
  vp_check(outn > 12, "size"); if (outn <= 12) vp_end_path(); for (int i = 0; i < 6; i++) at[i] = out[outn - 12 + 2 * i] | out[outn - 11 + 2 * i] << 8;
  if (how % 3 == 0) { // the second loop is the one recorded
    cpu6502 p; (void)p; if (empty(&l)) { vp_reach("empty"); vp_end_path(); } u16 entry = at[0] - 2; verify(&l, entry, at, 1); vp_reach("end"); vp_end_path(); }
  u16 entry = 0x1001 + (how >> 2 & 1);
  verify(&l, entry, at, 1);
  if (two && !empty(&l)) verify(&m, at[0] + 1, at + 3, 1);
  vp_reach("end"); vp_end_path(); }
