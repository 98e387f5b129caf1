// C21: assembly-time loops repeat the body the right number of times.
#include "hx.h"
#define HX(v) do { u16 hv_ = (u16)(v); u8 hb_[2] = { (u8)hv_, (u8)(hv_ >> 8) }; s_s("$"); s_hexb(hb_, 2); } while (0)
static char tail_[1024]; static int tn, nd, spell;
static void t_s(const char* s) { while (*s) tail_[tn++] = *s++; }
static void t_hex(u16 v) { u8 b[2] = { (u8)v, (u8)(v >> 8) }; tail_[tn++] = '$'; for (int i = 2; i-- > 0;) { tail_[tn++] = hx_up[b[i] >> 4]; tail_[tn++] = hx_up[b[i] & 15]; } }
static char head[1024]; static int hn, hsym[1024];
static void num(u16 v, int how) { // a value: literal, symbol defined behind, sum
  how %= 4; if (how == 0) HX(v);
  else if (how == 1) { s_s("sy"); s_c('a' + nd); t_s("sy"); tail_[tn++] = 'a' + nd; t_s(" = "); t_hex(v); t_s("\n"); nd++; }
  else if (how == 2) { s_s("("); HX(v - 1); s_s(" + 1)"); }
  else { s_s("("); HX(v); s_s(" | 0)"); } }
static void numk(int v, int how) { if (v < 0) { s_s(how & 1 ? "-" : "0-"); s_dec(-v); } else if (how & 2) { s_s("(con+"); s_dec(v); s_s("-1)"); } else s_dec(v); }
enum { UP, UPS, DOWNS, WHILE, REPEAT, DO, NKIND };
typedef struct loop { int kind, k, s, sp; const char* v; u16 a; int rel; } loop; // values: a, a+s .. a+k (a-k); rel: a is the outer loop's variable plus a constant
static loop L[3]; static int nl;
static int count(const loop* l) { switch (l->kind) { case UP: return l->k < 0 ? 0 : l->k + 1; case UPS: case DOWNS: return l->k < 0 ? 0 : l->k / l->s + 1; default: { int c = l->k <= 0 ? 0 : (l->k + l->s - 1) / l->s; return l->kind != WHILE && c < 1 ? 1 : c; } } }
static u8 ex[2048]; static int en; static void e1(int b) { ex[en++] = (u8)b; } static void ew(int w) { e1(w); e1(w >> 8); }
static int form, acc;
static void start(const loop* l) { if (l->rel) { s_s("va"); if (l->a) { s_s(" + "); s_dec(l->a); } } else num(l->a, l->kind >= WHILE & l->sp % 4 == 1 ? 0 : l->sp); }
static void bound(const loop* l, int d) { if (l->rel) { s_s("(va + "); s_dec(l->a + 256 + d); s_s(" - 256)"); } else num(l->a + d, l->sp / 4); }
static void until(const loop* l, int neg) { // the loop goes on while v < a + k, in several spellings
  int ex = l->k > 0 && l->k % l->s == 0, sp = l->sp / 2 % 5; if (sp >= 3 && !ex) sp -= 3;
  static const char* const W[5] = { " < ", "", " >= ", " != ", " - " }; static const char* const U[5] = { " >= ", "", " < ", " == ", " == " };
  if (sp == 1) { s_s("("); bound(l, l->k); s_s(neg ? " <= " : " > "); s_s(l->v); s_s(") * 6"); }
  else if (sp == 2) { s_s("not("); s_s(l->v); s_s((neg ? U : W)[2]); bound(l, l->k); s_s(")"); }
  else { s_s(l->v); s_s((neg ? U : W)[sp]); bound(l, l->k); } }
static void body(int i, i64 v, i64 o, int emit) { // i: loop level; v: variable's value, o: the outer's
  const char* n = L[i].v; static const char* const F[] = { " .word %\n", " lda #<%\n ldx #>%\n", ".if % & 1\n .word %, 1\n.else\n nop\n.endif\n", "acc = acc + 1\n .byte acc\n .word %-1\n", " bt %, 7\n", " .fill <%, 2\n", " .word *, %\n", " .byte \"x\", <%\n .word % - va + 9\n" };
  if (emit) for (const char* p = F[form]; *p; p++) if (*p == '%') s_s(n); else s_c(*p);
  if (!emit) switch (form) { case 0: ew(v); break; case 1: e1(0xA9); e1(v); e1(0xA2); e1(v >> 8); break; case 2: if (v & 1) { ew(v); ew(1); } else e1(0xEA); break; case 3: e1(++acc); ew(v - 1); break; case 4: ew(v); e1(7); break; case 5: e1(v); e1(v); break; case 6: { int pc = 0x1000 + en; ew(pc); ew(v); break; } default: e1('x'); e1(v); ew(v - o + 9); } }
static void emit(int i) {
  const loop* l = &L[i]; int kind = l->kind, up = l->sp & 1;
  if (kind <= DOWNS) { s_s(up ? ".for " : " .FOR "); s_s(l->v); s_s(" = "); start(l); s_s(" .to "); bound(l, kind == DOWNS ? -l->k : l->k); if (kind != UP) { s_s(" .step "); numk(kind == DOWNS ? -l->s : l->s, l->sp); } s_s("\n"); }
  else { s_s(l->v); s_s(" = "); start(l); s_s("\n"); if (kind == WHILE) { s_s(".while "); until(l, 0); s_s("\n"); } else s_s(kind == REPEAT ? ".repeat\n" : up ? ".do\n" : " .DO\n"); }
  if (i + 1 < nl) { s_s(" .byte $77\n"); emit(i + 1); } body(i, 0, 0, 1);
  if (kind <= DOWNS) { s_s(".next "); s_s(l->v); s_s("\n"); }
  else { s_s(l->v); s_s(" = "); s_s(l->v); s_s(" + "); numk(l->s, l->sp & 2); s_s("\n"); if (kind == WHILE) s_s(".wend\n"); else { s_s(kind == REPEAT ? " .until " : ".while "); until(l, kind == REPEAT); s_s("\n"); } } }
static void expect(int i, i64 outer) {
  const loop* l = &L[i]; int n = count(l); i64 a = l->rel ? (i64)l->a + outer : l->a;
  for (int j = 0; j < n; j++) { i64 v = l->kind == DOWNS ? a - j * l->s : a + j * l->s, o = i ? outer : v; if (i + 1 < nl) { e1(0x77); expect(i + 1, v); } body(i, v, o, 0); } }
int vp_main(void) {
  static const int KS[] = { -1, 0, 1, 2, 5, 6 };
  int k1 = vp_choose(NKIND, "loop"), in = vp_choose(NKIND + 1, "inner"), kk = vp_choose(6, "distance"), ks = vp_choose(in ? (TIER ? 6 : 2) : 3, "step"), sp = vp_choose(in ? (TIER ? 6 : 2) : 12, "spelling");
  nl = in ? 2 : 1; spell = sp + k1 + kk; form = (k1 * 3 + in + kk * 5 + sp + ks) % 8;
  static const u16 P[] = { 0x1200, 0x8000, 0x7F00, 0x0100, 0xFE00 }; u16 a = sym8("start") | P[(kk + ks + k1 + sp) % 5];
  static const int ST[] = { 1, 2, 3 };
  L[0] = (loop){ k1, KS[kk], k1 == UP ? 1 : ST[ks % 3], spell, "va", a, 0 };
  if (in) { L[1] = (loop){ in - 1, KS[(kk + ks + sp + 1) % 6], in - 1 == UP ? 1 : ST[(ks + sp + kk) % 3], spell / 2 + in, "vb", (u16)(sp % 3 == 0 ? sym16("inner") : sp), sp % 3 != 0 }; if (!L[1].rel) vp_assume((L[1].a >= 0x20) & (L[1].a < 0x60)); }
  if (k1 == DO && in - 1 == WHILE) vp_end_path(); // .while ends the .do block
  s_s(" .org $1000\n .var va, vb, acc = 0\ncon = 1\n.macro bt\n .word \\1\n .byte \\2\n.endm\n");
  emit(0); s_s(" .byte $99\n"); form = (form + 1) % 8; emit(0); s_s("last: .word last\n"); s_n(tail_, tn);
  asm_run(); OK_RUN("loops");
  form = (form + 7) % 8; expect(0, 0); e1(0x99); form = (form + 1) % 8; expect(0, 0); ew(0x1000 + en);
  vp_check(outn == en, "the body is assembled as often as the loop says"); if (outn != en) vp_end_path();
  for (int i = 0; i < en; i++) vp_check(out[i] == ex[i], "the loop variable has its current value in the body");
  vp_reach("end"); vp_end_path(); }
