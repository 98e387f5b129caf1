// C20: conditional assembly assembles exactly the chosen branch.
#include "hx.h"
#define HX(v) do { u16 hv_ = (v); u8 hb_[2] = { (u8)hv_, (u8)(hv_ >> 8) }; s_s("$"); s_hexb(hb_, 2); } while (0)
typedef struct blk { int kind, cond, els, sub[2]; } blk; // kind: 0 if, 1 ifdef, 2 ifndef; sub: block nested in the branch, or -1
static blk B[8]; static int nb, rot, mark, ctx, surround;
static u16 con, fwd, w; static u8 letter; static int vara;
static const char* const K[2][3] = { { " .if ", " .ifdef ", ".ifndef " }, { ".IF ", ".IfDef ", " .IFNDEF\t" } };
#define NCOND 16
#define NNAME 13
// text and value of the condition of an if block
static i64 cond(int k, int emit) {
  switch (k) {
    case 0: if (emit) HX(w); return w;
    case 1: if (emit) s_s("con"); return con;
    case 2: if (emit) s_s("fwd"); return fwd;
    case 3: if (emit) { s_s("con == "); HX(w); } return con == w;
    case 4: if (emit) s_s("con - fwd"); return (i64)con - fwd;
    case 5: if (emit) s_s("vara"); return vara;
    case 6: if (emit) s_s("labb - laba - 1"); return 0;
    case 7: if (emit) s_s("* >= $1000"); return 1;
    case 8: if (emit) { s_s("fwd < "); HX(w); } return fwd < w;
    case 9: if (emit) s_s("not con"); return con == 0;
    case 10: if (emit) s_s("con && fwd"); return (con != 0) & (fwd != 0);
    case 11: if (emit) s_s("con || fwd"); return (con != 0) | (fwd != 0);
    case 12: if (emit) s_s("(0 - 2) * con"); return -2 * (i64)con;
    case 13: if (emit) s_s(">con"); return con >> 8;
    case 14: if (emit) s_s("<fwd"); return fwd & 255;
    default: if (emit) s_s(surround == 2 ? "ii" : surround == 3 ? "\\1" : "(con & $100)"); return surround == 2 || surround == 3 ? ctx : con & 0x100; } }
static int defined(int k, int emit) {
  static const char* const N[] = { "con", "laba", "vara", "mac", "opt", "sect.sa", "fwd", "never", "CoN", "nota", "nam", "yesa", "labz" };
  if (emit) { s_s(N[k]); if (k == 10) s_c(letter); }
  switch (k) { case 6: case 7: case 9: case 12: return 0; case 10: return (letter == 'q') | (letter == 'Q'); default: return 1; } }
static int truth(int b) { int k = B[b].kind; if (!k) return cond(B[b].cond, 0) != 0; int d = defined(B[b].cond, 0); return k == 1 ? d : !d; }
static u8 ex[512]; static int en;
static int off; // in a branch not chosen
static void e1(int b) { if (!off) ex[en++] = (u8)b; }
static void body(int emit) {
  int m = mark++, k = (m + rot) % 8;
  switch (k) {
    case 0: if (emit) { s_s(" .byte "); s_dec(m); s_s("\n"); } else e1(m); break;
    case 1: if (emit) { s_s(" lda #"); s_dec(m); s_s(" ; .else\n"); } else { e1(0xA9); e1(m); } break;
    case 2: if (emit) { s_s(" .word "); s_dec(m); s_s("\n"); } else { e1(m); e1(0); } break;
    case 3: if (emit) { s_s(" jmp $1200+"); s_dec(m); s_s(" // .endif\n"); } else { e1(0x4C); e1(m); e1(0x12); } break;
    case 4: if (emit) { s_s(" .byte \".else\", "); s_dec(m); s_s("\n"); } else { for (const char* p = ".else"; *p; p++) e1(*p); e1(m); } break;
    case 5: if (emit) s_s(" sta fwd,x\n"); else { if (fwd < 256) { e1(0x95); e1(fwd); } else { e1(0x9D); e1(fwd); e1(fwd >> 8); } } break;
    case 6: if (emit) { s_s("/* .endif\n .if */\n .byte ';', \".if 1\","); s_dec(m); s_s("\n"); } else { e1(';'); for (const char* p = ".if 1"; *p; p++) e1(*p); e1(m); } break;
    default: if (emit) { s_s("vara = vara\n\n ldx #"); s_dec(m); s_s("\n"); } else { e1(0xA2); e1(m); } } }
static void noise(int skipped, int chosen) { // in branches not assembled
  if (skipped) s_s((rot & 1) ? " this \"is no statement, don't\n .byte notdefined, 99\nnota = 1\n .org 5\n .error\n" : " lda #1,x\n; \"\n .byte \"; .endif\"\n dup: dup: x.if .bytes\n .end\n");
  else if (!chosen) s_s((rot & 1) ? " lda notdefined\nnota = 5\n" : " .byte notdefined\n .var nota\n jsr notdefined+1\n"); }
static void gen(int b, int emit, int skipped, int dead) { // dead: known not to be assembled
  int t = emit | off ? 2 : truth(b), i = B[b].kind == 0;
  if (emit) { if (B[b].cond == 10 && !i) t = 2; else if (!i || B[b].cond == 6 || B[b].cond == 7) t = truth(b); }
  if (emit) { s_s(K[(b + rot) & 1][B[b].kind]); if (i) cond(B[b].cond, 1); else defined(B[b].cond, 1); s_s(rot & 2 ? " ; .else\n" : "\n"); }
  for (int br = 0; br <= B[b].els; br++) { int live = t == 2 ? 2 : t ? br == 0 : br == 1;
    if (emit) { if (br) s_s(rot & 4 ? " .ELSE ; .endif\n" : ".else\n"); int sk = skipped | (!i & (live == 0)), dd = dead | (live == 0);
      if (dd) noise(sk, !(live == 0 || dead)); body(1); if (B[b].sub[br] >= 0) { gen(B[b].sub[br], 1, sk, dd); body(1); } if (sk) noise(1, 0); }
    else { if (off) live = 1; off += !live; body(0); if (B[b].sub[br] >= 0) { gen(B[b].sub[br], 0, 0, 0); body(0); } off -= !live; } }
  if (emit) s_s((b + rot) & 1 ? " .endif\n" : ".EndIf ; .if\n"); }
#ifdef INBLOCK
// a test for a symbol that is defined in the same block, in front of the test or behind it
int vp_main(void) {
  static const char* const OPEN[] = { ".if 1\n", ".if 0\n inx\n.else\n", ".for ii = 1 .to 2\n", "ii = 2\n.while ii > 0\n", "ii = 2\n.repeat\n", " .section blk\n", ".if 1\n.for ii = 1 .to 2\n", ".for ii = 1 .to 2\n.if ii\n", ".if 0\n", "ii = 2\n.do\n" };
  static const char* const CLOSE[] = { ".endif\n", ".endif\n", ".next ii\n", "ii = ii - 1\n.wend\n", "ii = ii - 1\n.until ii == 0\n", " .ends\n", ".next ii\n.endif\n", ".endif\n.next ii\n", ".endif\n", "ii = ii - 1\n.while ii > 0\n" };
  static const int REP[] = { 1, 1, 2, 2, 2, 1, 2, 2, 0, 2 };
  int o = vp_choose(10, "block"), k = vp_choose(2, "kind"), where = vp_choose(5, "where"), lab = vp_choose(3, "around"); u16 v = sym16("v"); int def = 0;
  s_s(" .org $1000\n .var ii = 0\n"); if (lab == 1) { s_s("laba: lda labz\n"); e1(0xAD); e1(0); e1(0); } if (lab == 2) { s_s(" .section outer\n"); }
  if (where == 3) { s_s("foo = "); HX(v); s_s("\n"); def = 1; }
  s_s(OPEN[o]); int b0 = en; static u8 body_[64]; int bn = 0;
#define B1(x) (body_[bn++] = (x))
  if (where == 0) { s_s("foo = "); HX(v); s_s("\n"); def = REP[o] != 0; }
  if (where == 4) { s_s(".if 1\nfoo = "); HX(v); s_s("\n.endif\n"); def = REP[o] != 0; }
  for (int q = 0; q < 2; q++) {
    s_s(k ? ".ifndef foo\n dex\n.else\n .word foo\n.endif\n" : ".ifdef foo\n .word foo\n.else\n dex\n.endif\n");
    int d = def & !((o == 5) & (lab == 2) & (where == 3)); // sections around are not searched
    if (d) { B1((u8)v); B1(v >> 8); } else B1(0xCA);
    if (where == 1 && !q) { s_s("foo = "); HX(v); s_s("\n"); def = REP[o] != 0; } }
  s_s(CLOSE[o]); (void)b0; for (int r = 0; r < REP[o]; r++) for (int i = 0; i < bn; i++) e1(body_[i]);
  int vis = def & !(o == 5 && where != 3); // a definition in a section is not seen behind it
  s_s(k ? ".ifndef foo\n dex\n.else\n nop\n.endif\n" : ".ifdef foo\n nop\n.else\n dex\n.endif\n"); e1(vis ? 0xEA : 0xCA);
  if (lab == 2) s_s(" .ends\n"); s_s("labz: .word labz\n"); u16 z = 0x1000 + en; e1(z); e1(z >> 8); if (lab == 1) { ex[1] = z; ex[2] = z >> 8; }
  asm_run(); OK_RUN("a test in a block"); vp_check(outn == en, "size"); if (outn != en) vp_end_path(); for (int i = 0; i < en; i++) vp_check(out[i] == ex[i], "bytes of the chosen branches"); vp_reach("end"); vp_end_path(); }
#else
int vp_main(void) {
  int c = vp_choose(32, "conditions"), k0 = vp_choose(3, "kind"), els = vp_choose(2, "else"), nest = vp_choose(els ? 4 : 2, "nest"), k1 = 0, e1_ = 0, deep = 0;
  if (nest) { k1 = vp_choose(3, "kind2"); e1_ = vp_choose(2, "else2"); if (TIER) deep = vp_choose(els ? 4 : 2, "deep"); else deep = ((c + k0 + k1) % 3 == 0) * (1 + ((c ^ k0) & 1) * e1_); }
  rot = c / 4 + c % 4 * 3; surround = (c + k0 + k1 + nest) % 4; mark = 0;
  // the values decided on: every 16-bit number
  static const u16 fv[4] = { 0x0000, 0x3400, 0x1200, 0xFF00 }; con = sym16("con"); fwd = fv[(c + c / 4) & 3] | sym8("fwd"); w = sym16("w"); letter = sym8("letter"); vp_assume(((letter >= 'a') & (letter <= 'z')) | ((letter >= 'A') & (letter <= 'Z')) | (letter == '_')); vara = c & 1 ? 0 : 3;
  for (int i = 0; i < 8; i++) B[i].sub[0] = B[i].sub[1] = -1;
  nb = 1; B[0].kind = k0; B[0].els = els; B[0].cond = k0 ? (c + k1) % NNAME : c % NCOND;
  for (int br = 0; br < 2; br++) if (nest >> br & 1) { int b = nb++; B[0].sub[br] = b; B[b].kind = k1; B[b].els = e1_; B[b].cond = k1 ? (c * 5 + b + k0) % NNAME : (c * 3 + b + k0) % NCOND;
    for (int q = 0; q <= e1_; q++) if (deep >> q & 1) { int d = nb++; B[b].sub[q] = d; B[d].kind = (c + q) % 3; B[d].els = (c >> 1) & 1; B[d].cond = B[d].kind ? (c * 7 + d) % NNAME : (c * 5 + d) % NCOND; } }
  s_s(" .org $1000\nlaba: .byte 7\nlabb:\n .var vara = "); s_dec(vara); s_s(", ii = 0\ncon = "); HX(con); s_s("\n.macro mac\n nop\n.endm\n .section sect\n nop\nsa = 1\n .ends\nnamq = 1\n lda #<fwd\n.ifdef con\nyesa = 2\n.endif\n"); opt("-d"); opt("opt"); opt("1");
  e1(7); e1(0xEA); e1(0xA9); e1(fwd);
  int reps = 1; if (surround == 1) s_s(" .section two\n"); if (surround == 2) { s_s(".for ii = 0 .to 2\n"); reps = 3; } if (surround == 3) { s_s(".macro mx\n"); reps = 2; }
  mark = 0; body(1); gen(0, 1, 0, 0); body(1); gen(0, 1, 0, 0);
  if (surround == 1) s_s(" .ends\n"); if (surround == 2) s_s(".next ii\n"); if (surround == 3) s_s(".endm\n mx 1\n mx 0\n");
  s_s("labz: .word labz\nfwd = "); HX(fwd); s_s("\n");
  asm_run(); OK_RUN("blocks");
  for (int r = 0; r < reps; r++) { ctx = surround == 2 ? r : 1 - r; mark = 0; body(0); gen(0, 0, 0, 0); body(0); gen(0, 0, 0, 0); }
  u16 end = 0x1000 + en; e1(end); e1(end >> 8);
  vp_check(outn == en, "exactly the chosen branches are assembled"); if (outn != en) vp_end_path();
  for (int i = 0; i < en; i++) vp_check(out[i] == ex[i], "bytes of the chosen branches");
  vp_reach("end"); vp_end_path(); }
#endif
