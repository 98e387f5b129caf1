// C19: a macro call assembles to the bytes of the macro's body written in its place with the arguments' values.
#include "stmts.h"
// \1 \2 \3: parameters; @x, @y: local labels; {..}: a call of the inner macro
static const char* const B[] = {
  " lda \\1\n sta \\2,x\n", " ldx \\2,y\n lda (<\\1),y\n adc #>\\3\n", " .byte <\\1, >\\2\n .word \\3, \\1 + \\2\n", ".if \\1 > \\2\n lda \\3\n.else\n nop\n.endif\n",
  "@x\n dex\n bne @x\n jmp @y\n .word \\1\n@y\n", " .fill <\\1, <\\2 & 1\n .word \\2\n", ".for ii = 0 .to <\\1 & 1\n .word \\2 + ii\n.next ii\n", " .str \"ab\", \\1\n nop\n .str <\\3\n",
  "jj = <\\1 & 1\n.while jj < 2\n .byte jj, <\\2\njj = jj + 1\n.wend\n", ".for .regx = 0 .to <\\1 & $F | 1\n sta \\2,x\n.next x\n", " lda @y\n@y\n .word @y, @x\n@x\n", " bne \\1\n jmp (\\2)\n", " lda #<\\1\n ldx #>\\1\n nop\n sta *+3\n .word *\n",
  // nested calls
  "{\\2,\\1,\\3} .word \\1, \\2\n", " nop\n{\\1,$77,\\2}{\\3,\\2,\\1} .word \\3\n", "{\\3,\\3,\\1}@y\n jmp @y\n{\\2,\\1,\\2} jmp @y\n" };
#define NB 16
#define NFLAT 13
static int expand, inner, ncall, qual, inbody;
static void body(int k, const char* const* arg, int call);
static void invoke(int k, const char* const* arg) { // a call, or the body in its place
  if (!expand) { s_s(inbody | !qual ? " " : " one."); s_s(k == inner ? "inner " : "outer "); for (int i = 0; i < 3; i++) { if (i) s_s(","); s_s(arg[i]); } s_s("\n"); return; }
  body(k, arg, ncall++); }
static void body(int k, const char* const* arg, int call) {
  for (const char* p = B[k]; *p; p++) {
    if (*p == '\\') { s_s(arg[p[1] - '1']); p++; }
    else if (*p == '@' && expand) { s_c('@'); s_c(*++p); s_c('a' + call); }
    else if (*p == '{') { const char* a[3]; static char lit[] = "$77"; for (int i = 0; i < 3; i++) { p++; if (*p == '$') { a[i] = lit; p += 3; } else { a[i] = arg[p[1] - '1']; p += 2; } } invoke(inner, a); }
    else s_c(*p); } }
static const char* const PAR[] = { "\\1", "\\2", "\\3" };
static char argt[9][16], litt[9][16]; // argument as written in the call, and where the body is written in place
static int nargs, nval;
static u16 symv(const char* n) { static const u8 hi[] = { 0x12, 0x00, 0xE7, 0x45, 0x01, 0x98, 0x23, 0xFE, 0x80, 0x00, 0x3C, 0x6F, 0xAB, 0x57, 0x70, 0xC9 }; return hi[nval++ & 15] << 8 | sym8(n); } // one of the pages, every byte in it
static void argument(int kind, int i) { // numbers are symbolic
  u16 v; char* w = argt[nargs], *l = litt[nargs]; nargs++; static char nmx[4]; 
  switch (kind) {
    case 0: v = symv("v"); { u8 b[2] = { (u8)v, (u8)(v >> 8) }; w[0] = '$'; for (int k = 0; k < 2; k++) { w[1 + 2 * k] = hx_up[b[1 - k] >> 4]; w[2 + 2 * k] = hx_up[b[1 - k] & 15]; } w[5] = 0; strcpy(l, w); } break;
    case 1: strcpy(w, "cona"); w[3] = 'a' + i; strcpy(l, w); break;                                   // defined before
    case 2: v = symv("v"); t_s("fwd"); tail_[tn++] = 'a' + i; t_s(" = $"); t_hex(v); t_s("\n"); strcpy(w, "fwda"); w[3] = 'a' + i; strcpy(l, w); break;
    case 3: v = symv("v"); if (v < 0x200) v += 0x4400; t_s("exp"); tail_[tn++] = 'a' + i; t_s(" = $"); t_hex(v); t_s(" - 2 * 100\nfwe"); tail_[tn++] = 'a' + i; t_s(" = $"); t_hex(v); t_s("\n"); strcpy(w, "fwea-2*100"); w[3] = 'a' + i; strcpy(l, "expa"); l[3] = 'a' + i; break;
    case 4: strcpy(w, "last"); strcpy(l, w); break;
    case 5: strcpy(w, "vara + 1"); strcpy(l, "varq"); break; } }
static u8 first[512]; static long firstn;
static u16 cons[3];
static void program(int outer, int shape, int missing) {
  static const char* A[3], *P[3], *L[3]; sn = 0; ncall = 0;
  s_s(" .org $1000\n .var ii, jj, kk, vara = 4, varq = 5\n"); for (int i = 0; i < 3; i++) { s_s("con"); s_c('a' + i); s_s(" = "); h16(cons[i]); s_s("\n"); }
  qual = shape == 1; if (qual) s_s(" .section one\n nop\n");
  if (!expand) { inbody = 1;
    s_s(".macro inner\n"); body(inner, PAR, 0); s_s(".endm\n");
    if (outer != inner) { s_s(".mac outer\n"); body(outer, PAR, 0); s_s(".endmacro\n"); } inbody = 0; }
  if (qual) s_s(" .ends\n");
  for (int c = 0; c < 3; c++) { const char* a[3]; for (int i = 0; i < 3; i++) a[i] = expand ? litt[c * 3 + i] : argt[c * 3 + i];
    if (shape == 2) { s_s(" .section sc"); s_c('a' + c); s_s("\n"); }
    if (shape == 3) { s_s("lab"); s_c('a' + c); s_s(":\n@x: inx\n@y:\n bne @x\n"); }
    if (shape == 4 && c == 1) { if (expand) { const char* b[3] = { "1", a[1], a[2] }; invoke(outer, b); b[0] = "2"; invoke(outer, b); } else { s_s(".for kk = 1 .to 2\n"); const char* b[3] = { "kk", a[1], a[2] }; invoke(outer, b); s_s(".next kk\n"); } }
    else if (shape == 5 && c == 1) { if (!expand) { s_s(".if 1\n"); } invoke(inner, a); invoke(outer, a); if (!expand) { s_s(".else\n"); invoke(inner, a); s_s(".endif\n"); } }
    else invoke(c == 1 ? inner : outer, a);
    if (shape == 3) s_s(" jmp @y\n nop\n jmp @x\n");
    if (shape == 2) s_s(" .ends\n"); }
  s_s("last: .word last\n"); s_n(tail_, tn); }
#ifdef MISSING
// a parameter without an argument is an error where it is used, whatever was called before; a superfluous argument is ignored
int vp_main(void) {
  static const char* const U[] = { " lda %\n", " sta %,x\n", " .byte %\n", " .word 1,%\n", " .fill 1,%\n", " lda #%\n", ".if %\n nop\n.endif\n", " in2 %\n", " bne %\n", " .str %\n", " lda %+1\n", "zz = %\n", " .var vv = %\n" };
  int u = vp_choose(13, "use"), par = vp_choose(3, "parameter"), given = vp_choose(4, "given"), hist = vp_choose(4, "history"); u16 v = sym16("v"); vp_assume((v >= 0x1000) & (v < 0x1040));
  if (u == 2 || u == 4 || u == 5) vp_assume(v == 0x1001);
  s_s(" .org $1000\n.macro in2\n .word \\1\n.endm\n.macro mm\n"); for (const char* p = U[u]; *p; p++) if (*p == '%') { if (u == 2 || u == 4 || u == 5) s_c('<'); s_c('\\'); s_c('1' + par); } else s_c(*p); s_s(" nop\n.endm\n");
  if (hist & 1) { s_s(" mm "); h16(v); s_s(","); h16(v); s_s(","); h16(v); s_s("\n"); }
  if (hist & 2) { s_s(".macro nest\n mm"); for (int i = 0; i < given; i++) { s_s(i ? "," : " "); h16(v); } s_s("\n.endm\n nest 1,2,3\n"); }
  else { s_s(" mm"); for (int i = 0; i < given; i++) { s_s(i ? "," : " "); h16(v); } s_s("\n"); }
  asm_run(); int ok = given > par; if (u >= 11) ok |= hist & 1 && 0;
  if (u == 11 && ok && (hist & 1)) vp_end_path(); // redefinition
  if (ok) { vp_check(rc == 0, "all parameters used have an argument: accepted"); vp_reach("end"); } else { vp_check(rc != 0, "a parameter without argument is reported"); vp_reach("missing"); }
  vp_end_path(); }
#else
static int refd(const char* t, int p) { for (; *t; t++) if (*t == '\\' && t[1] == '1' + p) return 1; return 0; }
int vp_main(void) {
  int k = vp_choose(NB * 2, "body"), args = vp_choose(6, "arguments"), shape = vp_choose(6, "shape"); int outer = k / 2; inner = outer < NFLAT ? outer : (k * 5 + args + shape) % NFLAT; if (outer < NFLAT && k % 2) vp_end_path(); if (outer >= NFLAT && k % 2) inner = (inner + 6) % NFLAT;
  for (int i = 0; i < 3; i++) cons[i] = symv("c");
  for (int c = 0; c < 3; c++) for (int i = 0; i < 3; i++) { int kind = args < 5 ? (args == 0 ? 0 : (args + c * 2 + i) % 6) : (c + i) % 3; if (kind == 0 && c * 3 + i > 4) kind = 1; argument(kind, i); }
  expand = 1; program(outer, shape, 0); asm_run(); int r0 = rc; firstn = outn; if (outn > 0) memcpy(first, out, outn);
  expand = 0; program(outer, shape, 0); asm_run();
  vp_check((rc == 0) == (r0 == 0), "a macro call is accepted exactly when its body is in its place"); if (r0) { vp_reach("refused"); vp_end_path(); } if (rc) vp_end_path();
  vp_check(outn == firstn, "a macro call assembles to as many bytes as its body"); if (outn != firstn) vp_end_path();
  for (long i = 0; i < outn; i++) vp_check(out[i] == first[i], "a macro call assembles to the bytes of its body");
  vp_reach("end"); vp_end_path(); }
#endif
