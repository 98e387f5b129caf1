// C02: processor and undocumented-instruction selection, by switch and by directive.
#include "forms.h"
static int has(int cpu, int ill, int op, int f, int small, int* sz) { // encoding under a selection, -1: must be refused
  if (op >= R_NDOC && op < R_NNMOS && (cpu == R_65C02 || !ill)) { *sz = 0; return -1; }
  return enc(cpu, op, f, small, sz); }
#ifdef ALLOPS
// every instruction and form the selection does not have is refused; selection by switch or by directive
int vp_main(void) {
  int cfg = vp_choose(4, "cfg"), how = vp_choose(2, "how"), cpu = cfg >= 2 ? R_65C02 : R_6502, ill = cfg & 1;
  int op = vp_choose(R_NOPS, "op"), f = vp_choose(NF, "form"), sz, s1, s2;
  if (has(cpu, ill, op, f, 1, &sz) >= 0 || has(cpu, ill, op, f, 0, &sz) >= 0) vp_end_path();
  // forms that some selection has
  int nm = enc(R_6502, op, f, 1, &s1) >= 0 || enc(R_6502, op, f, 0, &s1) >= 0, cm = op < R_NDOC || op >= R_NNMOS ? enc(R_65C02, op, f, 1, &s2) >= 0 || enc(R_65C02, op, f, 0, &s2) >= 0 : 0;
  if (!nm && !cm) vp_end_path();
  if (how == 0) { if (cpu == R_65C02) opt("-65c02"); if (ill) opt("-i"); }
  else { if (vp_choose(2, "oth")) { opt(cpu == R_65C02 ? "-6502" : "-65c02"); if (!ill) opt("-i"); } }
  s_s(" .org $1000\n"); if (how) { s_s(cpu == R_65C02 ? " .65c02 on\n" : " .6502 on\n"); s_s(ill ? " .illegal on\n" : " .illegal off\n"); }
  u16 v = sym16("v"); form(op, f, v); asm_run();
  vp_check(rc != 0, "an instruction the selection does not have is refused");
  vp_reach("end"); vp_end_path(); }
#else
// sequences: directives act from their own line on, in every pass
struct probe { const char* name; int f; };
static const struct probe P[] = { {"nop", F_IMP}, {"phx", F_IMP}, {"slo", F_V}, {"inc", F_A}, {"bit", F_IMM}, {"lax", F_IY}, {"stz", F_V}, {"jmp", F_IX} };
int vp_main(void) {
  static int pop[8], pf[8]; u8 v = sym8("v"); int sw = vp_choose(4, "switches"), n = TIER ? 3 : 2, np = TIER ? 8 : 5;
  int cpu = sw & 1 ? R_65C02 : R_6502, ill = sw >> 1; if (sw & 1) opt("-65c02"); if (sw & 2) opt("-i");
  s_s(" .org $1000\n"); static u8 want[32]; int w = 0, ok = 1;
  for (int k = 0; k <= n; k++) {
    int q = vp_choose(np, k == 0 ? "p0" : k == 1 ? "p1" : k == 2 ? "p2" : "p3"), op = -1; for (int i = 0; i < R_NOPS; i++) if (!strcmp(r_name[i], P[q].name)) op = i;
    int sz, e = has(cpu, ill, op, P[q].f, 1, &sz); form(op, P[q].f, v);
    if (e < 0) ok = 0; else { want[w++] = e; if (sz) want[w++] = v; if (sz == 2) want[w++] = 0; }
    if (k < n) { int d = vp_choose(5, k == 0 ? "d0" : k == 1 ? "d1" : "d2");
      if (d == 1) { s_s(" .65c02 on\n"); cpu = R_65C02; } if (d == 2) { s_s(" .6502 on\n"); cpu = R_6502; } if (d == 3) { s_s(" .illegal on\n"); ill = 1; } if (d == 4) { s_s(" .illegal off\n"); ill = 0; } } }
  asm_run();
  if (ok) { OK_RUN("every instruction belongs to the selection in force at its line"); vp_check(outn == w, "size"); for (int i = 0; i < w && i < outn; i++) vp_check(out[i] == want[i], "bytes of the selected processor's encoding"); }
  else vp_check(rc != 0, "an instruction outside the selection in force at its line is refused");
  vp_reach("end"); vp_end_path(); }
#endif
