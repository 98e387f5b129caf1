// C01: every supported instruction form assembles to the documented bytes; every other form is refused.
#include "forms.h"
static int zpi(int cpu, int op, int f) { return f == F_IND && ref_op(cpu, op, R_ZPI) >= 0; }
static int nops(int cfg) { return cfg == 0 ? R_NDOC : cfg == 1 ? R_NNMOS : R_NOPS; }
static int in_cfg(int cfg, int op) { return cfg == 2 ? op < R_NDOC || op >= R_NNMOS : op < nops(cfg); }
int vp_main(void) {
  int cfg = CFG, cpu = cfg == 2 ? R_65C02 : R_6502;   // 0: 6502, 1: 6502 with undocumented instructions, 2: 65C02
  int op = vp_choose(nops(cfg), "op"); if (!in_cfg(cfg, op)) vp_end_path();
  if (cfg == 1 && op < R_NDOC) vp_end_path();         // the documented ones are decided without -i
  if (cfg == 1) opt("-i"); if (cfg == 2) opt("-65c02");
  u16 v = sym16("v"); int small = v < 256;
  s_s(" .org $1000\n");
#ifdef VALID
  if (ref_is_branch(cpu, op)) vp_end_path();            // C04
  // all the forms that exist for this operand size, one after the other
  int n = 0; for (int f = 0; f < NF; f++) { int sz; if (zpi(cpu, op, f)) continue; if (enc(cpu, op, f, small, &sz) >= 0) { form(op, f, v); n++; } }
  if (!n) vp_end_path();
  asm_run(); OK_RUN("documented instruction forms");
  long p = 0; for (int f = 0; f < NF; f++) { int sz, e; if (zpi(cpu, op, f)) continue; e = enc(cpu, op, f, small, &sz); if (e < 0) continue;
    vp_check(p + 1 + sz <= outn, "instruction bytes are all written"); if (p + 1 + sz > outn) vp_end_path();
    vp_check(out[p] == e, "opcode byte is the documented one"); if (sz >= 1) vp_check(out[p + 1] == (u8)v, "low operand byte"); if (sz == 2) vp_check(out[p + 2] == (u8)(v >> 8), "high operand byte");
    p += 1 + sz; }
  vp_check(outn == p, "nothing but the instructions' bytes is written");
#else
  int f = vp_choose(NF, "form"), sz; if (ref_is_branch(cpu, op) && f == F_V) vp_end_path(); // C04
  if (zpi(cpu, op, f)) { // zero page indirect of the 65C02
    form(op, f, v); asm_run(); int o = ref_op(cpu, op, R_ZPI);
    int known = rc == 0 && outn == 3 && out[0] == o && out[1] == (u8)v && out[2] == (u8)(v >> 8);
    if (small) vp_check_kf(rc == 0 && outn == 2 && out[0] == o && out[1] == (u8)v, known, "zpi", "zero page indirect takes one operand byte");
    else vp_check_kf(rc != 0, known, "zpi", "zero page indirect beyond page zero is refused");
    vp_reach("end"); vp_end_path(); }
  if (enc(cpu, op, f, small, &sz) >= 0) vp_end_path();
  form(op, f, v); asm_run();
  vp_check(rc != 0, "a form the processor does not have is refused");
#endif
  vp_reach("end"); vp_end_path();
}
