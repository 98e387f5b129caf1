// instruction forms and their documented encodings
#pragma once
#include "hx.h"
#include "ref6502.h"
enum { F_IMP, F_A, F_IMM, F_V, F_VX, F_VY, F_IND, F_IX, F_IY, NF };
static void form(int op, int f, u16 v) {
  s_s(" "); s_s(r_name[op]);
  switch (f) {
    case F_IMP: break;
    case F_A: s_s(" a"); break;
    case F_IMM: s_s(" #$"); s_hex(v & 255, 2); break;
    case F_V: s_s(" $"); s_hex(v, 4); break;
    case F_VX: s_s(" $"); s_hex(v, 4); s_s(",x"); break;
    case F_VY: s_s(" $"); s_hex(v, 4); s_s(",y"); break;
    case F_IND: s_s(" ($"); s_hex(v, 4); s_s(")"); break;
    case F_IX: s_s(" ($"); s_hex(v, 4); s_s(",x)"); break;
    case F_IY: s_s(" ($"); s_hex(v, 4); s_s("),y"); break;
  }
  s_s("\n");
}
// the documented encoding: opcode and operand size; -1 when the form does not exist
static int enc(int cpu, int op, int f, int small, int* size) {
  int z = -1, a = -1; *size = 0;
  switch (f) {
    case F_IMP: { int o = ref_op(cpu, op, R_IMP); return o >= 0 ? o : ref_op(cpu, op, R_ACC); }
    case F_A: return ref_op(cpu, op, R_ACC);
    case F_IMM: *size = 1; return ref_op(cpu, op, R_IMM);
    case F_V: z = ref_op(cpu, op, R_ZP); a = ref_op(cpu, op, R_ABS); break;
    case F_VX: z = ref_op(cpu, op, R_ZPX); a = ref_op(cpu, op, R_ABX); break;
    case F_VY: z = ref_op(cpu, op, R_ZPY); a = ref_op(cpu, op, R_ABY); break;
    case F_IND: z = ref_op(cpu, op, R_ZPI); a = ref_op(cpu, op, R_IND); break;
    case F_IX: z = ref_op(cpu, op, R_IZX); a = ref_op(cpu, op, R_AIX); break;
    case F_IY: z = ref_op(cpu, op, R_IZY); break;
  }
  if (small && z >= 0) { *size = 1; return z; }
  if (a >= 0) { *size = 2; return a; }
  return -1;
}
