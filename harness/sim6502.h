// A small interpreter of 6502 machine code, written from the processor's documentation: the oracle for generated control flow.
#pragma once
typedef struct { u8 a, x, y, s, n, v, z, c; u16 pc; u8 lo[256]; } cpu6502;
static u8 sim_mem(const u8* img, u16 org, long n, u32 ad) { long k = (long)ad - org; return k >= 0 && k < n ? img[k] : 0; }
static void sim_nz(cpu6502* p, u8 v) { p->z = v == 0; p->n = v >> 7; }
static void sim_cmp(cpu6502* p, u8 r, u8 m) { p->c = r >= m; sim_nz(p, (u8)(r - m)); }
// executes one instruction; 0 when the opcode is not one the oracle knows
static int sim_step(cpu6502* p, const u8* img, u16 org, long n) {
  u8 op = sim_mem(img, org, n, p->pc), b = sim_mem(img, org, n, (u32)p->pc + 1), hi = sim_mem(img, org, n, (u32)p->pc + 2); int take = -1;
  switch (op) {
    case 0x10: take = !p->n; break; case 0x30: take = p->n; break; case 0x50: take = !p->v; break; case 0x70: take = p->v; break;
    case 0x90: take = !p->c; break; case 0xB0: take = p->c; break; case 0xD0: take = !p->z; break; case 0xF0: take = p->z; break; case 0x80: take = 1; break;
    case 0x4C: p->pc = (u16)(b | hi << 8); return 1;
    case 0xE8: sim_nz(p, ++p->x); p->pc += 1; return 1; case 0xC8: sim_nz(p, ++p->y); p->pc += 1; return 1;
    case 0xCA: sim_nz(p, --p->x); p->pc += 1; return 1; case 0x88: sim_nz(p, --p->y); p->pc += 1; return 1;
    case 0xA2: p->x = b; sim_nz(p, b); p->pc += 2; return 1; case 0xA0: p->y = b; sim_nz(p, b); p->pc += 2; return 1; case 0xA9: p->a = b; sim_nz(p, b); p->pc += 2; return 1;
    case 0xE0: sim_cmp(p, p->x, b); p->pc += 2; return 1; case 0xC0: sim_cmp(p, p->y, b); p->pc += 2; return 1; case 0xC9: sim_cmp(p, p->a, b); p->pc += 2; return 1;
    case 0x18: p->c = 0; p->pc++; return 1; case 0x38: p->c = 1; p->pc++; return 1; case 0xB8: p->v = 0; p->pc++; return 1;
    case 0x8A: sim_nz(p, p->a = p->x); p->pc++; return 1; case 0x98: sim_nz(p, p->a = p->y); p->pc++; return 1; case 0xAA: sim_nz(p, p->x = p->a); p->pc++; return 1; case 0xA8: sim_nz(p, p->y = p->a); p->pc++; return 1;
    case 0x48: p->lo[p->s--] = p->a; p->pc++; return 1; case 0x68: sim_nz(p, p->a = p->lo[++p->s]); p->pc++; return 1;
    case 0xEA: p->pc++; return 1;
    default: return 0; }
  p->pc = (u16)(p->pc + 2 + (take ? (signed char)b : 0)); return 1; }
