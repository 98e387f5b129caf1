// expressions: operator texts, documented values, documented precedence
#pragma once
#include "hx.h"
static const char* const BIN[] = { "+", "-", "*", "/", "&", "|", "^", "<<", ">>", "<", ">", "<=", ">=", "==", "!=", "<>", "&&", "||" };
static const int LEVEL[] = { 4, 4, 5, 5, 3, 3, 3, 1, 1, 2, 2, 2, 2, 2, 2, 2, 2, 2 }; // lowest binds weakest
#define NBIN 18
static const char* const UN[] = { "-", "~", "not ", "<", ">" };
#define NUN 5
static void num(u32 v) { u8 b[4]; memcpy(b, &v, 4); s_s("$"); s_hexb(b, 4); }
// restricts the operands to those with a defined value
static void dom(int q, u32 b) { if (q == 7 || q == 8) vp_assume(b < 32); if (q == 3) vp_assume(b != 0); }
static u32 binop(int q, u32 a, u32 b) { int x = (int)a, y = (int)b; switch (q) {
  case 0: return a + b; case 1: return a - b; case 2: return a * b; case 3: return y == -1 ? 0u - a : (u32)(x / y); case 4: return a & b; case 5: return a | b; case 6: return a ^ b;
  case 7: return a << (b & 31); case 8: return (u32)(x >> (b & 31)); case 9: return x < y; case 10: return x > y; case 11: return x <= y; case 12: return x >= y; case 13: return x == y; case 14: case 15: return x != y;
  case 16: return x && y; default: return x || y; } }
static u32 unop(int q, u32 a) { switch (q) { case 0: return 0u - a; case 1: return ~a & (a & ~0xFFu ? 0xFFFF : 0xFF); case 2: return !a; case 3: return a & 255; default: return a >> 8 & 255; } }
