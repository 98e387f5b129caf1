// Hash-consed bit-vector expressions over byte variables.
#pragma once
#include <cstdint>
#include <cstring>
#include <string>
#include <vector>
#include <unordered_map>
#include <bitset>
#include <functional>

enum Op : uint8_t { O_CONST, O_VAR, O_TAB, O_ADD, O_SUB, O_MUL, O_UDIV, O_SDIV, O_UREM, O_SREM, O_AND, O_OR, O_XOR,
  O_SHL, O_LSHR, O_ASHR, O_EQ, O_ULT, O_ULE, O_SLT, O_SLE, O_CONCAT, O_EXTRACT, O_ZEXT, O_SEXT, O_ITE };

typedef std::bitset<256> Bits;
struct Table { uint64_t t[256]; };

struct Expr {
  Op op; uint8_t w; int16_t single;        // single: variable id if exactly one variable occurs, else -1
  uint32_t id;
  uint8_t ub, lz;                          // value < 2^ub; the low lz bits are zero
  uint64_t c;                              // constant / variable id / extract low bit
  const Expr *a, *b, *k;
  const Table* tab;                        // O_TAB
  Bits sup;                                // variables occurring
  mutable Bits* btab;                      // for 1-bit single-variable expressions: truth table
  mutable uint64_t ev; mutable uint32_t epoch;
  mutable void* z3; 
};

inline uint64_t maskw(unsigned w) { return w >= 64 ? ~0ull : ((1ull << w) - 1); }
inline int64_t sx(uint64_t v, unsigned w) { if (w >= 64) return (int64_t)v; uint64_t m = 1ull << (w - 1); v &= maskw(w); return (int64_t)((v ^ m) - m); }

const Expr* mkConst(uint64_t v, unsigned w);
const Expr* mkVar(unsigned id);
const Expr* mkTab(unsigned var, const uint64_t* t, unsigned w);
const Expr* mkBin(Op op, const Expr* a, const Expr* b);
const Expr* mkIte(const Expr* c, const Expr* a, const Expr* b);
const Expr* mkExtract(const Expr* e, unsigned lo, unsigned w);
const Expr* mkConcat(const Expr* hi, const Expr* lo);
const Expr* mkZext(const Expr* e, unsigned w);
const Expr* mkSext(const Expr* e, unsigned w);
const Expr* mkNot(const Expr* e);
uint64_t foldBin(Op op, uint64_t a, uint64_t b, unsigned w);
// evaluation under a byte assignment
void evalBegin();
uint64_t evalE(const Expr* e, const uint8_t* m);
const Bits& boolTable(const Expr* e);      // e: 1 bit, single variable
const Expr* substE(const Expr* e, const std::function<int(unsigned)>& fixedVal); // replace variables with fixed value (>=0)
extern uint64_t n_exprs;
std::string showE(const Expr* e, int depth = 6);
