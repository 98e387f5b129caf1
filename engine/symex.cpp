// A small symbolic executor for LLVM 18 IR.  See DESIGN.md.
#include "expr.h"
#include <llvm/IR/LLVMContext.h>
#include <llvm/IR/Module.h>
#include <llvm/IR/Instructions.h>
#include <llvm/IR/IntrinsicInst.h>
#include <llvm/IR/Constants.h>
#include <llvm/IR/DataLayout.h>
#include <llvm/IR/Operator.h>
#include <llvm/IR/GetElementPtrTypeIterator.h>
#include <llvm/IRReader/IRReader.h>
#include <llvm/Linker/Linker.h>
#include <llvm/Support/SourceMgr.h>
#include <llvm/Support/raw_ostream.h>
#include <z3.h>
#include <chrono>
#include <cstdio>
#include <cstdlib>
#include <map>
#include <set>
#include <memory>
#include <algorithm>
#include <cassert>
#include <cmath>
#include <unistd.h>
using namespace llvm;
typedef uint64_t u64; typedef int64_t i64;

static double now() { return std::chrono::duration<double>(std::chrono::steady_clock::now().time_since_epoch()).count(); }
static double T0;

// ---------------------------------------------------------------- options
static double optMaxTime = 600; static u64 optMaxInst = 400000000ull; static u64 optMaxPaths = 2000000;
static int optSliceK = 0, optSliceN = 1, optMaxViol = 4, optSamples = 24, optEnum = 2048, optSolverMs = 20000;
static bool optAsk = false; // decide every fork by the solver, no shortcut
static bool optTrace = false, optMemCheck = true; static std::string optOut, optEntry = "vp_main", optDumpDir;
static unsigned optSeed = 1;

// ---------------------------------------------------------------- values, memory
struct V { const Expr* e; u64 c; };
static inline V C(u64 c) { return V{nullptr, c}; }
static inline V S(const Expr* e) { if (e->op == O_CONST) return V{nullptr, e->c}; return V{e, 0}; }
static inline const Expr* X(const V& v, unsigned w) { return v.e ? v.e : mkConst(v.c, w); }

struct Obj { uint32_t rc = 1; uint32_t size = 0; uint8_t kind = 0; bool freed = false, ro = false; std::vector<uint8_t> d; std::vector<const Expr*> s; const char* name = ""; };
enum { K_GLOBAL, K_HEAP, K_STACK };
enum { CH = 64 };
struct Chunk { uint32_t rc = 1; Obj* o[CH]; Chunk() { memset(o, 0, sizeof o); } };
static void objUnref(Obj* o) { if (o && --o->rc == 0) delete o; }
static void chunkUnref(Chunk* c) { if (c && --c->rc == 0) { for (auto o : c->o) objUnref(o); delete c; } }
struct Mem {
  std::vector<Chunk*> ch; u64 next = 1;
  Mem() {} 
  Mem(const Mem& m) : ch(m.ch), next(m.next) { for (auto c : ch) if (c) c->rc++; }
  Mem& operator=(const Mem& m) = delete;
  ~Mem() { for (auto c : ch) chunkUnref(c); }
  Chunk* wchunk(u64 ci) { if (ci >= ch.size()) ch.resize(ci + 1, nullptr); Chunk* c = ch[ci]; if (!c) return ch[ci] = new Chunk; if (c->rc > 1) { Chunk* n = new Chunk; for (int i = 0; i < CH; i++) { n->o[i] = c->o[i]; if (n->o[i]) n->o[i]->rc++; } c->rc--; ch[ci] = n; return n; } return c; }
  Obj* get(u64 slot) const { u64 ci = slot / CH; if (ci >= ch.size() || !ch[ci]) return nullptr; return ch[ci]->o[slot % CH]; }
  Obj* wget(u64 slot) { Chunk* c = wchunk(slot / CH); Obj*& o = c->o[slot % CH]; if (o && o->rc > 1) { Obj* n = new Obj(*o); n->rc = 1; o->rc--; o = n; } return o; }
  u64 alloc(u64 size, int kind, const char* name, uint8_t fill) { u64 slot = next++; Chunk* c = wchunk(slot / CH); Obj* o = new Obj; o->size = (uint32_t)size; o->kind = kind; o->d.assign(size, fill); o->name = name; c->o[slot % CH] = o; return slot << 24; }
  void drop(u64 slot) { Chunk* c = wchunk(slot / CH); objUnref(c->o[slot % CH]); c->o[slot % CH] = nullptr; 
     bool any=false; for (auto o : c->o) if (o) { any=true; break; } if(!any && slot/CH < next/CH) { chunkUnref(c); ch[slot/CH]=nullptr; } }
};
static const u64 FUNC_BASE = 0x7F00000000000000ull;

// ---------------------------------------------------------------- decoded code
enum IOp : uint8_t { I_BIN, I_ICMP, I_ZEXT, I_SEXT, I_TRUNC, I_SELECT, I_LOAD, I_STORE, I_GEP, I_ALLOCA, I_BR, I_CBR, I_SWITCH, I_RET, I_CALL, I_MOV, I_UNREACH, I_FBIN, I_FCMP, I_FCAST, I_UNSUP, I_NOP };
struct Edge { int target; std::vector<std::pair<int,int>> phis; std::vector<uint8_t> dummy; };
struct Fn;
struct Inst { IOp op; uint8_t sub = 0; uint8_t w = 0, w2 = 0; int dst = -1; int a = 0, b = 0, c = 0; std::vector<int> xs; std::vector<i64> ks; Fn* fn = nullptr; const Instruction* src = nullptr; bool flag = false; };
struct Block;
struct Fn { const Function* f = nullptr; std::string name; int nregs = 0, nargs = 0; std::vector<Inst> code; std::vector<V> consts; std::vector<Edge> edges; bool decoded = false; bool hit = false; int native = 0; bool repo = false; u64 calls = 0; };
static std::vector<Fn*> fns; static std::map<const Function*, Fn*> fnOf; static std::map<std::string, Fn*> fnByName;
static std::unique_ptr<Module> M; static const DataLayout* DL;
static std::map<const GlobalVariable*, u64> gaddr;
static std::map<u64, const GlobalVariable*> gvOfSlot;
static std::set<u64> lexTabSlots;

// ---------------------------------------------------------------- state
struct Frame { Fn* fn; int pc; std::vector<V> r; int retDst; int retW; std::vector<u64> allocas; u64 va = 0; bool marker = false; };
struct Obs { std::string name; std::vector<V> bytes; };
struct State {
  std::vector<Frame> st; Mem mem; std::vector<Bits> dom; std::vector<const Expr*> cons; std::vector<uint8_t> model; Bits multi; // variables occurring in cons
  u64 insts = 0; std::vector<Obs> obs; std::vector<std::pair<std::string, u64>> choices; std::vector<std::string> symNames; std::map<std::string, std::pair<int,int>> syms; int depthForks = 0; std::set<std::string> reached; unsigned nvars = 0; u64 checks = 0;
  std::string pathTag;
};
struct PathEnd { std::string kind, msg; };
struct ForkReq {}; 

// ---------------------------------------------------------------- statistics / results
static u64 nWitness, nQueries, nSat, nUnsat, nUnknown, nForks, nPathsDone, nPathsEnded, nInsts, nChecks, nCheckSolver, nCheckTrivial, nCheckFolded; static double tSolver;
static std::map<std::string, u64> checkCount, checkSolverCount, reachCount, endKinds, incompleteWhy;
struct Violation { std::string kind, msg; std::string inputs; std::string where; };
static std::vector<Violation> violations; static std::map<std::string,int> violPerMsg;
static std::vector<std::string> samples; static u64 nSampleSeen;
static std::set<std::string> usedFns;
static bool outOfTime = false;

static std::string jstr(const std::string& s) { std::string r = "\""; for (unsigned char c : s) { if (c == '"' || c == '\\') { r += '\\'; r += c; } else if (c == '\n') r += "\\n"; else if (c < 32 || c > 126) { char b[8]; snprintf(b, 8, "\\u%04x", c); r += b; } else r += c; } return r + "\""; }

// ---------------------------------------------------------------- solver
static Z3_context zc; static Z3_solver zs; static Z3_sort bv_sorts[65]; static Z3_ast zvars[256];
static Z3_ast zOf(const Expr* e);
static Z3_sort bvs(unsigned w) { if (!bv_sorts[w]) { bv_sorts[w] = Z3_mk_bv_sort(zc, w); Z3_inc_ref(zc, (Z3_ast)bv_sorts[w]); } return bv_sorts[w]; }
static Z3_ast zv(unsigned id) { if (!zvars[id]) { char n[16]; snprintf(n, 16, "v%u", id); zvars[id] = Z3_mk_const(zc, Z3_mk_string_symbol(zc, n), bvs(8)); Z3_inc_ref(zc, zvars[id]); } return zvars[id]; }
static Z3_ast zb1(Z3_ast b) { return Z3_mk_ite(zc, b, Z3_mk_unsigned_int64(zc, 1, bvs(1)), Z3_mk_unsigned_int64(zc, 0, bvs(1))); }
static Z3_ast zbool(const Expr* e) { // e: 1 bit
  switch (e->op) {
    case O_EQ: return Z3_mk_eq(zc, zOf(e->a), zOf(e->b)); case O_ULT: return Z3_mk_bvult(zc, zOf(e->a), zOf(e->b)); case O_ULE: return Z3_mk_bvule(zc, zOf(e->a), zOf(e->b));
    case O_SLT: return Z3_mk_bvslt(zc, zOf(e->a), zOf(e->b)); case O_SLE: return Z3_mk_bvsle(zc, zOf(e->a), zOf(e->b));
    default: return Z3_mk_eq(zc, zOf(e), Z3_mk_unsigned_int64(zc, 1, bvs(1)));
  }
}
static Z3_ast zsetOf(unsigned var, const Bits& b) { // membership of var in set
  std::vector<Z3_ast> ors; Z3_ast x = zv(var); unsigned i = 0;
  while (i < 256) { if (!b[i]) { i++; continue; } unsigned j = i; while (j + 1 < 256 && b[j + 1]) j++; 
    Z3_ast lo = Z3_mk_unsigned_int64(zc, i, bvs(8)), hi = Z3_mk_unsigned_int64(zc, j, bvs(8));
    if (i == j) ors.push_back(Z3_mk_eq(zc, x, lo)); else { Z3_ast t[2] = {Z3_mk_bvuge(zc, x, lo), Z3_mk_bvule(zc, x, hi)}; ors.push_back(Z3_mk_and(zc, 2, t)); } i = j + 1; }
  if (ors.empty()) return Z3_mk_false(zc); if (ors.size() == 1) return ors[0]; return Z3_mk_or(zc, ors.size(), ors.data());
}
static Z3_ast zOf(const Expr* e) {
  if (e->z3) return (Z3_ast)e->z3;
  Z3_ast r; unsigned w = e->w;
  switch (e->op) {
    case O_CONST: r = Z3_mk_unsigned_int64(zc, e->c, bvs(w)); break;
    case O_VAR: r = zv(e->c); break;
    case O_TAB: { std::map<u64, Bits> cls; for (int i = 0; i < 256; i++) cls[e->tab->t[i]].set(i); u64 best = 0; size_t bn = 0; for (auto& c : cls) if (c.second.count() > bn) { bn = c.second.count(); best = c.first; }
      r = Z3_mk_unsigned_int64(zc, best, bvs(w)); for (auto& c : cls) if (c.first != best) r = Z3_mk_ite(zc, zsetOf(e->c, c.second), Z3_mk_unsigned_int64(zc, c.first, bvs(w)), r); break; }
    case O_ADD: r = Z3_mk_bvadd(zc, zOf(e->a), zOf(e->b)); break; case O_SUB: r = Z3_mk_bvsub(zc, zOf(e->a), zOf(e->b)); break; case O_MUL: r = Z3_mk_bvmul(zc, zOf(e->a), zOf(e->b)); break;
    case O_UDIV: r = Z3_mk_bvudiv(zc, zOf(e->a), zOf(e->b)); break; case O_SDIV: r = Z3_mk_bvsdiv(zc, zOf(e->a), zOf(e->b)); break; case O_UREM: r = Z3_mk_bvurem(zc, zOf(e->a), zOf(e->b)); break; case O_SREM: r = Z3_mk_bvsrem(zc, zOf(e->a), zOf(e->b)); break;
    case O_AND: r = Z3_mk_bvand(zc, zOf(e->a), zOf(e->b)); break; case O_OR: r = Z3_mk_bvor(zc, zOf(e->a), zOf(e->b)); break; case O_XOR: r = Z3_mk_bvxor(zc, zOf(e->a), zOf(e->b)); break;
    case O_SHL: case O_LSHR: case O_ASHR: { Z3_ast amt = Z3_mk_bvand(zc, zOf(e->b), Z3_mk_unsigned_int64(zc, w == 64 ? 63 : 31, bvs(w))); r = e->op == O_SHL ? Z3_mk_bvshl(zc, zOf(e->a), amt) : e->op == O_LSHR ? Z3_mk_bvlshr(zc, zOf(e->a), amt) : Z3_mk_bvashr(zc, zOf(e->a), amt); break; }
    case O_EQ: case O_ULT: case O_ULE: case O_SLT: case O_SLE: r = zb1(zbool(e)); break;
    case O_CONCAT: r = Z3_mk_concat(zc, zOf(e->a), zOf(e->b)); break;
    case O_EXTRACT: r = Z3_mk_extract(zc, e->c + w - 1, e->c, zOf(e->a)); break;
    case O_ZEXT: r = Z3_mk_zero_ext(zc, w - e->a->w, zOf(e->a)); break; case O_SEXT: r = Z3_mk_sign_ext(zc, w - e->a->w, zOf(e->a)); break;
    case O_ITE: r = Z3_mk_ite(zc, zbool(e->a), zOf(e->b), zOf(e->k)); break;
    default: abort();
  }
  Z3_inc_ref(zc, r); e->z3 = r; return r;
}
static void zerr(Z3_context c, Z3_error_code e) { fprintf(stderr, "z3 error: %s\n", Z3_get_error_msg(c, e)); }
enum Sat { SAT, UNSAT, UNKNOWN };
struct QKey { std::vector<u64> k; bool operator<(const QKey& o) const { return k < o.k; } };
static std::map<QKey, std::pair<int, std::vector<std::pair<uint8_t,uint8_t>>>> qcache;
// Is cons /\ dom /\ cond satisfiable?  On SAT, model (a full assignment) is updated.
static Sat solve(const State& s, const Expr* cond, std::vector<uint8_t>& model) {
  Bits sup = cond->sup; std::vector<const Expr*> rel; std::vector<char> used(s.cons.size(), 0); bool ch = true;
  while (ch) { ch = false; for (size_t i = 0; i < s.cons.size(); i++) if (!used[i] && (s.cons[i]->sup & sup).any()) { used[i] = 1; sup |= s.cons[i]->sup; rel.push_back(s.cons[i]); ch = true; } }
  QKey key; for (auto r : rel) key.k.push_back(r->id); std::sort(key.k.begin(), key.k.end()); key.k.push_back(~(u64)cond->id);
  for (unsigned v = sup._Find_first(); v < 256; v = sup._Find_next(v)) { const u64* p = (const u64*)&s.dom[v]; key.k.push_back(v); for (int i = 0; i < 4; i++) key.k.push_back(p[i]); }
  auto it = qcache.find(key); if (it != qcache.end()) { for (auto& p : it->second.second) model[p.first] = p.second; return (Sat)it->second.first; }
  double t = now();
  Z3_solver_push(zc, zs);
  for (unsigned v = sup._Find_first(); v < 256; v = sup._Find_next(v)) if (!s.dom[v].all()) Z3_solver_assert(zc, zs, zsetOf(v, s.dom[v]));
  for (auto r : rel) Z3_solver_assert(zc, zs, zbool(r));
  Z3_solver_assert(zc, zs, zbool(cond));
  Z3_lbool r = Z3_solver_check(zc, zs); nQueries++; Z3_solver src = zs;
  if (r == Z3_L_UNDEF) { // once more: bit-blasting in one go, with a longer limit
    static Z3_solver z2 = nullptr; if (!z2) { const char* ts[] = { "simplify", "propagate-values", "solve-eqs", "simplify", "bit-blast", "aig", "sat" }; Z3_tactic tc = nullptr; for (const char* n : ts) { Z3_tactic x = Z3_mk_tactic(zc, n); Z3_tactic_inc_ref(zc, x); tc = tc ? Z3_tactic_and_then(zc, tc, x) : x; Z3_tactic_inc_ref(zc, tc); } z2 = Z3_mk_solver_from_tactic(zc, tc); Z3_solver_inc_ref(zc, z2); Z3_params p = Z3_mk_params(zc); Z3_params_inc_ref(zc, p); Z3_params_set_uint(zc, p, Z3_mk_string_symbol(zc, "timeout"), optSolverMs * 4); Z3_solver_set_params(zc, z2, p); }
    Z3_solver_reset(zc, z2);
    for (unsigned v = sup._Find_first(); v < 256; v = sup._Find_next(v)) if (!s.dom[v].all()) Z3_solver_assert(zc, z2, zsetOf(v, s.dom[v]));
    for (auto q : rel) Z3_solver_assert(zc, z2, zbool(q));
    Z3_solver_assert(zc, z2, zbool(cond)); r = Z3_solver_check(zc, z2); src = z2; }
  Sat res = r == Z3_L_TRUE ? SAT : r == Z3_L_FALSE ? UNSAT : UNKNOWN; std::vector<std::pair<uint8_t,uint8_t>> asg;
  if (res == SAT) { nSat++; Z3_model m = Z3_solver_get_model(zc, src); Z3_model_inc_ref(zc, m);
    for (unsigned v = sup._Find_first(); v < 256; v = sup._Find_next(v)) { Z3_ast val; u64 x = 0; if (Z3_model_eval(zc, m, zv(v), true, &val)) { Z3_inc_ref(zc, val); if (!Z3_get_numeral_uint64(zc, val, &x)) x = 0; Z3_dec_ref(zc, val); } asg.push_back({(uint8_t)v, (uint8_t)x}); model[v] = (uint8_t)x; }
    Z3_model_dec_ref(zc, m);
    // validate the model against our own evaluator: solver and evaluator must agree
    evalBegin(); bool ok = evalE(cond, model.data()); for (auto r2 : rel) ok = ok && evalE(r2, model.data()); for (unsigned v = sup._Find_first(); v < 256; v = sup._Find_next(v)) ok = ok && s.dom[v][model[v]];
    if (!ok) { fprintf(stderr, "FATAL: solver model does not satisfy the query under the evaluator\n%s\n", showE(cond).c_str()); exit(3); }
  } else if (res == UNSAT) nUnsat++; else nUnknown++;
  Z3_solver_pop(zc, zs, 1);
  double dt = now() - t; tSolver += dt; if (optTrace && getenv("QT")) fprintf(stderr, "Q %d %.4f %s\n", (int)res, dt, showE(cond, 7).c_str()); if (optTrace && dt > 0.5) fprintf(stderr, "[slow query %.2fs %d] %s\n", dt, (int)res, showE(cond, 5).c_str());
  if (res != UNKNOWN) qcache[key] = {(int)res, asg};
  return res;
}
// feasibility of cond in s.  When feasible, model satisfies path and cond.
static Sat feasible(const State& s, const Expr* cond, std::vector<uint8_t>& model) {
  if (cond->op == O_CONST) return cond->c ? SAT : UNSAT;
  if (optAsk) return solve(s, cond, model);
  evalBegin(); if (evalE(cond, model.data())) return SAT;
  if (cond->single >= 0) { unsigned v = cond->single; Bits ok = s.dom[v] & boolTable(cond); if (ok.none()) return UNSAT; if (!s.multi[v]) { model[v] = (uint8_t)ok._Find_first(); return SAT; } }
  { // cheap witnesses first; the solver decides when none is found
    Bits sup = cond->sup; bool ch = true; while (ch) { ch = false; for (auto c : s.cons) if ((c->sup & sup).any() && (c->sup & ~sup).any()) { sup |= c->sup; ch = true; } }
    std::vector<const Expr*> rel; for (auto c : s.cons) if ((c->sup & sup).any()) rel.push_back(c);
    std::vector<unsigned> vs; for (unsigned v = sup._Find_first(); v < 256; v = sup._Find_next(v)) vs.push_back(v);
    static uint8_t m[256]; memcpy(m, model.data(), 256); static u64 rs = 88172645463325252ull;
    for (int k = 0; k < 24; k++) { 
      for (size_t i = 0; i < vs.size(); i++) { unsigned v = vs[i]; rs ^= rs << 13; rs ^= rs >> 7; rs ^= rs << 17; if (k & 1) { if (rs % vs.size() > 1) { m[v] = model[v]; continue; } } unsigned n = s.dom[v].count(), j = (rs >> 20) % n; if (((rs >> 40) & 3) == 0) j = ((rs >> 42) & 1) ? n - 1 : 0; unsigned x; if (n == 256) x = j; else { x = s.dom[v]._Find_first(); while (j--) x = s.dom[v]._Find_next(x); } m[v] = x; }
      evalBegin(); if (!evalE(cond, m)) continue; bool ok = true; for (auto c : rel) if (!evalE(c, m)) { ok = false; break; } if (!ok) continue;
      for (unsigned v : vs) model[v] = m[v]; nWitness++; return SAT; } }
  return solve(s, cond, model);
}
static const Expr* simp(const State& s, const Expr* e) { // substitute variables with singleton domains
  bool any = false; for (unsigned v = e->sup._Find_first(); v < 256; v = e->sup._Find_next(v)) if (s.dom[v].count() == 1) { any = true; break; }
  if (!any) return e; return substE(e, [&](unsigned v) -> int { return s.dom[v].count() == 1 ? (int)s.dom[v]._Find_first() : -1; });
}
static void addCons(State& s, const Expr* c) {
  if (c->op == O_CONST) return;
  if (c->op == O_AND && c->w == 1) { addCons(s, c->a); addCons(s, c->b); return; }
  if (c->single >= 0) { s.dom[c->single] &= boolTable(c); return; }
  if (std::find(s.cons.begin(), s.cons.end(), c) != s.cons.end()) return;
  s.cons.push_back(c); s.multi |= c->sup;
}

// ---------------------------------------------------------------- path reporting
static std::string whereOf(const State& s) { std::string w; int n = 0; for (auto it = s.st.rbegin(); it != s.st.rend() && n < 8; ++it, ++n) { if (n) w += " < "; w += it->fn->name; } return w; }
static std::string inputsJson(const State& s, const std::vector<uint8_t>& m) {
  std::string r = "{\"choices\":{"; bool f = true; for (auto& c : s.choices) { if (!f) r += ","; f = false; r += jstr(c.first) + ":" + std::to_string(c.second); }
  r += "},\"bytes\":{"; f = true; for (auto& kv : s.syms) { if (!f) r += ","; f = false; r += jstr(kv.first) + ":\""; for (int i = 0; i < kv.second.second; i++) { char b[4]; snprintf(b, 4, "%02x", m[kv.second.first + i]); r += b; } r += "\""; }
  return r + "}}";
}
static std::string obsJson(const State& s, const std::vector<uint8_t>& m) {
  std::string r = "["; bool f = true; evalBegin(); for (auto& o : s.obs) { if (!f) r += ","; f = false; r += "[" + jstr(o.name) + ",\""; for (auto& v : o.bytes) { char b[4]; snprintf(b, 4, "%02x", (unsigned)(v.e ? evalE(v.e, m.data()) : v.c) & 255); r += b; } r += "\"]"; } return r + "]";
}
static void report(const State& s, const std::string& kind, const std::string& msg, const std::vector<uint8_t>& m) {
  std::string key = kind + "|" + msg; if (kind == "memory" || kind == "crash" || kind=="hang") key += "|" + s.st.back().fn->name;
  violPerMsg[key]++;
  if (violPerMsg[key] > optMaxViol) return;
  violations.push_back({kind, msg, inputsJson(s, m), whereOf(s)});
}
static u64 rngState = 88172645463325252ull; static u64 rng() { rngState ^= rngState << 13; rngState ^= rngState >> 7; rngState ^= rngState << 17; return rngState; }
static void pathDone(State& s, const std::string& kind) {
  nPathsDone++; endKinds[kind]++; for (auto& r : s.reached) reachCount[r]++;
  if (kind == "done") { // reservoir sample for validation against the native build
    nSampleSeen++; std::string j; size_t idx = samples.size();
    if (samples.size() < (size_t)optSamples) samples.push_back(""); else { idx = rng() % nSampleSeen; if (idx >= (size_t)optSamples) return; }
    // perturb the model inside free domains for diversity
    std::vector<uint8_t> m = s.model; for (unsigned v = 0; v < s.nvars; v++) if (!s.multi[v]) { unsigned n = s.dom[v].count(); if (n > 1) { unsigned k = rng() % n; unsigned x = s.dom[v]._Find_first(); while (k--) x = s.dom[v]._Find_next(x); m[v] = x; } }
    samples[idx] = "{\"inputs\":" + inputsJson(s, m) + ",\"obs\":" + obsJson(s, m) + "}";
  }
}

// ---------------------------------------------------------------- worklist
static std::vector<State*> work;
static State* cur;
static void pushState(State* s) { work.push_back(s); }
static int decideCache;
static void forkTrace(const State& s, const char* why, const Expr* e) { static const char* on = getenv("VP_FORKS"); if (on) fprintf(stderr, "FORK %s %s @ %s\n", why, showE(e, 5).c_str(), whereOf(s).c_str()); }
// Decide a 1-bit condition on the current state: returns the side taken by the current state; the other feasible side is queued
// with its program counter still at the same instruction and the constraint recorded, so re-execution takes that side.
static bool decide(State& s, const Expr* cond) {
  if (cond->op == O_CONST) return cond->c;
  if (cond->single >= 0) { unsigned v = cond->single; const Bits& t = boolTable(cond); Bits f = s.dom[v] & ~t; if (f.none()) return true; Bits tt = s.dom[v] & t; if (tt.none()) return false; }
  else { cond = simp(s, cond); if (cond->op == O_CONST) return cond->c; if (cond->single >= 0) return decide(s, cond); 
    for (auto c : s.cons) { if (c == cond) return true; } const Expr* nc = mkNot(cond); for (auto c : s.cons) if (c == nc) return false; }
  evalBegin(); bool side = evalE(cond, s.model.data());
  const Expr* same = side ? cond : mkNot(cond); const Expr* other = side ? mkNot(cond) : cond;
  std::vector<uint8_t> m2 = s.model; Sat r = feasible(s, other, m2);
  if (r == UNKNOWN) { throw PathEnd{"incomplete", "solver gave no answer on a branch"}; }
  if (r == SAT) { State* o = new State(s); o->model = m2; addCons(*o, other); pushState(o); nForks++; forkTrace(s, "branch", cond); addCons(s, same); }
  return side;
}
static bool decideV(State& s, const V& c) { if (!c.e) return c.c & 1; return decide(s, c.e); }
// a superset of the feasible values of e (at most lim, else ok is false); users that fork check each one's feasibility
static std::vector<u64> enumVals(State& s, const Expr* e, size_t lim, bool& ok) {
  ok = true; std::set<u64> out; e = simp(s, e); if (e->op == O_CONST) return {e->c};
  if (e->single >= 0) { unsigned v = e->single; static uint8_t m[256]; for (unsigned i = s.dom[v]._Find_first(); i < 256; i = s.dom[v]._Find_next(i)) { evalBegin(); m[v] = i; out.insert(evalE(e, m)); } m[v] = 0; std::vector<u64> r(out.begin(), out.end()); if (r.size() > lim) ok = false; return r; }
  // small product of domains without extra constraints: enumerate directly
  { u64 prod = 1; bool free = true; std::vector<unsigned> vs; for (unsigned v = e->sup._Find_first(); v < 256; v = e->sup._Find_next(v)) { vs.push_back(v); prod *= s.dom[v].count(); if (prod > 20000) break; }
    if (free && prod <= 20000) { std::vector<uint8_t> m(256, 0); std::vector<unsigned> pos; for (auto v : vs) { pos.push_back(s.dom[v]._Find_first()); m[v] = pos.back(); }
      while (1) { evalBegin(); out.insert(evalE(e, m.data())); size_t k = 0; for (; k < vs.size(); k++) { pos[k] = s.dom[vs[k]]._Find_next(pos[k]); if (pos[k] < 256) { m[vs[k]] = pos[k]; break; } pos[k] = s.dom[vs[k]]._Find_first(); m[vs[k]] = pos[k]; } if (k == vs.size()) break; }
      std::vector<u64> r(out.begin(), out.end()); if (r.size() > lim) ok = false; return r; } }
  State t(s); std::vector<uint8_t> m = s.model;
  while (1) { evalBegin(); u64 v = evalE(e, m.data()); out.insert(v); if (out.size() > lim) { ok = false; break; }
    const Expr* ne = mkNot(mkBin(O_EQ, e, mkConst(v, e->w))); addCons(t, ne); Sat r = UNSAT; const Expr* one = mkBin(O_ULE, mkConst(0,1), mkConst(0,1)); (void)one;
    // need a model of t
    std::vector<uint8_t> m2 = t.model; r = solve(t, ne, m2); if (r == UNKNOWN) throw PathEnd{"incomplete", "solver gave no answer enumerating values"}; if (r == UNSAT) break; m = m2; t.model = m2; }
  return std::vector<u64>(out.begin(), out.end());
}
// force a value to be concrete by forking on every feasible value
static u64 concretize(State& s, const V& v, unsigned w, size_t lim, const char* why) {
  if (!v.e) return v.c;
  bool ok; auto vals = enumVals(s, v.e, lim, ok); if (!ok) throw PathEnd{"incomplete", std::string("too many values to concretise: ") + why};
  if (vals.empty()) throw PathEnd{"incomplete", "no value"};
  evalBegin(); u64 mine = evalE(v.e, s.model.data());
  for (u64 x : vals) if (x != mine) { const Expr* c = mkBin(O_EQ, v.e, mkConst(x, v.e->w)); std::vector<uint8_t> m2 = s.model; Sat r = feasible(s, c, m2); if (r == UNKNOWN) throw PathEnd{"incomplete", "solver gave no answer"}; if (r == UNSAT) continue; State* o = new State(s); o->model = m2; addCons(*o, simp(s, c)); pushState(o); nForks++; forkTrace(s, why, v.e); }
  addCons(s, simp(s, mkBin(O_EQ, v.e, mkConst(mine, v.e->w)))); return mine;
}
// ---------------------------------------------------------------- memory access
static Obj* resolve(State& s, u64 addr, u64 len, bool write, u64& off) {
  u64 slot = addr >> 24; off = addr & 0xFFFFFF;
  Obj* o = (addr < FUNC_BASE) ? s.mem.get(slot) : nullptr;
  if (!o) { 
     char b[120]; 
     if (addr < 0x1000000) snprintf(b, 120, "null pointer %s", write ? "write" : "read"); else snprintf(b, 120, "%s outside any object", write ? "write" : "read");
     throw PathEnd{"memory", b}; }
  if (o->freed) throw PathEnd{"memory", write ? "write after free" : "read after free"};
  if (off + len > o->size) { char b[160]; snprintf(b, 160, "%s of %s out of bounds", write ? "write" : "read", o->kind == K_HEAP ? "heap object" : o->kind == K_STACK ? "stack object" : o->name); throw PathEnd{"memory", b}; }
  if (write) { if (o->ro) throw PathEnd{"memory", std::string("write to constant ") + o->name}; o = s.mem.wget(slot); }
  return o;
}
static V readMem(State& s, u64 addr, unsigned bytes) {
  u64 off; Obj* o = resolve(s, addr, bytes, false, off);
  if (!o->s.empty()) { bool any = false; for (unsigned i = 0; i < bytes; i++) if (o->s[off + i]) { any = true; break; }
    if (any) { const Expr* e = o->s[off] ? o->s[off] : mkConst(o->d[off], 8); for (unsigned i = 1; i < bytes; i++) { const Expr* h = o->s[off + i] ? o->s[off + i] : mkConst(o->d[off + i], 8); e = mkConcat(h, e); } return S(e); } }
  u64 v = 0; memcpy(&v, &o->d[off], bytes); return C(v);
}
static void writeMem(State& s, u64 addr, unsigned bytes, const V& v) {
  u64 off; Obj* o = resolve(s, addr, bytes, true, off);
  if (!v.e) { memcpy(&o->d[off], &v.c, bytes); if (!o->s.empty()) for (unsigned i = 0; i < bytes; i++) o->s[off + i] = nullptr; return; }
  if (o->s.empty()) o->s.assign(o->size, nullptr);
  for (unsigned i = 0; i < bytes; i++) { const Expr* b = mkExtract(v.e, 8 * i, 8); if (b->op == O_CONST) { o->s[off + i] = nullptr; o->d[off + i] = (uint8_t)b->c; } else o->s[off + i] = b; }
}
static V loadV(State& s, const V& p, unsigned bytes) {
  if (!p.e) return readMem(s, p.c, bytes);
  const Expr* pe = simp(s, p.e); if (pe->op == O_CONST) return readMem(s, pe->c, bytes);
  bool ok; auto addrs = enumVals(s, pe, optEnum, ok); if (!ok) throw PathEnd{"incomplete", "symbolic read address has too many values"};
  // an address that is invalid: fork so that the failing side is reported on its own
  for (u64 a : addrs) { u64 off; try { resolve(s, a, bytes, false, off); } catch (PathEnd& pe2) { u64 x = concretize(s, S(pe), 64, optEnum, "invalid read address"); return readMem(s, x, bytes); } }
  std::vector<V> vals; bool allc = true, same = true; for (u64 a : addrs) { vals.push_back(readMem(s, a, bytes)); if (vals.back().e) allc = false; if (vals.back().e != vals[0].e || vals.back().c != vals[0].c) same = false; }
  if (same) return vals[0];
  if (pe->single >= 0 && allc) {
    u64 t[256]; unsigned v = pe->single; std::map<u64, u64> mv; for (size_t i = 0; i < addrs.size(); i++) mv[addrs[i]] = vals[i].c; static uint8_t m[256]; 
    u64 dflt = vals[0].c; std::map<u64,int> cnt; for (auto& x : vals) if (++cnt[x.c] > cnt[dflt]) dflt = x.c; 
    for (int i = 0; i < 256; i++) { evalBegin(); m[v] = i; u64 a = evalE(pe, m); auto it = mv.find(a); t[i] = (s.dom[v][i] && it != mv.end()) ? it->second : dflt; } m[v] = 0;
    const Expr* r = nullptr;
    static const int sl[3][2] = {{0,8},{0,4},{4,4}}; for (auto& q : sl) { if (r || q[1] > (int)bytes * 8) continue; bool eq = true; int cnt2 = 0; for (int i = 0; i < 256 && eq; i++) if (s.dom[v][i]) { cnt2++; if (t[i] != ((u64)(i >> q[0]) & maskw(q[1]))) eq = false; } if (eq && cnt2 > 2) r = mkZext(mkExtract(mkVar(v), q[0], q[1]), bytes * 8); }
    if (!r) r = mkTab(v, t, bytes * 8);
    // scanner/parser tables: splitting on the few distinct next states keeps later table look-ups single-variable
    if (r->op != O_CONST && bytes == 2 && lexTabSlots.count(addrs[0] >> 24)) { std::set<u64> d; for (unsigned i = s.dom[v]._Find_first(); i < 256; i = s.dom[v]._Find_next(i)) d.insert(t[i]); if (d.size() <= 64) return C(concretize(s, S(r), 16, 64, "table")); }
    return S(r);
  }
  if (bytes == 2 && lexTabSlots.count(addrs[0] >> 24)) { std::set<u64> d; bool cc = true; for (auto& x : vals) { if (x.e) cc = false; d.insert(x.c); } if (cc && d.size() <= 64) { const Expr* r = X(vals[0], 16); for (size_t i = 1; i < addrs.size(); i++) r = mkIte(mkBin(O_EQ, pe, mkConst(addrs[i], 64)), X(vals[i], 16), r); return C(concretize(s, S(r), 16, 64, "table")); } }
  // group equal values
  std::vector<std::pair<V, std::vector<u64>>> g; for (size_t i = 0; i < addrs.size(); i++) { size_t k = 0; for (; k < g.size(); k++) if (g[k].first.e == vals[i].e && g[k].first.c == vals[i].c) break; if (k == g.size()) g.push_back({vals[i], {}}); g[k].second.push_back(addrs[i]); }
  size_t big = 0; for (size_t k = 0; k < g.size(); k++) if (g[k].second.size() > g[big].second.size()) big = k;
  const Expr* r = X(g[big].first, bytes * 8); for (size_t k = 0; k < g.size(); k++) if (k != big) { const Expr* c = mkConst(0, 1); for (u64 a : g[k].second) c = mkBin(O_OR, c, mkBin(O_EQ, pe, mkConst(a, 64))); r = mkIte(c, X(g[k].first, bytes * 8), r); }
  return S(r);
}
static void storeV(State& s, const V& p, unsigned bytes, const V& v) { u64 a = concretize(s, p, 64, 256, "write address"); writeMem(s, a, bytes, v); }

// ---------------------------------------------------------------- decoding
static int typeLeaves(Type* t) { if (t->isVoidTy()) return 0; if (auto st = dyn_cast<StructType>(t)) { int n = 0; for (auto e : st->elements()) n += typeLeaves(e); return n; } if (auto at = dyn_cast<ArrayType>(t)) return (int)at->getNumElements() * typeLeaves(at->getElementType()); return 1; }
static unsigned bitsOf(Type* t) { if (t->isPointerTy()) return 64; if (t->isIntegerTy()) return t->getIntegerBitWidth(); if (t->isDoubleTy()) return 64; if (t->isFloatTy()) return 32; return 0; }
static Fn* getFn(const Function* f) { auto it = fnOf.find(f); if (it != fnOf.end()) return it->second; Fn* n = new Fn; n->f = f; n->name = f->getName().str(); fns.push_back(n); fnOf[f] = n; fnByName[n->name] = n; return n; }
static u64 fnAddr(Fn* f) { size_t i = std::find(fns.begin(), fns.end(), f) - fns.begin(); return FUNC_BASE + 16 * (i + 1); }
static Fn* fnAt(u64 a) { if (a < FUNC_BASE || (a & 15)) return nullptr; u64 i = (a - FUNC_BASE) / 16; if (i < 1 || i > fns.size()) return nullptr; return fns[i - 1]; }
static u64 constVal(const Constant* c, bool& ok);
static u64 constVal(const Constant* c, bool& ok) {
  if (auto ci = dyn_cast<ConstantInt>(c)) { if (ci->getBitWidth() > 64) { ok = false; return 0; } return ci->getZExtValue(); }
  if (isa<ConstantPointerNull>(c) || isa<UndefValue>(c) || isa<ConstantAggregateZero>(c)) return 0;
  if (auto cf = dyn_cast<ConstantFP>(c)) return cf->getValueAPF().bitcastToAPInt().getZExtValue();
  if (auto f = dyn_cast<Function>(c)) return fnAddr(getFn(f));
  if (auto g = dyn_cast<GlobalVariable>(c)) { auto it = gaddr.find(g); if (it == gaddr.end()) { ok = false; return 0; } return it->second; }
  if (auto ga = dyn_cast<GlobalAlias>(c)) return constVal(ga->getAliasee(), ok);
  if (auto ce = dyn_cast<ConstantExpr>(c)) {
    if (auto gep = dyn_cast<GEPOperator>(ce)) { APInt off(64, 0); if (!gep->accumulateConstantOffset(*DL, off)) { ok = false; return 0; } return constVal(cast<Constant>(gep->getPointerOperand()), ok) + off.getSExtValue(); }
    switch (ce->getOpcode()) { case Instruction::BitCast: case Instruction::PtrToInt: case Instruction::IntToPtr: return constVal(ce->getOperand(0), ok);
      case Instruction::Add: return constVal(ce->getOperand(0), ok) + constVal(ce->getOperand(1), ok); case Instruction::Sub: return constVal(ce->getOperand(0), ok) - constVal(ce->getOperand(1), ok);
      case Instruction::Trunc: return constVal(ce->getOperand(0), ok) & maskw(bitsOf(ce->getType())); default: ok = false; return 0; } }
  ok = false; return 0;
}
static void leafTypes(Type* t, u64 off, std::vector<std::pair<Type*, u64>>& out) {
  if (auto st = dyn_cast<StructType>(t)) { auto sl = DL->getStructLayout(st); for (unsigned i = 0; i < st->getNumElements(); i++) leafTypes(st->getElementType(i), off + sl->getElementOffset(i), out); return; }
  if (auto at = dyn_cast<ArrayType>(t)) { u64 es = DL->getTypeAllocSize(at->getElementType()); for (u64 i = 0; i < at->getNumElements(); i++) leafTypes(at->getElementType(), off + i * es, out); return; }
  if (!t->isVoidTy()) out.push_back({t, off});
}
static void leafConsts(const Constant* c, std::vector<const Constant*>& out) {
  Type* t = c->getType(); if (t->isStructTy() || t->isArrayTy()) { unsigned n = t->isStructTy() ? cast<StructType>(t)->getNumElements() : cast<ArrayType>(t)->getNumElements(); for (unsigned i = 0; i < n; i++) leafConsts(c->getAggregateElement(i), out); return; } out.push_back(c);
}
static unsigned aggIndex(Type* t, ArrayRef<unsigned> idx) { unsigned n = 0; for (unsigned i : idx) { if (auto st = dyn_cast<StructType>(t)) { for (unsigned k = 0; k < i; k++) n += typeLeaves(st->getElementType(k)); t = st->getElementType(i); } else { auto at = cast<ArrayType>(t); n += i * typeLeaves(at->getElementType()); t = at->getElementType(); } } return n; }

static void decode(Fn* F) {
  if (F->decoded) return; F->decoded = true; const Function* f = F->f; if (f->isDeclaration()) return;
  std::map<const Value*, int> reg; int n = 0;
  for (auto& a : f->args()) { reg[&a] = n; n += typeLeaves(a.getType()); } F->nargs = n;
  for (auto& bb : *f) for (auto& in : bb) if (!in.getType()->isVoidTy()) { reg[&in] = n; n += typeLeaves(in.getType()); }
  F->nregs = n; std::map<const BasicBlock*, int> start; std::vector<std::pair<int, std::pair<const BasicBlock*, const BasicBlock*>>> edgefix;
  std::map<const Constant*, int> cpool;
  auto opnd = [&](const Value* v, int leaf = 0) -> int {
    if (auto it = reg.find(v); it != reg.end()) return it->second + leaf;
    if (auto c = dyn_cast<Constant>(v)) { const Constant* lc = c; if (typeLeaves(c->getType()) > 1 || c->getType()->isStructTy()) { std::vector<const Constant*> ls; leafConsts(c, ls); lc = ls[leaf]; }
      auto it = cpool.find(lc); if (it != cpool.end()) return it->second; bool ok = true; u64 val = constVal(lc, ok); if (!ok) return INT32_MIN; F->consts.push_back(C(val)); int id = ~(int)(F->consts.size() - 1); cpool[lc] = id; return id; }
    return INT32_MIN; };
  auto mkedge = [&](const BasicBlock* from, const BasicBlock* to) -> int { int id = F->edges.size(); F->edges.push_back({}); edgefix.push_back({id, {from, to}}); return id; };
  auto kconst = [&](u64 v) { F->consts.push_back(C(v)); return ~(int)(F->consts.size() - 1); };
  for (auto& bb : *f) { start[&bb] = F->code.size();
    for (auto& in : bb) { if (isa<PHINode>(in)) continue; if (isa<DbgInfoIntrinsic>(in)) continue;
      Inst I; I.op = I_UNSUP; I.src = &in; if (!in.getType()->isVoidTy()) I.dst = reg[&in];
      unsigned w = bitsOf(in.getType()); I.w = w;
      bool vec = in.getType()->isVectorTy(); for (auto& o : in.operands()) if (o->getType()->isVectorTy()) vec = true;
      bool wide = w > 64; for (auto& o : in.operands()) if (o->getType()->isIntegerTy() && o->getType()->getIntegerBitWidth() > 64) wide = true;
      if (vec || wide) { F->code.push_back(I); continue; }
      switch (in.getOpcode()) {
        case Instruction::Add: case Instruction::Sub: case Instruction::Mul: case Instruction::UDiv: case Instruction::SDiv: case Instruction::URem: case Instruction::SRem: case Instruction::And: case Instruction::Or: case Instruction::Xor: case Instruction::Shl: case Instruction::LShr: case Instruction::AShr: {
          static const std::map<unsigned, Op> mp = {{Instruction::Add, O_ADD}, {Instruction::Sub, O_SUB}, {Instruction::Mul, O_MUL}, {Instruction::UDiv, O_UDIV}, {Instruction::SDiv, O_SDIV}, {Instruction::URem, O_UREM}, {Instruction::SRem, O_SREM}, {Instruction::And, O_AND}, {Instruction::Or, O_OR}, {Instruction::Xor, O_XOR}, {Instruction::Shl, O_SHL}, {Instruction::LShr, O_LSHR}, {Instruction::AShr, O_ASHR}};
          I.op = I_BIN; I.sub = mp.at(in.getOpcode()); I.a = opnd(in.getOperand(0)); I.b = opnd(in.getOperand(1)); break; }
        case Instruction::ICmp: { auto ic = cast<ICmpInst>(&in); I.op = I_ICMP; I.w = bitsOf(ic->getOperand(0)->getType()); I.a = opnd(ic->getOperand(0)); I.b = opnd(ic->getOperand(1)); 
          switch (ic->getPredicate()) { case CmpInst::ICMP_EQ: I.sub = O_EQ; break; case CmpInst::ICMP_NE: I.sub = O_EQ; I.flag = true; break; case CmpInst::ICMP_ULT: I.sub = O_ULT; break; case CmpInst::ICMP_ULE: I.sub = O_ULE; break; case CmpInst::ICMP_UGT: I.sub = O_ULT; std::swap(I.a, I.b); break; case CmpInst::ICMP_UGE: I.sub = O_ULE; std::swap(I.a, I.b); break; case CmpInst::ICMP_SLT: I.sub = O_SLT; break; case CmpInst::ICMP_SLE: I.sub = O_SLE; break; case CmpInst::ICMP_SGT: I.sub = O_SLT; std::swap(I.a, I.b); break; case CmpInst::ICMP_SGE: I.sub = O_SLE; std::swap(I.a, I.b); break; default: I.op = I_UNSUP; } break; }
        case Instruction::ZExt: case Instruction::SExt: case Instruction::Trunc: I.op = in.getOpcode() == Instruction::ZExt ? I_ZEXT : in.getOpcode() == Instruction::SExt ? I_SEXT : I_TRUNC; I.w2 = bitsOf(in.getOperand(0)->getType()); I.a = opnd(in.getOperand(0)); break;
        case Instruction::PtrToInt: case Instruction::IntToPtr: if (bitsOf(in.getOperand(0)->getType()) == w) { I.op = I_MOV; I.xs = {opnd(in.getOperand(0))}; } else { I.op = w < 64 ? I_TRUNC : I_ZEXT; I.w2 = bitsOf(in.getOperand(0)->getType()); I.a = opnd(in.getOperand(0)); } break;
        case Instruction::BitCast: case Instruction::Freeze: { I.op = I_MOV; int L = typeLeaves(in.getType()); for (int k = 0; k < L; k++) I.xs.push_back(opnd(in.getOperand(0), k)); break; }
        case Instruction::Select: { int L = typeLeaves(in.getType()); I.op = I_SELECT; I.a = opnd(in.getOperand(0)); I.b = opnd(in.getOperand(1)); I.c = opnd(in.getOperand(2)); if (L != 1) { I.op = I_UNSUP; } break; }
        case Instruction::Load: { std::vector<std::pair<Type*, u64>> ls; leafTypes(in.getType(), 0, ls); I.op = I_LOAD; I.a = opnd(in.getOperand(0)); for (auto& l : ls) { I.xs.push_back(bitsOf(l.first)); I.ks.push_back(l.second); if (!bitsOf(l.first) || bitsOf(l.first) > 64) I.op = I_UNSUP; } break; }
        case Instruction::Store: { auto si = cast<StoreInst>(&in); std::vector<std::pair<Type*, u64>> ls; leafTypes(si->getValueOperand()->getType(), 0, ls); I.op = I_STORE; I.a = opnd(si->getPointerOperand()); int k = 0; for (auto& l : ls) { I.xs.push_back(bitsOf(l.first)); I.xs.push_back(opnd(si->getValueOperand(), k++)); I.ks.push_back(l.second); if (!bitsOf(l.first) || bitsOf(l.first) > 64) I.op = I_UNSUP; } break; }
        case Instruction::GetElementPtr: { auto gep = cast<GEPOperator>(&in); I.op = I_GEP; I.a = opnd(gep->getPointerOperand()); i64 off = 0; for (auto gti = gep_type_begin(gep), e = gep_type_end(gep); gti != e; ++gti) { Value* idx = gti.getOperand(); if (auto st = gti.getStructTypeOrNull()) { off += DL->getStructLayout(st)->getElementOffset(cast<ConstantInt>(idx)->getZExtValue()); } else { i64 es = DL->getTypeAllocSize(gti.getIndexedType()); if (auto ci = dyn_cast<ConstantInt>(idx)) off += es * ci->getSExtValue(); else { I.xs.push_back(opnd(idx)); I.ks.push_back(bitsOf(idx->getType())); I.ks.push_back(es); } } } I.ks.push_back(off); break; }
        case Instruction::Alloca: { auto al = cast<AllocaInst>(&in); I.op = I_ALLOCA; I.ks = {(i64)(u64)DL->getTypeAllocSize(al->getAllocatedType())}; I.a = opnd(al->getArraySize()); break; }
        case Instruction::Br: { auto br = cast<BranchInst>(&in); if (br->isConditional()) { I.op = I_CBR; I.a = opnd(br->getCondition()); I.b = mkedge(&bb, br->getSuccessor(0)); I.c = mkedge(&bb, br->getSuccessor(1)); } else { I.op = I_BR; I.b = mkedge(&bb, br->getSuccessor(0)); } break; }
        case Instruction::Switch: { auto sw = cast<SwitchInst>(&in); I.op = I_SWITCH; I.w = bitsOf(sw->getCondition()->getType()); I.a = opnd(sw->getCondition()); I.b = mkedge(&bb, sw->getDefaultDest()); for (auto& c : sw->cases()) { I.ks.push_back(c.getCaseValue()->getZExtValue()); I.xs.push_back(mkedge(&bb, c.getCaseSuccessor())); } break; }
        case Instruction::Ret: { I.op = I_RET; if (auto rv = cast<ReturnInst>(&in)->getReturnValue()) { int L = typeLeaves(rv->getType()); for (int k = 0; k < L; k++) I.xs.push_back(opnd(rv, k)); } break; }
        case Instruction::Unreachable: I.op = I_UNREACH; break;
        case Instruction::Call: case Instruction::Invoke: { auto cb = cast<CallBase>(&in); I.op = I_CALL; const Value* cv = cb->getCalledOperand()->stripPointerCasts(); if (auto ga = dyn_cast<GlobalAlias>(cv)) cv = ga->getAliaseeObject(); 
          if (auto cf = dyn_cast<Function>(cv)) I.fn = getFn(cf); else I.a = opnd(cv); 
          if (isa<InlineAsm>(cv)) { I.op = I_UNSUP; break; }
          for (auto& a : cb->args()) { Value* av = a.get(); if (av->getType()->isMetadataTy()) continue; int L = typeLeaves(av->getType()); for (int k = 0; k < L; k++) { I.xs.push_back(opnd(av, k)); I.ks.push_back(bitsOf(av->getType())); } }
          I.w2 = typeLeaves(in.getType()); if (cb->getCalledOperand() && I.fn && I.fn->f->isIntrinsic()) { auto id = I.fn->f->getIntrinsicID(); if (id == Intrinsic::lifetime_start || id == Intrinsic::lifetime_end || id == Intrinsic::experimental_noalias_scope_decl || id == Intrinsic::donothing || id == Intrinsic::assume || id == Intrinsic::var_annotation || id == Intrinsic::prefetch) I.op = I_NOP; }
          for (unsigned k = 0; k < cb->arg_size(); k++) if (cb->isByValArgument(k)) I.flag = true;
          F->code.push_back(I); if (auto inv = dyn_cast<InvokeInst>(&in)) { Inst B; B.op = I_BR; B.src = &in; B.b = mkedge(&bb, inv->getNormalDest()); F->code.push_back(B); } continue; }
        case Instruction::ExtractValue: { auto ev = cast<ExtractValueInst>(&in); unsigned at = aggIndex(ev->getAggregateOperand()->getType(), ev->getIndices()); int L = typeLeaves(in.getType()); I.op = I_MOV; for (int k = 0; k < L; k++) I.xs.push_back(opnd(ev->getAggregateOperand(), at + k)); break; }
        case Instruction::InsertValue: { auto iv = cast<InsertValueInst>(&in); int at = aggIndex(in.getType(), iv->getIndices()); int L = typeLeaves(in.getType()), l2 = typeLeaves(iv->getInsertedValueOperand()->getType()); I.op = I_MOV; for (int k = 0; k < L; k++) I.xs.push_back(k >= at && k < at + l2 ? opnd(iv->getInsertedValueOperand(), k - at) : opnd(iv->getAggregateOperand(), k)); break; }
        case Instruction::FAdd: case Instruction::FSub: case Instruction::FMul: case Instruction::FDiv: I.op = I_FBIN; I.sub = in.getOpcode() == Instruction::FAdd ? 0 : in.getOpcode() == Instruction::FSub ? 1 : in.getOpcode() == Instruction::FMul ? 2 : 3; I.a = opnd(in.getOperand(0)); I.b = opnd(in.getOperand(1)); break;
        case Instruction::FCmp: I.op = I_FCMP; I.sub = cast<FCmpInst>(&in)->getPredicate(); I.w = bitsOf(in.getOperand(0)->getType()); I.a = opnd(in.getOperand(0)); I.b = opnd(in.getOperand(1)); break;
        case Instruction::FPExt: case Instruction::FPTrunc: case Instruction::SIToFP: case Instruction::UIToFP: case Instruction::FPToSI: case Instruction::FPToUI: I.op = I_FCAST; I.sub = in.getOpcode(); I.w2 = bitsOf(in.getOperand(0)->getType()); I.a = opnd(in.getOperand(0)); break;
        default: break;
      }
      F->code.push_back(I);
    } }
  (void)kconst;
  for (auto& ef : edgefix) { Edge& e = F->edges[ef.first]; e.target = start[ef.second.second]; for (auto& ph : ef.second.second->phis()) { const Value* iv = ph.getIncomingValueForBlock(ef.second.first); int L = typeLeaves(ph.getType()); for (int k = 0; k < L; k++) e.phis.push_back({reg[&ph] + k, opnd(iv, k)}); } }
}

// ---------------------------------------------------------------- globals
static void initConst(State& s, const Constant* c, u64 addr) {
  Type* t = c->getType();
  if (isa<ConstantAggregateZero>(c) || isa<UndefValue>(c)) return;
  if (auto cds = dyn_cast<ConstantDataSequential>(c)) { unsigned es = cds->getElementByteSize(); for (unsigned i = 0; i < cds->getNumElements(); i++) { u64 v; if (cds->getElementType()->isIntegerTy()) v = cds->getElementAsInteger(i); else v = cds->getElementAsAPFloat(i).bitcastToAPInt().getZExtValue(); writeMem(s, addr + i * es, es, C(v)); } return; }
  if (auto st = dyn_cast<StructType>(t)) { auto sl = DL->getStructLayout(st); for (unsigned i = 0; i < st->getNumElements(); i++) initConst(s, c->getAggregateElement(i), addr + sl->getElementOffset(i)); return; }
  if (auto at = dyn_cast<ArrayType>(t)) { u64 es = DL->getTypeAllocSize(at->getElementType()); for (unsigned i = 0; i < at->getNumElements(); i++) initConst(s, c->getAggregateElement(i), addr + i * es); return; }
  bool ok = true; u64 v = constVal(c, ok); if (!ok) { fprintf(stderr, "warning: unsupported initializer\n"); return; } writeMem(s, addr, (bitsOf(t) + 7) / 8, C(v));
}

// ---------------------------------------------------------------- interpreter
static void pushFrame(State& s, Fn* f, const std::vector<V>& args, int retDst, int retW) {
  decode(f); if (!f->hit) { f->hit = true; } f->calls++;
  if (s.st.size() > 3000) throw PathEnd{"memory", "stack overflow (call depth 3000)"};
  s.st.emplace_back(); Frame& fr = s.st.back(); fr.fn = f; fr.pc = 0; fr.retDst = retDst; fr.retW = retW; fr.r.assign(f->nregs, C(0)); for (int i = 0; i < f->nargs && i < (int)args.size(); i++) fr.r[i] = args[i];
  if (f->f->isVarArg()) { size_t extra = args.size() > (size_t)f->nargs ? args.size() - f->nargs : 0; u64 a = s.mem.alloc(extra * 8 + 8, K_STACK, "varargs", 0); for (size_t i = 0; i < extra; i++) { V x = args[f->nargs + i]; if (x.e && x.e->w < 64) x = S(mkZext(x.e, 64)); writeMem(s, a + 8 * i, 8, x); } fr.va = a; fr.allocas.push_back(a); }
}
static void popFrame(State& s) { for (u64 a : s.st.back().allocas) s.mem.drop(a >> 24); s.st.pop_back(); }

static std::string readCStr(State& s, u64 a, bool& conc) { std::string r; conc = true; for (int i = 0; i < 4096; i++) { V v = readMem(s, a + i, 1); if (v.e) { conc = false; return r; } if (!v.c) break; r += (char)v.c; } return r; }
static bool concRange(State& s, u64 a, u64 n) { u64 off; Obj* o = resolve(s, a, n, false, off); if (o->s.empty()) return true; for (u64 i = 0; i < n; i++) if (o->s[off + i]) return false; return true; }

enum Nat { N_NONE, N_MALLOC, N_CALLOC, N_REALLOC, N_FREE, N_MEMCPY, N_MEMMOVE, N_MEMSET, N_STRLEN, N_STRCPY, N_STRCMP, N_SYM, N_ASSUME, N_CHECK, N_CHOOSE, N_REACH, N_OBS, N_END, N_ISSYM, N_CONC, N_TRACE, N_VASTART, N_VAEND, N_VACOPY, N_ABS, N_SMAX, N_SMIN, N_UMAX, N_UMIN, N_EXPECT, N_OBJSIZE, N_TRAP, N_ADDO, N_BSWAP, N_CTPOP, N_RET0, N_RETARG0, N_FABS, N_STACKSAVE, N_ASSERTFAIL, N_SIZEOF, N_TAG, N_CTLZ, N_USUBSAT, N_FSH, N_ISCONST, N_TRY, N_THROW, N_RESTORE, N_CHECKKF };
static const std::map<std::string, int> natives = { {"malloc", N_MALLOC}, {"_Znwm", N_MALLOC}, {"_Znam", N_MALLOC}, {"calloc", N_CALLOC}, {"realloc", N_REALLOC}, {"free", N_FREE}, {"_ZdlPv", N_FREE}, {"_ZdaPv", N_FREE}, {"_ZdlPvm", N_FREE}, {"_ZdaPvm", N_FREE}, {"memcpy", N_MEMCPY}, {"memmove", N_MEMMOVE}, {"memset", N_MEMSET}, {"strlen", N_STRLEN}, {"strcpy", N_STRCPY}, {"strcmp", N_STRCMP}, {"vp_make_symbolic", N_SYM}, {"vp_assume", N_ASSUME}, {"vp_check", N_CHECK}, {"vp_choose", N_CHOOSE}, {"vp_reach", N_REACH}, {"vp_observe", N_OBS}, {"vp_end_path", N_END}, {"vp_is_symbolic", N_ISSYM}, {"vp_concretize", N_CONC}, {"vp_trace", N_TRACE}, {"__cxa_atexit", N_RET0}, {"atexit", N_RET0}, {"__assert_fail", N_ASSERTFAIL}, {"abort", N_TRAP}, {"vp_tag", N_TAG}, {"vp_check_kf", N_CHECKKF}, {"vp_try", N_TRY}, {"vp_throw", N_THROW}, {"vp_restore_globals", N_RESTORE}, {"__cxa_guard_abort", N_RET0} };
static void classify(Fn* f) { if (f->native) return; f->native = -1; auto it = natives.find(f->name); if (it != natives.end()) { f->native = it->second; return; }
  if (f->f->isIntrinsic()) switch (f->f->getIntrinsicID()) { case Intrinsic::memcpy: case Intrinsic::memcpy_inline: f->native = N_MEMCPY; break; case Intrinsic::memmove: f->native = N_MEMMOVE; break; case Intrinsic::memset: f->native = N_MEMSET; break; case Intrinsic::vastart: f->native = N_VASTART; break; case Intrinsic::vaend: f->native = N_VAEND; break; case Intrinsic::vacopy: f->native = N_VACOPY; break; case Intrinsic::abs: f->native = N_ABS; break; case Intrinsic::smax: f->native = N_SMAX; break; case Intrinsic::smin: f->native = N_SMIN; break; case Intrinsic::umax: f->native = N_UMAX; break; case Intrinsic::umin: f->native = N_UMIN; break; case Intrinsic::expect: f->native = N_EXPECT; break; case Intrinsic::is_constant: f->native = N_ISCONST; break; case Intrinsic::objectsize: f->native = N_OBJSIZE; break; case Intrinsic::trap: case Intrinsic::ubsantrap: f->native = N_TRAP; break; case Intrinsic::uadd_with_overflow: case Intrinsic::usub_with_overflow: case Intrinsic::umul_with_overflow: case Intrinsic::sadd_with_overflow: case Intrinsic::ssub_with_overflow: case Intrinsic::smul_with_overflow: f->native = N_ADDO; break; case Intrinsic::bswap: f->native = N_BSWAP; break; case Intrinsic::fshl: case Intrinsic::fshr: f->native = N_FSH; break; case Intrinsic::ctpop: f->native = N_CTPOP; break; case Intrinsic::ctlz: case Intrinsic::cttz: f->native = N_CTLZ; break; case Intrinsic::usub_sat: f->native = N_USUBSAT; break; case Intrinsic::stacksave: case Intrinsic::stackrestore: f->native = N_STACKSAVE; break; default: break; }
}
static void copyMem(State& s, u64 d, u64 src, u64 n) { if (!n) return; u64 so, dof; Obj* a = resolve(s, src, n, false, so); a->rc++; Obj* hold = a; Obj* b; try { b = resolve(s, d, n, true, dof); } catch (...) { objUnref(hold); throw; }
  // a may equal b's old version (kept alive by hold)
  bool asym = !a->s.empty(); std::vector<uint8_t> tmp(a->d.begin() + so, a->d.begin() + so + n); std::vector<const Expr*> ts; if (asym) ts.assign(a->s.begin() + so, a->s.begin() + so + n);
  memcpy(&b->d[dof], tmp.data(), n);
  if (asym) { bool any = false; for (auto x : ts) if (x) any = true; if (any && b->s.empty()) b->s.assign(b->size, nullptr); if (!b->s.empty()) std::copy(ts.begin(), ts.end(), b->s.begin() + dof); } else if (!b->s.empty()) std::fill(b->s.begin() + dof, b->s.begin() + dof + n, nullptr);
  objUnref(hold); }

static void doCheck(State& s, const V& c, const std::string& msg) {
  nChecks++; s.checks++; checkCount[msg]++;
  if (!c.e) { if (c.c & 1) { nCheckTrivial++; return; } report(s, "check", msg, s.model); throw PathEnd{"violated", msg}; }
  const Expr* e = simp(s, c.e); if (e->w != 1) e = mkNot(mkBin(O_EQ, e, mkConst(0, e->w))); 
  if (e->op == O_CONST) { if (e->c) { // the value sets settle it; the solver has to agree
      std::vector<uint8_t> m0 = s.model; const Expr* e0 = c.e->w == 1 ? c.e : mkNot(mkBin(O_EQ, c.e, mkConst(0, c.e->w))); Sat r0 = solve(s, mkNot(e0), m0);
      if (r0 == SAT) { fprintf(stderr, "FATAL: the value sets and the solver disagree on an assertion\n%s\n", showE(e0).c_str()); exit(3); }
      if (r0 == UNSAT) { nCheckSolver++; checkSolverCount[msg]++; } else nCheckFolded++; return; } report(s, "check", msg, s.model); throw PathEnd{"violated", msg}; }
  nCheckSolver++; checkSolverCount[msg]++;
  const Expr* ne = mkNot(e); std::vector<uint8_t> m = s.model; Sat r = solve(s, ne, m);
  if (r == UNKNOWN) throw PathEnd{"incomplete", "solver gave no answer on check " + msg};
  if (r == SAT) { report(s, "check", msg, m); std::vector<uint8_t> m2 = s.model; Sat q = feasible(s, e, m2); if (q != SAT) throw PathEnd{"violated", msg}; s.model = m2; addCons(s, e); }
}

// returns true if handled (pc already advanced by the caller)
static V bin(Op op, const V& a, const V& b, unsigned w) { if (!a.e && !b.e) return C(foldBin(op, a.c, b.c, w)); return S(mkBin(op, X(a, w), X(b, w))); }

static bool snapTaken; static std::vector<u64> repoSlots; static std::vector<Obj*> snap;

static void callNative(State& s, Frame& fr, const Inst& I, Fn* f, std::vector<V>& a) {
  int dst = I.dst; auto ret = [&](V v) { if (dst >= 0) s.st.back().r[dst] = v; };
  auto conc = [&](int i, unsigned w, const char* why) { return concretize(s, a[i], w, 300, why); };
  switch (f->native) {
    case N_MALLOC: { u64 n = conc(0, 64, "malloc size"); if (n > 0xF00000) { ret(C(0)); break; } ret(C(s.mem.alloc(n, K_HEAP, "heap", 0xAA))); break; }
    case N_CALLOC: { u64 n = conc(0, 64, "calloc") * conc(1, 64, "calloc"); if (n > 0xF00000) { ret(C(0)); break; } ret(C(s.mem.alloc(n, K_HEAP, "heap", 0))); break; }
    case N_REALLOC: { u64 p = conc(0, 64, "realloc ptr"), n = conc(1, 64, "realloc size"); if (n > 0xF00000) { ret(C(0)); break; } u64 np = s.mem.alloc(n, K_HEAP, "heap", 0xAA); if (p) { u64 off; Obj* o = resolve(s, p, 0, false, off); if (off || o->kind != K_HEAP) throw PathEnd{"memory", "realloc of a pointer that was not allocated"}; u64 m = std::min<u64>(o->size, n); copyMem(s, np, p, m); s.mem.wget(p >> 24)->freed = true; } ret(C(np)); break; }
    case N_FREE: { u64 p = conc(0, 64, "free"); if (!p) break; u64 off; Obj* o = s.mem.get(p >> 24); off = p & 0xFFFFFF; if (!o || p >= FUNC_BASE) throw PathEnd{"memory", "free of an invalid pointer"}; if (o->freed) throw PathEnd{"memory", "double free"}; if (off || o->kind != K_HEAP) throw PathEnd{"memory", "free of a pointer that was not allocated"}; 
        // keep a tombstone: later accesses are use-after-free
        Obj* t = s.mem.wget(p >> 24); t->freed = true; t->d.clear(); t->d.shrink_to_fit(); t->s.clear(); t->s.shrink_to_fit(); break; }
    case N_MEMCPY: case N_MEMMOVE: { u64 n = conc(2, 64, "memcpy size"); u64 d = conc(0, 64, "memcpy dst"), src = conc(1, 64, "memcpy src"); copyMem(s, d, src, n); ret(C(d)); break; }
    case N_MEMSET: { u64 n = conc(2, 64, "memset size"); u64 d = conc(0, 64, "memset dst"); V v = a[1]; if (n) { u64 off; Obj* o = resolve(s, d, n, true, off); if (!v.e) { memset(&o->d[off], (int)v.c, n); if (!o->s.empty()) std::fill(o->s.begin() + off, o->s.begin() + off + n, nullptr); } else { const Expr* b = mkExtract(v.e, 0, 8); for (u64 i = 0; i < n; i++) writeMem(s, d + i, 1, S(b)); } } ret(C(d)); break; }
    case N_SYM: { u64 p = conc(0, 64, "sym"), n = conc(1, 64, "sym"); bool ok; std::string nm = readCStr(s, conc(2, 64, "sym"), ok); std::string base = nm; int k = 2; while (s.syms.count(nm)) nm = base + "#" + std::to_string(k++);
        if (s.nvars + n > 256) throw PathEnd{"incomplete", "more than 256 symbolic bytes"}; s.syms[nm] = {(int)s.nvars, (int)n}; for (u64 i = 0; i < n; i++) { unsigned id = s.nvars++; s.dom[id].set(); s.model[id] = 0; writeMem(s, p + i, 1, S(mkVar(id))); } break; }
    case N_ASSUME: { V c = a[0]; if (!c.e) { if (!c.c) throw PathEnd{"assumed-away", ""}; break; } const Expr* e = c.e->w == 1 ? c.e : mkNot(mkBin(O_EQ, c.e, mkConst(0, c.e->w))); e = simp(s, e); std::vector<uint8_t> m = s.model; Sat r = feasible(s, e, m); if (r == UNSAT) throw PathEnd{"assumed-away", ""}; if (r == UNKNOWN) throw PathEnd{"incomplete", "solver gave no answer on an assumption"}; s.model = m; addCons(s, e); break; }
    case N_CHECK: { bool ok; std::string msg = readCStr(s, conc(1, 64, "msg"), ok); V c = a[0]; if (!c.e) c = C(c.c != 0); else c = S(mkNot(mkBin(O_EQ, c.e, mkConst(0, c.e->w)))); doCheck(s, c, msg); break; }
    case N_CHECKKF: { bool ok; std::string id = readCStr(s, conc(2, 64, "kf"), ok), msg = readCStr(s, conc(3, 64, "msg"), ok); auto tb = [&](V c) { return c.e ? S(c.e->w == 1 ? c.e : mkNot(mkBin(O_EQ, c.e, mkConst(0, c.e->w)))) : C(c.c != 0); }; V c = tb(a[0]), k = tb(a[1]); V both = bin(O_AND, bin(O_XOR, c, C(1), 1), k, 1);
        if (both.e || both.c) { std::vector<uint8_t> m = s.model; const Expr* e = simp(s, X(both, 1)); Sat r = e->op == O_CONST ? (e->c ? SAT : UNSAT) : solve(s, e, m); if (r == UNKNOWN) throw PathEnd{"incomplete", "solver gave no answer on check " + msg}; if (r == SAT) { report(s, "known", id, m); } }
        doCheck(s, bin(O_OR, c, k, 1), msg); break; }
    case N_CHOOSE: { u64 n = conc(0, 32, "choose"); bool ok; std::string nm = readCStr(s, conc(1, 64, "name"), ok); std::string base = nm; int k = 2; auto has = [&](const std::string& x) { for (auto& c : s.choices) if (c.first == x) return true; return false; }; while (has(nm)) nm = base + "#" + std::to_string(k++);
        bool first = s.choices.empty(); u64 mine = ~0ull; std::vector<State*> others; for (u64 i = 0; i < n; i++) { if (first && (int)(i % optSliceN) != optSliceK) continue; if (mine == ~0ull) { mine = i; continue; } State* o = new State(s); o->choices.push_back({nm, i}); if (dst >= 0) o->st.back().r[dst] = C(i); o->st.back().pc++; others.push_back(o); }
        for (size_t i = others.size(); i-- > 0;) pushState(others[i]); if (mine == ~0ull) throw PathEnd{"assumed-away", "empty slice"}; s.choices.push_back({nm, mine}); ret(C(mine)); break; }
    case N_REACH: { bool ok; s.reached.insert(readCStr(s, conc(0, 64, "msg"), ok)); break; }
    case N_TAG: { bool ok; s.pathTag = readCStr(s, conc(0, 64, "msg"), ok); break; }
    case N_OBS: { bool ok; Obs o; o.name = readCStr(s, conc(0, 64, "name"), ok); u64 p = conc(1, 64, "obs"), n = conc(2, 64, "obs"); for (u64 i = 0; i < n; i++) o.bytes.push_back(readMem(s, p + i, 1)); s.obs.push_back(o); break; }
    case N_END: throw PathEnd{"done", ""};
    case N_ISSYM: ret(C(a[0].e ? 1 : 0)); break;
    case N_CONC: ret(C(concretize(s, a[0], 64, 300, "vp_concretize"))); break;
    case N_TRACE: { bool ok; std::string m = readCStr(s, conc(0, 64, "msg"), ok); fprintf(stderr, "TRACE %s", m.c_str()); if (a.size() > 1) { if (a[1].e) fprintf(stderr, " %s", showE(a[1].e, 8).c_str()); else fprintf(stderr, " %llx", (unsigned long long)a[1].c); } fprintf(stderr, "\n"); break; }
    case N_VASTART: { u64 p = conc(0, 64, "va"); writeMem(s, p, 4, C(48)); writeMem(s, p + 4, 4, C(304)); writeMem(s, p + 8, 8, C(s.st.back().va)); writeMem(s, p + 16, 8, C(0)); break; }
    case N_VAEND: case N_STACKSAVE: if (dst >= 0) ret(C(0)); break;
    case N_VACOPY: copyMem(s, conc(0, 64, "va"), conc(1, 64, "va"), 24); break;
    case N_ABS: { unsigned w = I.w; V z = bin(O_SUB, C(0), a[0], w); V neg = bin(O_SLT, a[0], C(0), w); if (!neg.e) ret(neg.c ? z : a[0]); else ret(S(mkIte(neg.e, X(z, w), X(a[0], w)))); break; }
    case N_SMAX: case N_SMIN: case N_UMAX: case N_UMIN: { unsigned w = I.w; Op o = (f->native == N_SMAX || f->native == N_SMIN) ? O_SLT : O_ULT; V lt = bin(o, a[0], a[1], w); bool mx = f->native == N_SMAX || f->native == N_UMAX; V x = mx ? a[1] : a[0], y = mx ? a[0] : a[1]; if (!lt.e) ret(lt.c ? x : y); else ret(S(mkIte(lt.e, X(x, w), X(y, w)))); break; }
    case N_EXPECT: ret(a[0]); break;
    case N_ISCONST: ret(C(0)); break;
    case N_OBJSIZE: ret(C(~0ull)); break;
    case N_TRAP: throw PathEnd{"crash", "abort"};
    case N_ASSERTFAIL: { bool ok; throw PathEnd{"crash", "assertion failed: " + readCStr(s, conc(0, 64, "msg"), ok)}; }
    case N_ADDO: { unsigned w = I.ks[0]; auto id = f->f->getIntrinsicID(); if (a[0].e || a[1].e) { throw PathEnd{"incomplete", "symbolic overflow intrinsic"}; } __int128 x, y, r; bool sg = id == Intrinsic::sadd_with_overflow || id == Intrinsic::ssub_with_overflow || id == Intrinsic::smul_with_overflow; if (sg) { x = sx(a[0].c, w); y = sx(a[1].c, w); } else { x = a[0].c & maskw(w); y = a[1].c & maskw(w); } if (id == Intrinsic::uadd_with_overflow || id == Intrinsic::sadd_with_overflow) r = x + y; else if (id == Intrinsic::usub_with_overflow || id == Intrinsic::ssub_with_overflow) r = x - y; else r = x * y; u64 rr = (u64)r & maskw(w); bool of = sg ? ((__int128)sx(rr, w) != r) : ((__int128)rr != r); s.st.back().r[dst] = C(rr); s.st.back().r[dst + 1] = C(of); break; }
    case N_USUBSAT: { unsigned w = I.w; V lt = bin(O_ULT, a[0], a[1], w); V d = bin(O_SUB, a[0], a[1], w); if (!lt.e) ret(lt.c ? C(0) : d); else ret(S(mkIte(lt.e, mkConst(0, w), X(d, w)))); break; }
    case N_BSWAP: { unsigned w = I.w; if (!a[0].e) { u64 v = __builtin_bswap64(a[0].c) >> (64 - w); ret(C(v)); } else { const Expr* r = mkExtract(a[0].e, 0, 8); for (unsigned i = 8; i < w; i += 8) r = mkConcat(r, mkExtract(a[0].e, i, 8)); ret(S(r)); } break; }
    case N_CTPOP: { unsigned w = I.w; if (!a[0].e) ret(C(__builtin_popcountll(a[0].c & maskw(w)))); else { const Expr* r = mkConst(0, w); for (unsigned i = 0; i < w; i++) r = mkBin(O_ADD, r, mkZext(mkExtract(a[0].e, i, 1), w)); ret(S(r)); } break; }
    case N_CTLZ: { unsigned w = I.w; bool lz = f->f->getIntrinsicID() == Intrinsic::ctlz; if (!a[0].e) { u64 v = a[0].c & maskw(w); ret(C(!v ? w : lz ? __builtin_clzll(v) - (64 - w) : __builtin_ctzll(v))); } else { const Expr* r = mkConst(w, w); for (unsigned k = 0; k < w; k++) { unsigned i = lz ? k : w - 1 - k; r = mkIte(mkExtract(a[0].e, i, 1), mkConst(lz ? w - 1 - i : i, w), r); } ret(S(r)); } break; }
    case N_RESTORE: { // program globals back to their state when the program starts
        if (!snapTaken) { snapTaken = true; for (u64 sl : repoSlots) { Obj* o = s.mem.get(sl); o->rc++; snap.push_back(o); } }
        else for (size_t i = 0; i < repoSlots.size(); i++) { u64 sl = repoSlots[i]; Obj* now_ = s.mem.get(sl); if (now_ == snap[i]) continue; Chunk* c = s.mem.wchunk(sl / CH); Obj*& o = c->o[sl % CH]; objUnref(o); o = snap[i]; o->rc++; }
        break; }
    case N_FSH: { unsigned w = I.w; bool l = f->f->getIntrinsicID() == Intrinsic::fshl; if (a[2].e) throw PathEnd{"incomplete", "symbolic funnel shift amount"}; unsigned k = a[2].c % w; if (k == 0) { ret(l ? a[0] : a[1]); break; } if (!l) k = w - k; ret(bin(O_OR, bin(O_SHL, a[0], C(k), w), bin(O_LSHR, a[1], C(w - k), w), w)); break; }
    case N_RET0: ret(C(0)); break;
    case N_RETARG0: ret(a.empty() ? C(0) : a[0]); break;
    default: throw PathEnd{"incomplete", "native " + f->name};
  }
}

static inline const V& val(const Frame& f, int o) { return o >= 0 ? f.r[o] : f.fn->consts[~o]; }
static inline void takeEdge(Frame& fr, int e) {
  Edge& E = fr.fn->edges[e];
  if (E.phis.size() == 1) { V v = val(fr, E.phis[0].second); fr.r[E.phis[0].first] = v; }
  else if (!E.phis.empty()) { V tmp[64]; std::vector<V> big; V* t = tmp; if (E.phis.size() > 64) { big.resize(E.phis.size()); t = big.data(); } for (size_t i = 0; i < E.phis.size(); i++) t[i] = val(fr, E.phis[i].second); for (size_t i = 0; i < E.phis.size(); i++) fr.r[E.phis[i].first] = t[i]; }
  fr.pc = E.target;
}
static double asD(u64 b, unsigned w) { if (w == 32) { float f; uint32_t x = (uint32_t)b; memcpy(&f, &x, 4); return f; } double d; memcpy(&d, &b, 8); return d; }
static u64 fromD(double d, unsigned w) { if (w == 32) { float f = (float)d; uint32_t x; memcpy(&x, &f, 4); return x; } u64 b; memcpy(&b, &d, 8); return b; }

static void run(State& s) {
  u64 budgetCheck = 0;
  while (true) {
    Frame* fr = &s.st.back(); const Inst& I = fr->fn->code[fr->pc];
    s.insts++; nInsts++;
    if (s.insts > optMaxInst) throw PathEnd{"hang", "step bound exceeded"};
    if (((++budgetCheck) & 0xFFFF) == 0 && now() - T0 > optMaxTime) { outOfTime = true; throw PathEnd{"incomplete", "time budget"}; }
#define OPA val(*fr, I.a)
#define OPB val(*fr, I.b)
    switch (I.op) {
      case I_NOP: fr->pc++; break;
      case I_BIN: { V a = OPA, b = OPB; unsigned w = I.w; Op op = (Op)I.sub;
        if (op >= O_UDIV && op <= O_SREM) { // division: zero divisor and INT_MIN/-1 trap
          if (!b.e) { if ((b.c & maskw(w)) == 0) throw PathEnd{"crash", "division by zero"}; }
          else if (decide(s, mkBin(O_EQ, b.e, mkConst(0, w)))) throw PathEnd{"crash", "division by zero"};
          fr = &s.st.back();
          if (op == O_SDIV || op == O_SREM) { V c1 = bin(O_EQ, a, C(1ull << (w - 1)), w), c2 = bin(O_EQ, b, C(maskw(w)), w); V both = (!c1.e && !c1.c) || (!c2.e && !c2.c) ? C(0) : S(mkBin(O_AND, X(c1, 1), X(c2, 1))); if (decideV(s, both)) throw PathEnd{"crash", "signed division overflow"}; fr = &s.st.back(); } }
        fr->r[I.dst] = bin(op, a, b, w); fr->pc++; break; }
      case I_ICMP: { const V &a = OPA, &b = OPB; V r; if (!a.e && !b.e) { r = C(foldBin((Op)I.sub, a.c, b.c, I.w) ^ (u64)I.flag); } else { const Expr* e = mkBin((Op)I.sub, X(a, I.w), X(b, I.w)); if (I.flag) e = mkNot(e); r = S(e); } fr->r[I.dst] = r; fr->pc++; break; }
      case I_ZEXT: { V a = OPA; fr->r[I.dst] = a.e ? S(mkZext(a.e, I.w)) : C(a.c & maskw(I.w2)); fr->pc++; break; }
      case I_SEXT: { V a = OPA; fr->r[I.dst] = a.e ? S(mkSext(a.e, I.w)) : C((u64)sx(a.c, I.w2) & maskw(I.w)); fr->pc++; break; }
      case I_TRUNC: { V a = OPA; fr->r[I.dst] = a.e ? S(mkExtract(a.e, 0, I.w)) : C(a.c & maskw(I.w)); fr->pc++; break; }
      case I_SELECT: { V c = OPA; V t = OPB, f = val(*fr, I.c); if (!c.e) fr->r[I.dst] = (c.c & 1) ? t : f; else fr->r[I.dst] = S(mkIte(c.e, X(t, I.w), X(f, I.w))); fr->pc++; break; }
      case I_MOV: { if (I.xs.size() == 1) { V v = val(*fr, I.xs[0]); fr->r[I.dst] = v; } else { std::vector<V> t; for (int x : I.xs) t.push_back(x == INT32_MIN ? C(0) : val(*fr, x)); for (size_t i = 0; i < t.size(); i++) fr->r[I.dst + i] = t[i]; } fr->pc++; break; }
      case I_LOAD: { V p = OPA; for (size_t i = 0; i < I.xs.size(); i++) { V q = I.ks[i] ? bin(O_ADD, p, C(I.ks[i]), 64) : p; unsigned w = I.xs[i]; V v = loadV(s, q, (w + 7) / 8); if (w & 7) v = v.e ? S(mkExtract(v.e, 0, w)) : C(v.c & maskw(w)); s.st.back().r[I.dst + i] = v; } s.st.back().pc++; break; }
      case I_STORE: { V p = OPA; if (p.e) { u64 a = concretize(s, p, 64, 256, "write address"); fr = &s.st.back(); p = C(a); } for (size_t i = 0; i < I.ks.size(); i++) { unsigned w = I.xs[2 * i]; V v = val(*fr, I.xs[2 * i + 1]); if (v.e && (w & 7)) v = S(mkZext(v.e, (w + 7) / 8 * 8)); writeMem(s, p.c + I.ks[i], (w + 7) / 8, v); } fr->pc++; break; }
      case I_GEP: { V p = OPA; p = bin(O_ADD, p, C(I.ks.back()), 64); for (size_t i = 0; i < I.xs.size(); i++) { V x = val(*fr, I.xs[i]); unsigned w = I.ks[2 * i]; if (w < 64) x = x.e ? S(mkSext(x.e, 64)) : C((u64)sx(x.c, w)); else if (w > 64) throw PathEnd{"incomplete", "gep"}; p = bin(O_ADD, p, bin(O_MUL, x, C(I.ks[2 * i + 1]), 64), 64); } fr->r[I.dst] = p; fr->pc++; break; }
      case I_ALLOCA: { u64 n = concretize(s, OPA, 64, 64, "alloca"); fr = &s.st.back(); u64 a = s.mem.alloc(n * I.ks[0], K_STACK, "stack", 0xAA); fr->allocas.push_back(a); fr->r[I.dst] = C(a); fr->pc++; break; }
      case I_BR: takeEdge(*fr, I.b); break;
      case I_CBR: { V c = OPA; bool t = c.e ? decide(s, c.e) : (c.c & 1); fr = &s.st.back(); takeEdge(*fr, t ? I.b : I.c); break; }
      case I_SWITCH: { V c = OPA; if (c.e) { // decide each case in turn
            const Expr* e = simp(s, c.e); bool done = false; for (size_t i = 0; i < I.ks.size() && !done; i++) { if (decide(s, mkBin(O_EQ, e, mkConst(I.ks[i], I.w)))) { takeEdge(s.st.back(), I.xs[i]); done = true; } } if (!done) takeEdge(s.st.back(), I.b); break; }
          u64 v = c.c & maskw(I.w); int e = I.b; for (size_t i = 0; i < I.ks.size(); i++) if ((u64)I.ks[i] == v) { e = I.xs[i]; break; } takeEdge(*fr, e); break; }
      case I_RET: { V tmp[16]; size_t n = I.xs.size(); for (size_t i = 0; i < n && i < 16; i++) tmp[i] = val(*fr, I.xs[i]); int d = fr->retDst; popFrame(s); if (s.st.empty()) throw PathEnd{"done", ""}; if (d >= 0) for (size_t i = 0; i < n && i < 16; i++) s.st.back().r[d + i] = tmp[i]; break; }
      case I_UNREACH: throw PathEnd{"crash", "unreachable code executed"};
      case I_CALL: {
        Fn* f = I.fn; if (!f) { u64 a = concretize(s, OPA, 64, 64, "function pointer"); f = fnAt(a); if (!f) throw PathEnd{"memory", "call through an invalid function pointer"}; fr = &s.st.back(); }
        if (!f->native) classify(f);
        std::vector<V> args; args.reserve(I.xs.size()); for (int x : I.xs) { if (x == INT32_MIN) throw PathEnd{"incomplete", "unsupported operand in call to " + f->name}; args.push_back(val(*fr, x)); }
        if (f->native > 0) {
          if (f->native == N_STRLEN || f->native == N_STRCPY || f->native == N_STRCMP) { // fast path on concrete strings, else the bitcode version
            auto scan = [&](u64 a, u64& n) -> bool { u64 off; Obj* o = resolve(s, a, 1, false, off); for (u64 i = off; i < o->size; i++) { if (!o->s.empty() && o->s[i]) return false; if (!o->d[i]) { n = i - off; return true; } } return false; };
            bool fast = true; u64 n0 = 0, n1 = 0; for (auto& a : args) if (a.e) fast = false;
            if (fast && f->native == N_STRLEN) { if (scan(args[0].c, n0)) { fr->r[I.dst] = C(n0); fr->pc++; break; } }
            else if (fast && f->native == N_STRCPY) { if (scan(args[1].c, n1)) { copyMem(s, args[0].c, args[1].c, n1 + 1); if (I.dst >= 0) fr->r[I.dst] = args[0]; fr->pc++; break; } }
            else if (fast && scan(args[0].c, n0) && scan(args[1].c, n1)) { u64 o0, o1; Obj* a = resolve(s, args[0].c, n0 + 1, false, o0); Obj* b = resolve(s, args[1].c, n1 + 1, false, o1); int r = strcmp((const char*)&a->d[o0], (const char*)&b->d[o1]); if (I.dst >= 0) fr->r[I.dst] = C((uint32_t)(r < 0 ? -1 : r > 0)); fr->pc++; break; }
            if (f->f->isDeclaration()) throw PathEnd{"incomplete", "no bitcode for " + f->name};
          } else if (f->native == N_TRY) { u64 fa = concretize(s, args[0], 64, 64, "function pointer"); Fn* g = fnAt(fa); if (!g) throw PathEnd{"incomplete", "vp_try: no function"}; if (g->f->isDeclaration()) throw PathEnd{"incomplete", "vp_try: no function"}; s.st.back().pc++; std::vector<V> ga(args.begin() + 1, args.end()); pushFrame(s, g, ga, I.dst, 1); s.st.back().marker = true; break;
          } else if (f->native == N_THROW) { V code = args[0]; while (!s.st.empty() && !s.st.back().marker) popFrame(s); if (s.st.empty()) throw PathEnd{"done", ""}; int d = s.st.back().retDst; popFrame(s); if (d >= 0) s.st.back().r[d] = code; break;
          } else { // forked copies keep their pc on this call and re-execute it; vp_choose advances its copies itself
            callNative(s, *fr, I, f, args); s.st.back().pc++;
            break; }
        }
        if (f->f->isDeclaration()) {
          const std::string& n = f->name;
          throw PathEnd{"incomplete", "call to unmodelled external function " + n}; }
        fr->pc++; const Instruction* isrc = I.src; bool byval = I.flag; pushFrame(s, f, args, I.dst, I.w2);
        if (byval) { auto cb = cast<CallBase>(isrc); int leaf = 0; for (unsigned k = 0; k < cb->arg_size(); k++) { Type* t = cb->getArgOperand(k)->getType(); if (t->isMetadataTy()) continue;
          if (cb->isByValArgument(k)) { if (args[leaf].e) throw PathEnd{"incomplete", "byval argument behind a symbolic pointer"}; u64 n = DL->getTypeAllocSize(cb->getParamByValType(k)); u64 a = s.mem.alloc(n, K_STACK, "byval", 0); copyMem(s, a, args[leaf].c, n); s.st.back().allocas.push_back(a); if (leaf < f->nargs) s.st.back().r[leaf] = C(a); }
          leaf += typeLeaves(t); } }
        break; }
      case I_FBIN: { V a = OPA, b = OPB; if (a.e || b.e) throw PathEnd{"incomplete", "symbolic floating point"}; double x = asD(a.c, I.w), y = asD(b.c, I.w), r = I.sub == 0 ? x + y : I.sub == 1 ? x - y : I.sub == 2 ? x * y : x / y; fr->r[I.dst] = C(fromD(r, I.w)); fr->pc++; break; }
      case I_FCMP: { V a = OPA, b = OPB; if (a.e || b.e) throw PathEnd{"incomplete", "symbolic floating point"}; double x = asD(a.c, I.w), y = asD(b.c, I.w); bool r; switch (I.sub) { case CmpInst::FCMP_OEQ: case CmpInst::FCMP_UEQ: r = x == y; break; case CmpInst::FCMP_ONE: case CmpInst::FCMP_UNE: r = x != y; break; case CmpInst::FCMP_OLT: case CmpInst::FCMP_ULT: r = x < y; break; case CmpInst::FCMP_OLE: case CmpInst::FCMP_ULE: r = x <= y; break; case CmpInst::FCMP_OGT: case CmpInst::FCMP_UGT: r = x > y; break; case CmpInst::FCMP_OGE: case CmpInst::FCMP_UGE: r = x >= y; break; default: throw PathEnd{"incomplete", "fcmp"}; } fr->r[I.dst] = C(r); fr->pc++; break; }
      case I_FCAST: { V a = OPA; if (a.e) throw PathEnd{"incomplete", "symbolic floating point"}; u64 r; switch (I.sub) { case Instruction::FPExt: case Instruction::FPTrunc: r = fromD(asD(a.c, I.w2), I.w); break; case Instruction::SIToFP: r = fromD((double)sx(a.c, I.w2), I.w); break; case Instruction::UIToFP: r = fromD((double)(a.c & maskw(I.w2)), I.w); break; case Instruction::FPToSI: r = (u64)(i64)asD(a.c, I.w2) & maskw(I.w); break; default: r = (u64)asD(a.c, I.w2) & maskw(I.w); } fr->r[I.dst] = C(r); fr->pc++; break; }
      case I_UNSUP: { std::string t; raw_string_ostream os(t); if (I.src) I.src->print(os); throw PathEnd{"incomplete", "unsupported instruction " + t.substr(0, 120)}; }
    }
  }
}

int main(int argc, char** argv) {
  T0 = now(); std::vector<std::string> bcs; std::string repoBc;
  for (int i = 1; i < argc; i++) { std::string a = argv[i]; auto nx = [&]() { return std::string(argv[++i]); };
    if (a == "--eol") {} else if (a == "--ask") optAsk = true; else if (a == "--max-time") optMaxTime = atof(nx().c_str()); else if (a == "--max-inst") optMaxInst = strtoull(nx().c_str(), 0, 10); else if (a == "--slice") { std::string x = nx(); sscanf(x.c_str(), "%d/%d", &optSliceK, &optSliceN); } else if (a == "--out") optOut = nx(); else if (a == "--entry") optEntry = nx(); else if (a == "--trace") optTrace = true; else if (a == "--samples") optSamples = atoi(nx().c_str()); else if (a == "--max-paths") optMaxPaths = strtoull(nx().c_str(), 0, 10); else if (a == "--seed") optSeed = atoi(nx().c_str()); else if (a == "--max-viol") optMaxViol = atoi(nx().c_str()); else if (a == "--solver-ms") optSolverMs = atoi(nx().c_str()); else if (a == "--repo") repoBc = nx(); else bcs.push_back(a); }
  rngState ^= (u64)optSeed * 0x9E3779B97F4A7C15ull + optSliceK * 7919;
  LLVMContext ctx; SMDiagnostic err; {
    if (!repoBc.empty()) { M = parseIRFile(repoBc, err, ctx); if (!M) { err.print("symex", errs()); return 2; } for (auto& f : *M) if (!f.isDeclaration()) { f.setSection("repo"); if (f.getName().starts_with("_Z9pasm_main")) f.setName("pasm_main"); if (f.getName().starts_with("_Z8eol_main")) f.setName("eol_main"); } for (auto& g : M->globals()) if (!g.isDeclaration()) g.setSection("repo"); }
    for (auto& b : bcs) { auto m = parseIRFile(b, err, ctx); if (!m) { err.print("symex", errs()); return 2; } if (!M) M = std::move(m); else { m->setTargetTriple(M->getTargetTriple()); if (Linker::linkModules(*M, std::move(m))) { fprintf(stderr, "link failed: %s\n", b.c_str()); return 2; } } } if (!M) return 2; } DL = &M->getDataLayout();
  Z3_config cfg = Z3_mk_config(); zc = Z3_mk_context(cfg); Z3_set_error_handler(zc, zerr); zs = Z3_mk_solver_for_logic(zc, Z3_mk_string_symbol(zc, "QF_BV")); Z3_solver_inc_ref(zc, zs);
  { Z3_params p = Z3_mk_params(zc); Z3_params_inc_ref(zc, p); Z3_params_set_uint(zc, p, Z3_mk_string_symbol(zc, "timeout"), optSolverMs); Z3_params_set_uint(zc, p, Z3_mk_string_symbol(zc, "random_seed"), optSeed); Z3_solver_set_params(zc, zs, p); }
  State* s = new State; s->dom.resize(256); s->model.assign(256, 0);
  for (auto& f : *M) getFn(&f)->repo = f.getSection() == "repo";
  for (auto& g : M->globals()) { if (g.getName() == "llvm.global_ctors") continue; u64 sz = DL->getTypeAllocSize(g.getValueType()); std::string* nm = new std::string(g.getName().str()); gaddr[&g] = s->mem.alloc(sz, K_GLOBAL, nm->c_str(), 0); if (nm->find("yy_nxt") != std::string::npos) lexTabSlots.insert(gaddr[&g] >> 24); }
  for (auto& g : M->globals()) if (g.hasInitializer() && g.getName() != "llvm.global_ctors") { initConst(*s, g.getInitializer(), gaddr[&g]); }
  for (auto& g : M->globals()) if (g.isConstant() && gaddr.count(&g)) s->mem.get(gaddr[&g] >> 24)->ro = true;
  for (auto& g : M->globals()) if (gaddr.count(&g) && g.getSection() == "repo" && !g.isConstant()) repoSlots.push_back(gaddr[&g] >> 24);
  Function* mf = M->getFunction(optEntry); if (!mf) { fprintf(stderr, "no entry %s\n", optEntry.c_str()); return 2; }
  pushFrame(*s, getFn(mf), {}, -1, 0);
  if (auto ct = M->getGlobalVariable("llvm.global_ctors")) { if (auto ca = dyn_cast<ConstantArray>(ct->getInitializer())) for (unsigned i = ca->getNumOperands(); i-- > 0;) { auto fnc = dyn_cast<Function>(cast<ConstantStruct>(ca->getOperand(i))->getOperand(1)); if (fnc) pushFrame(*s, getFn(fnc), {}, -1, 0); } }
  pushState(s);
  while (!work.empty()) {
    if (outOfTime || now() - T0 > optMaxTime || nPathsDone >= optMaxPaths) { incompleteWhy["time or path budget"] += work.size(); break; }
    cur = work.back(); work.pop_back();
    try { run(*cur); }
    catch (PathEnd& p) {
      if (p.kind == "memory" || p.kind == "crash" || p.kind == "hang") { report(*cur, p.kind, p.msg, cur->model); pathDone(*cur, p.kind); }
      else if (p.kind == "incomplete") { { std::string cs; for (auto& c : cur->choices) cs += " " + c.first + "=" + std::to_string(c.second); incompleteWhy[p.msg + " @ " + whereOf(*cur) + (incompleteWhy.size() < 8 ? cs : "")]++; } pathDone(*cur, "incomplete"); if (optTrace) fprintf(stderr, "incomplete: %s @ %s\n", p.msg.c_str(), whereOf(*cur).c_str()); }
      else pathDone(*cur, p.kind);
    }
    delete cur;
  }
  // ---- output
  FILE* o = optOut.empty() ? stdout : fopen(optOut.c_str(), "w");
  auto mapj = [&](const std::map<std::string, u64>& m) { std::string r = "{"; bool f = true; for (auto& k : m) { if (!f) r += ","; f = false; r += jstr(k.first) + ":" + std::to_string(k.second); } return r + "}"; };
  std::map<std::string, u64> fhit; for (auto f : fns) if (f->calls && f->repo) fhit[f->name] = f->calls;
  std::map<std::string, u64> vp; for (auto& k : violPerMsg) vp[k.first] = k.second;
  u64 incomplete = 0; for (auto& k : incompleteWhy) incomplete += k.second;
  fprintf(o, "{\"paths\":%llu,\"forks\":%llu,\"instructions\":%llu,\"queries\":%llu,\"sat\":%llu,\"unsat\":%llu,\"unknown\":%llu,\"witness\":%llu,\"solver_s\":%.3f,\"wall_s\":%.3f,\"checks\":%llu,\"checks_solver\":%llu,\"checks_folded\":%llu,\"checks_trivial\":%llu,\"incomplete\":%llu,\"exprs\":%llu,\n", (unsigned long long)nPathsDone, (unsigned long long)nForks, (unsigned long long)nInsts, (unsigned long long)nQueries, (unsigned long long)nSat, (unsigned long long)nUnsat, (unsigned long long)nUnknown, (unsigned long long)nWitness, tSolver, now() - T0, (unsigned long long)nChecks, (unsigned long long)nCheckSolver, (unsigned long long)nCheckFolded, (unsigned long long)nCheckTrivial, (unsigned long long)incomplete, (unsigned long long)n_exprs);
  fprintf(o, "\"ends\":%s,\n\"check_counts\":%s,\n\"check_solver_counts\":%s,\n\"reach\":%s,\n\"incomplete_why\":%s,\n\"functions\":%s,\n\"violation_counts\":%s,\n\"violations\":[", mapj(endKinds).c_str(), mapj(checkCount).c_str(), mapj(checkSolverCount).c_str(), mapj(reachCount).c_str(), mapj(incompleteWhy).c_str(), mapj(fhit).c_str(), mapj(vp).c_str());
  for (size_t i = 0; i < violations.size(); i++) fprintf(o, "%s\n{\"kind\":%s,\"msg\":%s,\"where\":%s,\"inputs\":%s}", i ? "," : "", jstr(violations[i].kind).c_str(), jstr(violations[i].msg).c_str(), jstr(violations[i].where).c_str(), violations[i].inputs.c_str());
  fprintf(o, "],\n\"samples\":["); for (size_t i = 0; i < samples.size(); i++) fprintf(o, "%s\n%s", i ? "," : "", samples[i].c_str()); fprintf(o, "]}\n"); if (o != stdout) fclose(o);
  fflush(stdout); _exit(0);
}
