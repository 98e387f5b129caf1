#include "expr.h"
#include <unordered_set>
#include <cassert>
#include <cstdio>
#include <cstdlib>
uint64_t n_exprs = 0;
namespace {
struct H { size_t operator()(const Expr* e) const {
  uint64_t h = e->op * 0x9E3779B97F4A7C15ull + e->w * 1315423911u; h ^= e->c * 0xff51afd7ed558ccdull; 
  auto mix=[&](const void*p){ h ^= (uint64_t)p + 0x9e3779b97f4a7c15ull + (h<<6) + (h>>2); };
  mix(e->a); mix(e->b); mix(e->k); mix(e->tab); return h ^ (h >> 29); } };
struct Q { bool operator()(const Expr* x, const Expr* y) const { return x->op==y->op&&x->w==y->w&&x->c==y->c&&x->a==y->a&&x->b==y->b&&x->k==y->k&&x->tab==y->tab; } };
std::unordered_set<const Expr*, H, Q> pool;
struct TH { size_t operator()(const Table* t) const { uint64_t h=1469598103934665603ull; for(int i=0;i<256;i++){h^=t->t[i];h*=1099511628211ull;} return h; } };
struct TQ { bool operator()(const Table* x, const Table* y) const { return memcmp(x,y,sizeof(Table))==0; } };
std::unordered_set<const Table*, TH, TQ> tpool;
uint32_t curEpoch = 0;

const Expr* intern(Op op, unsigned w, uint64_t c, const Expr* a=nullptr, const Expr* b=nullptr, const Expr* k=nullptr, const Table* tab=nullptr) {
  Expr t; t.op=op; t.w=w; t.c=c; t.a=a; t.b=b; t.k=k; t.tab=tab;
  auto it = pool.find(&t); if (it != pool.end()) return *it;
  Expr* e = new Expr(t); e->id = (uint32_t)++n_exprs; e->btab=nullptr; e->epoch=0; e->z3=nullptr; e->sup.reset();
  if (op==O_VAR || op==O_TAB) e->sup.set(c);
  if (a) e->sup |= a->sup; if (b) e->sup |= b->sup; if (k) e->sup |= k->sup;
  e->single = -1; if (e->sup.count()==1) e->single = (int16_t)e->sup._Find_first();
  switch(op){
    case O_CONST: e->ub = c? 64-__builtin_clzll(c):0; e->lz = c? __builtin_ctzll(c):w; break;
    case O_VAR: e->ub=8; e->lz=0; break;
    case O_TAB: { uint64_t m=0; for(int i=0;i<256;i++) m|=tab->t[i]; e->ub=m?64-__builtin_clzll(m):0; e->lz=m?__builtin_ctzll(m):w; break; }
    case O_ZEXT: e->ub=a->ub; e->lz=a->ub?a->lz:w; break;
    case O_SEXT: e->ub=a->ub<a->w?a->ub:w; e->lz=a->lz; break;
    case O_CONCAT: e->ub=a->ub?a->ub+b->w:b->ub; e->lz=b->ub?b->lz:b->w+a->lz; break;
    case O_EXTRACT: e->ub=a->ub>c?std::min<unsigned>(w,a->ub-c):0; e->lz=a->lz>c?std::min<unsigned>(w,a->lz-c):0; break;
    case O_AND: e->ub=std::min(a->ub,b->ub); e->lz=std::max(a->lz,b->lz); break;
    case O_OR: case O_XOR: e->ub=std::max(a->ub,b->ub); e->lz=std::min(a->lz,b->lz); break;
    case O_ADD: e->ub=std::min<unsigned>(w,std::max(a->ub,b->ub)+1); e->lz=std::min(a->lz,b->lz); break;
    case O_MUL: e->ub=std::min<unsigned>(w,a->ub+b->ub); e->lz=std::min<unsigned>(w,a->lz+b->lz); break;
    case O_LSHR: case O_UDIV: e->ub=(op==O_UDIV&&!(b->op==O_CONST&&b->c))?w:a->ub; e->lz=0; break;
    case O_ITE: e->ub=std::max(b->ub,k->ub); e->lz=std::min(b->lz,k->lz); break;
    default: e->ub=w; e->lz=0; }
  pool.insert(e); return e;
}
}
const Expr* mkConst(uint64_t v, unsigned w) { return intern(O_CONST, w, v & maskw(w)); }
const Expr* mkVar(unsigned id) { assert(id<256); return intern(O_VAR, 8, id); }
const Expr* mkTab(unsigned var, const uint64_t* t, unsigned w) {
  Table n; bool same=true, ident=(w==8); for (int i=0;i<256;i++){ n.t[i]=t[i]&maskw(w); if(n.t[i]!=n.t[0]) same=false; if(n.t[i]!=(uint64_t)i) ident=false; }
  if (same) return mkConst(n.t[0], w);
  if (ident) return mkVar(var);
  auto it=tpool.find(&n); const Table* tp; if(it!=tpool.end()) tp=*it; else { tp=new Table(n); tpool.insert(tp); }
  return intern(O_TAB, w, var, nullptr, nullptr, nullptr, tp);
}
uint64_t foldBin(Op op, uint64_t a, uint64_t b, unsigned w) {
  uint64_t m = maskw(w); a&=m; b&=m;
  switch(op){
    case O_ADD: return (a+b)&m; case O_SUB: return (a-b)&m; case O_MUL: return (a*b)&m;
    case O_UDIV: return b? (a/b)&m : m; case O_UREM: return b? (a%b)&m : a;
    case O_SDIV: { int64_t x=sx(a,w), y=sx(b,w); if(!y) return x<0?1:m; if(y==-1) return (0-(uint64_t)x)&m; return (uint64_t)(x/y)&m; }
    case O_SREM: { int64_t x=sx(a,w), y=sx(b,w); if(!y) return a; if(y==-1) return 0; return (uint64_t)(x%y)&m; }
    case O_AND: return a&b; case O_OR: return a|b; case O_XOR: return a^b;
    // shift amounts are taken modulo the width, as x86 does (w is a power of two >= 8 whenever this matters)
    case O_SHL: b&=(w==64?63:31); return b>=w?0:(a<<b)&m; case O_LSHR: b&=(w==64?63:31); return b>=w?0:(a>>b); case O_ASHR: { b&=(w==64?63:31); if(b>=w)b=w-1; return (uint64_t)(sx(a,w)>>b)&m; }
    case O_EQ: return a==b; case O_ULT: return a<b; case O_ULE: return a<=b;
    case O_SLT: return sx(a,w)<sx(b,w); case O_SLE: return sx(a,w)<=sx(b,w);
    default: abort();
  }
}
const Expr* mkNot(const Expr* e) {
  assert(e->w==1);
  if (e->op==O_CONST) return mkConst(!e->c,1);
  if (e->op==O_XOR && e->b->op==O_CONST && e->b->c==1) return e->a;
  if (e->op==O_ULT) return mkBin(O_ULE, e->b, e->a);
  if (e->op==O_ULE) return mkBin(O_ULT, e->b, e->a);
  if (e->op==O_SLT) return mkBin(O_SLE, e->b, e->a);
  if (e->op==O_SLE) return mkBin(O_SLT, e->b, e->a);
  return intern(O_XOR,1,0,e,mkConst(1,1));
}
static bool isC(const Expr* e){ return e->op==O_CONST; }
const Expr* mkBin(Op op, const Expr* a, const Expr* b) {
  unsigned w=a->w; assert(a->w==b->w);
  bool cmp = op==O_EQ||op==O_ULT||op==O_ULE||op==O_SLT||op==O_SLE;
  if (isC(a)&&isC(b)) return mkConst(foldBin(op,a->c,b->c,w), cmp?1:w);
  bool comm = op==O_ADD||op==O_MUL||op==O_AND||op==O_OR||op==O_XOR||op==O_EQ;
  if (comm && (isC(a) || (!isC(b) && a->id > b->id))) std::swap(a,b);
  uint64_t m=maskw(w);
  bool bc=isC(b); uint64_t c=bc?b->c:0;
  if ((op==O_ADD||op==O_OR||op==O_XOR) && w>1) { // disjoint bits: glue
    auto glue=[&](const Expr* x,const Expr* y)->const Expr*{ unsigned n=x->lz; if(n==0||n>=w||y->ub>n||y->ub==0||x->ub==0) return nullptr; return mkConcat(mkExtract(x,n,w-n),mkExtract(y,0,n)); };
    if(const Expr* r=glue(a,b)) return r; if(const Expr* r=glue(b,a)) return r; }
  switch(op){
  case O_ADD: if(bc&&c==0) return a; if(bc&&a->op==O_ADD&&isC(a->b)) return mkBin(O_ADD,a->a,mkConst(a->b->c+c,w)); break;
  case O_SUB: if(a==b) return mkConst(0,w); if(bc) return mkBin(O_ADD,a,mkConst(0-c,w));
    if(a->op==O_ADD&&a->a==b) return a->b; if(a->op==O_ADD&&a->b==b) return a->a;
    if(a->op==O_ADD&&isC(a->b)&&b->op==O_ADD&&isC(b->b)) return mkBin(O_ADD, mkBin(O_SUB,a->a,b->a), mkConst(a->b->c-b->b->c,w));
    break;
  case O_MUL: if(bc&&c==0) return b; if(bc&&c==1) return a; if(bc&&(c&(c-1))==0) return mkBin(O_SHL,a,mkConst(__builtin_ctzll(c),w)); break;
  case O_UDIV: if(bc&&c==1) return a; if(bc&&c&&(c&(c-1))==0) return mkBin(O_LSHR,a,mkConst(__builtin_ctzll(c),w)); break;
  case O_UREM: if(bc&&c&&(c&(c-1))==0) return mkBin(O_AND,a,mkConst(c-1,w)); break;
  case O_SDIV: if(bc&&c==1) return a; break;
  case O_SREM: break;
  case O_AND: if(a==b) return a; if(bc&&c==0) return b; if(bc&&c==m) return a;
    if(bc&&a->op==O_AND&&isC(a->b)) return mkBin(O_AND,a->a,mkConst(a->b->c&c,w));
    if(bc&&(c&(c+1))==0){ unsigned n=__builtin_popcountll(c); return mkZext(mkExtract(a,0,n),w); } // low mask
    if(bc){ unsigned lo=__builtin_ctzll(c); uint64_t s=c>>lo; if((s&(s+1))==0){ unsigned n=__builtin_popcountll(s); const Expr* mid=mkConcat(mkExtract(a,lo,n),mkConst(0,lo)); return mkZext(mid,w);} }
    break;
  case O_OR: if(a==b) return a; if(bc&&c==0) return a; if(bc&&c==m) return b;
    break;
  case O_XOR: if(a==b) return mkConst(0,w); if(bc&&c==0) return a; if(w==1&&bc) return mkNot(a); 
    if(bc&&a->op==O_XOR&&isC(a->b)) return mkBin(O_XOR,a->a,mkConst(a->b->c^c,w)); break;
  case O_SHL: if(bc){ c&=(w==64?63:31); if(c==0) return a; if(c>=w) return mkConst(0,w); return mkConcat(mkExtract(a,0,w-c),mkConst(0,c)); } break;
  case O_LSHR: if(bc){ c&=(w==64?63:31); if(c==0) return a; if(c>=w) return mkConst(0,w); return mkZext(mkExtract(a,c,w-c),w);} break;
  case O_ASHR: if(bc){ c&=(w==64?63:31); if(c==0) return a; if(c>=w) c=w-1; return mkSext(mkExtract(a,c,w-c),w);} break;
  case O_EQ:
    if(a==b) return mkConst(1,1);
    if(w==1&&bc) return c?a:mkNot(a);
    if(bc&&a->op==O_ZEXT){ if(c>maskw(a->a->w)) return mkConst(0,1); return mkBin(O_EQ,a->a,mkConst(c,a->a->w)); }
    if(bc&&a->op==O_SEXT){ uint64_t t=c&maskw(a->a->w); if(((uint64_t)sx(t,a->a->w)&m)!=c) return mkConst(0,1); return mkBin(O_EQ,a->a,mkConst(t,a->a->w)); }
    if(bc&&a->op==O_ADD&&isC(a->b)) return mkBin(O_EQ,a->a,mkConst(c-a->b->c,w));
    if(bc&&a->op==O_XOR&&isC(a->b)) return mkBin(O_EQ,a->a,mkConst(c^a->b->c,w));
    if(bc&&a->op==O_ITE&&(isC(a->b)||isC(a->k))){ 
      const Expr* x=mkBin(O_EQ,a->b,b); const Expr* y=mkBin(O_EQ,a->k,b); if(isC(x)||isC(y)) return mkIte(a->a,x,y); }
    if(bc&&a->op==O_CONCAT){ const Expr* hi=mkBin(O_EQ,a->a,mkConst(c>>a->b->w,a->a->w)); if(isC(hi)&&!hi->c) return hi; const Expr* lo=mkBin(O_EQ,a->b,mkConst(c,a->b->w)); return mkBin(O_AND,hi,lo);} 
    if(a->op==O_ZEXT&&b->op==O_ZEXT){ unsigned mw=std::max(a->a->w,b->a->w); return mkBin(O_EQ,mkZext(a->a,mw),mkZext(b->a,mw)); }
    if(a->op==O_CONCAT&&b->op==O_CONCAT&&a->b->w==b->b->w) return mkBin(O_AND,mkBin(O_EQ,a->a,b->a),mkBin(O_EQ,a->b,b->b));
    break;
  case O_ULT:
    if(a==b) return mkConst(0,1); if(bc&&c==0) return mkConst(0,1); if(bc&&c==1) return mkBin(O_EQ,a,mkConst(0,w)); if(isC(a)&&a->c==m) return mkConst(0,1);
    if(a->op==O_ZEXT&&bc){ if(c>maskw(a->a->w)) return mkConst(1,1); return mkBin(O_ULT,a->a,mkConst(c,a->a->w)); }
    if(b->op==O_ZEXT&&isC(a)){ if(a->c>=maskw(b->a->w)) return mkConst(0,1); return mkBin(O_ULT,mkConst(a->c,b->a->w),b->a); }
    if(a->op==O_ZEXT&&b->op==O_ZEXT){ unsigned mw=std::max(a->a->w,b->a->w); return mkBin(O_ULT,mkZext(a->a,mw),mkZext(b->a,mw)); }
    break;
  case O_ULE:
    if(a==b) return mkConst(1,1); if(bc&&c==m) return mkConst(1,1); if(isC(a)&&a->c==0) return mkConst(1,1); if(bc&&c==0) return mkBin(O_EQ,a,b);
    if(a->op==O_ZEXT&&bc){ if(c>=maskw(a->a->w)) return mkConst(1,1); return mkBin(O_ULE,a->a,mkConst(c,a->a->w)); }
    if(b->op==O_ZEXT&&isC(a)){ if(a->c>maskw(b->a->w)) return mkConst(0,1); return mkBin(O_ULE,mkConst(a->c,b->a->w),b->a); }
    if(a->op==O_ZEXT&&b->op==O_ZEXT){ unsigned mw=std::max(a->a->w,b->a->w); return mkBin(O_ULE,mkZext(a->a,mw),mkZext(b->a,mw)); }
    break;
  case O_SLT: case O_SLE: {
    if(a==b) return mkConst(op==O_SLE,1);
    auto nn=[&](const Expr* e){ return e->ub<w; };
    bool na=nn(a), nb=nn(b);
    if(na&&nb) return mkBin(op==O_SLT?O_ULT:O_ULE,a,b);
    if(na&&bc&&(c>>(w-1))) return mkConst(0,1);       // nonneg < negative
    if(nb&&isC(a)&&(a->c>>(w-1))) return mkConst(1,1);
    break; }
  default: break;
  }
  if (w==1 && (op==O_AND||op==O_OR)) { // complement
    if (mkNot(a)==b) return mkConst(op==O_OR,1);
  }
  return intern(op, cmp?1:w, 0, a, b);
}
const Expr* mkIte(const Expr* c, const Expr* a, const Expr* b) {
  assert(a->w==b->w && c->w==1);
  if (isC(c)) return c->c?a:b;
  if (a==b) return a;
  if (a->w==1) {
    if (isC(a)) return a->c? mkBin(O_OR,c,b) : mkBin(O_AND,mkNot(c),b);
    if (isC(b)) return b->c? mkBin(O_OR,mkNot(c),a) : mkBin(O_AND,c,a);
  }
  if (isC(a)&&isC(b)&&a->c==1&&b->c==0) return mkZext(c,a->w);
  if (isC(a)&&isC(b)&&a->c==0&&b->c==1) return mkZext(mkNot(c),a->w);
  return intern(O_ITE,a->w,0,c,a,b);
}
const Expr* mkExtract(const Expr* e, unsigned lo, unsigned w) {
  assert(lo+w<=e->w && w>0);
  if (w==e->w) return e;
  if (e->ub<=lo) return mkConst(0,w);
  switch(e->op){
  case O_CONST: return mkConst(e->c>>lo,w);
  case O_EXTRACT: return mkExtract(e->a,e->c+lo,w);
  case O_CONCAT: { unsigned lw=e->b->w; if(lo+w<=lw) return mkExtract(e->b,lo,w); if(lo>=lw) return mkExtract(e->a,lo-lw,w);
      return mkConcat(mkExtract(e->a,0,lo+w-lw), mkExtract(e->b,lo,lw-lo)); }
  case O_ZEXT: { unsigned iw=e->a->w; if(lo>=iw) return mkConst(0,w); if(lo+w<=iw) return mkExtract(e->a,lo,w); return mkZext(mkExtract(e->a,lo,iw-lo),w); }
  case O_SEXT: { unsigned iw=e->a->w; if(lo+w<=iw) return mkExtract(e->a,lo,w); if(lo<iw) return mkSext(mkExtract(e->a,lo,iw-lo),w); 
      return mkSext(mkExtract(e->a,iw-1,1),w); }
  case O_AND: case O_OR: case O_XOR: return mkBin(e->op,mkExtract(e->a,lo,w),mkExtract(e->b,lo,w));
  case O_ADD: case O_SUB: case O_MUL: if(lo==0) return mkBin(e->op,mkExtract(e->a,0,w),mkExtract(e->b,0,w)); break;
  case O_ITE: if(isC(e->b)||isC(e->k)) return mkIte(e->a,mkExtract(e->b,lo,w),mkExtract(e->k,lo,w)); break;
  case O_TAB: { uint64_t t[256]; for(int i=0;i<256;i++) t[i]=(e->tab->t[i]>>lo)&maskw(w); return mkTab(e->c,t,w); }
  default: break;
  }
  return intern(O_EXTRACT,w,lo,e);
}
const Expr* mkConcat(const Expr* hi, const Expr* lo) {
  unsigned w=hi->w+lo->w; assert(w<=64);
  if (isC(hi)&&isC(lo)) return mkConst((hi->c<<lo->w)|lo->c,w);
  if (isC(hi)&&hi->c==0) return mkZext(lo,w);
  if (hi->op==O_EXTRACT&&lo->op==O_EXTRACT&&hi->a==lo->a&&hi->c==lo->c+lo->w) return mkExtract(hi->a,lo->c,w);
  // hi = extract of x just above lo, where lo is whole low part (e.g. lo itself was simplified)
  if (hi->op==O_EXTRACT&&lo->op!=O_EXTRACT&&hi->c==lo->w) { if (mkExtract(hi->a,0,lo->w)==lo) return mkExtract(hi->a,0,w); }
  if (hi->op==O_CONCAT&&isC(hi->b)&&isC(lo)) return mkConcat(hi->a, mkConst((hi->b->c<<lo->w)|lo->c, hi->b->w+lo->w));
  // right-nested canonical form: concat(concat(a,b),c) -> concat(a,concat(b,c)) only if b,c merge
  if (hi->op==O_CONCAT) { const Expr* t=hi->b; if(t->op==O_EXTRACT&&lo->op==O_EXTRACT&&t->a==lo->a&&t->c==lo->c+lo->w) return mkConcat(hi->a,mkExtract(lo->a,lo->c,t->w+lo->w)); 
     if (t->op==O_EXTRACT&&lo->op!=O_EXTRACT&&t->c==lo->w&&mkExtract(t->a,0,lo->w)==lo) return mkConcat(hi->a, mkExtract(t->a,0,t->w+lo->w)); }
  if (hi->op==O_ZEXT) return mkZext(mkConcat(hi->a,lo),w);
  if (hi->op==O_SEXT && hi->a->w==1 && lo->op==O_SEXT && mkExtract(lo,lo->w-1,1)==hi->a) return mkSext(lo->a,w);
  if (hi->op==O_SEXT && hi->a->w==1 && mkExtract(lo,lo->w-1,1)==hi->a) return mkSext(lo,w);
  if (hi->op==O_SEXT && lo->op==O_EXTRACT && hi->a->op==O_EXTRACT && hi->a->a==lo->a && hi->a->c==lo->c+lo->w) return mkSext(mkConcat(hi->a,lo),w);
  return intern(O_CONCAT,w,0,hi,lo);
}
const Expr* mkZext(const Expr* e, unsigned w) {
  if (w==e->w) return e; if (isC(e)) return mkConst(e->c,w);
  if (e->op==O_ZEXT) return mkZext(e->a,w);
  if (e->op==O_TAB) return mkTab(e->c,e->tab->t,w);
  return intern(O_ZEXT,w,0,e);
}
const Expr* mkSext(const Expr* e, unsigned w) {
  if (w==e->w) return e; if (isC(e)) return mkConst((uint64_t)sx(e->c,e->w),w);
  if (e->ub<e->w) return mkZext(e,w);
  if (e->op==O_SEXT) return mkSext(e->a,w);
  if (e->op==O_TAB) { uint64_t t[256]; for(int i=0;i<256;i++) t[i]=(uint64_t)sx(e->tab->t[i],e->w); return mkTab(e->c,t,w); }
  return intern(O_SEXT,w,0,e);
}
void evalBegin() { curEpoch++; }
uint64_t evalE(const Expr* e, const uint8_t* m) {
  if (e->op==O_CONST) return e->c;
  if (e->op==O_VAR) return m[e->c];
  if (e->op==O_TAB) return e->tab->t[m[e->c]];
  if (e->epoch==curEpoch) return e->ev;
  uint64_t r;
  switch(e->op){
    case O_CONCAT: r=(evalE(e->a,m)<<e->b->w)|evalE(e->b,m); break;
    case O_EXTRACT: r=(evalE(e->a,m)>>e->c)&maskw(e->w); break;
    case O_ZEXT: r=evalE(e->a,m); break;
    case O_SEXT: r=(uint64_t)sx(evalE(e->a,m),e->a->w)&maskw(e->w); break;
    case O_ITE: r=evalE(e->a,m)?evalE(e->b,m):evalE(e->k,m); break;
    default: r=foldBin(e->op,evalE(e->a,m),evalE(e->b,m),e->a->w);
  }
  e->ev=r; e->epoch=curEpoch; return r;
}
const Bits& boolTable(const Expr* e) {
  if (e->btab) return *e->btab;
  Bits* b=new Bits; static uint8_t m[256];
  unsigned v=e->single;
  for(int i=0;i<256;i++){ evalBegin(); m[v]=i; if(evalE(e,m)) b->set(i); }
  m[v]=0; e->btab=b; return *b;
}
static const Expr* substR(const Expr* e, const std::function<int(unsigned)>& f, std::unordered_map<const Expr*,const Expr*>& memo) {
  if (e->op==O_CONST) return e;
  if (e->op==O_VAR) { int v=f(e->c); return v<0?e:mkConst(v,8); }
  if (e->op==O_TAB) { int v=f(e->c); return v<0?e:mkConst(e->tab->t[v],e->w); }
  auto it=memo.find(e); if(it!=memo.end()) return it->second;
  const Expr* r;
  switch(e->op){
    case O_CONCAT: r=mkConcat(substR(e->a,f,memo),substR(e->b,f,memo)); break;
    case O_EXTRACT: r=mkExtract(substR(e->a,f,memo),e->c,e->w); break;
    case O_ZEXT: r=mkZext(substR(e->a,f,memo),e->w); break;
    case O_SEXT: r=mkSext(substR(e->a,f,memo),e->w); break;
    case O_ITE: r=mkIte(substR(e->a,f,memo),substR(e->b,f,memo),substR(e->k,f,memo)); break;
    default: r=mkBin(e->op,substR(e->a,f,memo),substR(e->b,f,memo));
  }
  memo[e]=r; return r;
}
const Expr* substE(const Expr* e, const std::function<int(unsigned)>& f) { std::unordered_map<const Expr*,const Expr*> m; return substR(e,f,m); }
std::string showE(const Expr* e, int d) {
  static const char* n[]={"const","var","tab","+","-","*","/u","/s","%u","%s","&","|","^","<<",">>",">>s","==","<u","<=u","<s","<=s","++","extract","zext","sext","ite"};
  char b[64];
  if(e->op==O_CONST){ snprintf(b,64,"0x%llx",(unsigned long long)e->c); return b; }
  if(e->op==O_VAR){ snprintf(b,64,"v%d",(int)e->c); return b; }
  if(e->op==O_TAB){ snprintf(b,64,"tab(v%d)",(int)e->c); return b; }
  if(d==0) return "...";
  std::string s="("; s+=n[e->op]; if(e->op==O_EXTRACT){ snprintf(b,64,"[%d+%d]",(int)e->c,e->w); s+=b; }
  for(const Expr* x:{e->a,e->b,e->k}) if(x){ s+=" "; s+=showE(x,d-1);} return s+")";
}
