// C24: stacks deliver what was pushed, last in first out.
#include "vp.h"
#include <string.h>
#include "stacks.h"
typedef unsigned char u8;
#define MAXN 120
static struct one { stack_ptr s; int size, n; u8 ref_[MAXN][64]; } st[2];
static int vals; static void value(u8* v, int size) { static const char* const NM[] = { "v0", "v1", "v2", "v3", "v4", "v5", "v6", "v7", "v8", "v9" }; int k = size < 4 ? size : 4; vp_make_symbolic(v, k, NM[vals++ % 10]); for (int i = k; i < size; i++) v[i] = v[i & 3] + i; }
static void obs(int v) { u8 b = (u8)v; vp_observe("o", &b, 1); }
static void eq(const void* p, const u8* v, int size, const char* m) { vp_check(p != 0, m); if (!p) vp_end_path(); int bad = 0; for (int i = 0; i < size; i++) bad |= ((const u8*)p)[i] ^ v[i]; vp_check(bad == 0, m); }
static void push_(one* t, const u8* v) { u8 copy[64]; memcpy(copy, v, t->size); memcpy(t->ref_[t->n++], v, t->size); t->s->push(t->s->instance, copy); memset(copy, 0xEE, sizeof copy); }
static void fill(one* t, int n) { u8 v[64]; while (n-- > 0) { for (int j = 0; j < 64; j++) v[j] = t->n * 5 + j * 3; push_(t, v); } }
static void top_(one* t) { void* p = t->s->top(t->s->instance); obs(p != 0); if (!t->n) { vp_check(p == 0, "an empty stack has no top"); return; } eq(p, t->ref_[t->n - 1], t->size, "top is the element pushed last"); }
static void pop_(one* t) { void* p = t->s->pop(t->s->instance); obs(p != 0); if (!t->n) { vp_check(p == 0, "an empty stack delivers nothing"); return; } t->n--; eq(p, t->ref_[t->n], t->size, "pop delivers the element pushed last"); }
static void all(one* t) { for (int i = 0; i < t->n; i++) eq(t->s->item_at(t->s->instance, i), t->ref_[i], t->size, "the elements below stay"); }
extern "C" int vp_main(void) {
  static const int SIZES[] = { 4, 1, 56, 7, 24 }; static const int PRE[] = { 24, 0, 49, 25, 74, 26, 23, 50 };
  static const char* const NM[] = { "op0", "op1", "op2", "op3", "op4", "op5", "op6" };
  int sz = vp_choose(TIER ? 5 : 3, "size");
  st[0].size = SIZES[sz]; st[1].size = SIZES[(sz + 1) % 5]; for (int i = 0; i < 2; i++) st[i].s = create_stack(st[i].size);
#ifndef COUNT
  int pre = PRE[vp_choose(TIER ? 8 : 5, "elements")];
#endif
  top_(&st[0]);
#ifdef COUNT // every number of elements
  u8 cnt; vp_make_symbolic(&cnt, 1, "count"); vp_assume(cnt <= 110); for (int i = 0; i < cnt; i++) fill(&st[0], 1);
  int n = 2;
#else
  fill(&st[0], pre);
  int n = TIER ? 6 : 5;
#endif
  for (int i = 0; i < n; i++) { u8 v[64]; one* t = &st[0];
    switch (vp_choose(6, NM[i])) { case 0: value(v, t->size); push_(t, v); break; case 1: pop_(t); break; case 2: top_(t); if (t->n > 1) { void* p = t->s->top(t->s->instance); value(v, t->size); memcpy(p, v, t->size); memcpy(t->ref_[t->n - 1], v, t->size); } break;
      case 3: t->s->clear(t->s->instance); t->n = 0; break; case 4: fill(t, 2); break; default: t = &st[1]; if (i & 1) pop_(t); value(v, t->size); push_(t, v); top_(t); } }
  all(&st[0]); all(&st[1]);
  while (st[0].n > 0) pop_(&st[0]); top_(&st[0]); pop_(&st[0]);
  fill(&st[0], 1); pop_(&st[0]); while (st[1].n > 0) pop_(&st[1]); pop_(&st[1]);
  free_stack(st[0].s); free_stack(st[1].s);
  vp_reach("end"); vp_end_path(); }
