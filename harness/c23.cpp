// C23: the dictionary is a map, whatever the history, the keys and its growth.
// lab_20, s3880, s3185 and s4040 (7f0000000100, 7f000000a2a0, 7f000003eb50, 7f000004bd90) share a bucket of the original hash.
#include "vp.h"
#include <string.h>
#include <stdlib.h>
#include "dictionary.h"
typedef unsigned char u8; typedef unsigned int u32;
#define MAXE 1900
static int kt;             // key type: 0 names, -1 pointers
static int es;             // size of the values
static struct ent { const void* key; u8 val[24]; void* at; int live; } ref_[MAXE]; static int nref;
static dictionary_ptr d;
static int lo(int c) { return (c >= 'A') & (c <= 'Z') ? c + 32 : c; }
static int same(const void* a, const void* b) {
  if (kt) return a == b;
  const u8* x = (const u8*)a; const u8* y = (const u8*)b;
  for (;; x++, y++) { if (lo(*x) != lo(*y)) return 0; if (!*x) return 1; } }
static struct ent* newest(const void* k) { for (int i = nref; i-- > 0;) if (ref_[i].live && same(ref_[i].key, k)) return &ref_[i]; return 0; }
static void obs(int v) { u8 b = (u8)v; vp_observe("o", &b, 1); }
static void look(const void* k, const char* m) {
  struct ent* e = newest(k); u8* v = (u8*)dict_search(d, k);
  obs(v != 0);
  if (!e) { vp_check(v == 0, "nothing is found for a key that is not stored"); return; }
  vp_check(v != 0, "a stored key is found"); if (!v) vp_end_path();
  int bad = 0; for (int i = 0; i < es; i++) bad |= v[i] ^ e->val[i]; vp_check(bad == 0, m); }
static int vals; static void value(u8* v) { char n[8] = "v0"; n[1] = '0' + vals++; vp_make_symbolic(v, es < 4 ? es : 4, n); for (int i = 4; i < es; i++) v[i] = v[i & 3] + i; }
static void insert(const void* k, const u8* v) {
  struct ent* e = &ref_[nref++]; e->key = k; memcpy(e->val, v, es); e->live = 1;
  e->at = dict_insert(&d, (void*)k, (void*)v);
  vp_check(e->at != 0, "storing gives the place of the value"); if (!e->at) vp_end_path();
  vp_check(memcmp(e->at, v, es) == 0, "storing gives the place of the value"); }
static void ins(const void* k) { u8 v[24]; value(v); insert(k, v); }
static void upd(const void* k) { struct ent* e = newest(k); if (!e) { vp_reach("end"); vp_end_path(); } u8 v[24]; value(v); u8* p = (u8*)dict_search(d, k); vp_check(p != 0, "a stored key is found"); if (!p) vp_end_path(); memcpy(p, v, es); memcpy(e->val, v, es); }
static void held(const void* k) { struct ent* e = newest(k); if (!e) { vp_reach("end"); vp_end_path(); } u8 v[24]; value(v); memcpy(e->at, v, es); memcpy(e->val, v, es); } // through the place that storing gave
static void del(const void* k) { struct ent* e = newest(k); dict_delete(d, k); if (e) e->live = 0; }
static char fk[MAXE][8]; static int nfill;
static void fill(int n) {
  while (n-- > 0) { int i = nfill++; u8 v[24]; for (int j = 0; j < 24; j++) v[j] = i + j * 7;
    const void* k; if (i == 3) k = kt ? (const void*)0x7f000003eb50ul : "s3185"; else if (i == 910) k = kt ? (const void*)0x7f000004bd90ul : "s4040"; else if (kt) k = (const void*)(0x100000ul + 48ul * i); else { char* s = fk[i]; s[0] = 'q'; s[1] = '0' + i / 1000; s[2] = '0' + i / 100 % 10; s[3] = i & 1 ? 'L' : 'l'; s[4] = '0' + i / 10 % 10; s[5] = '0' + i % 10; s[6] = 0; k = s; }
    struct ent* e = &ref_[nref++]; e->key = k; memcpy(e->val, v, es); e->live = 1; e->at = dict_insert(&d, (void*)k, v); } }
static u8 sb;
static const void* keys[6]; static int nk;
extern "C" int vp_main(void) {
  static const struct { int n, kt, es; } PRE[] = { { 919, 0, 24 }, { 918, -1, 4 }, { 0, 0, 1 }, { 920, 0, 4 }, { 930, -1, 1 }, { 918, 0, 4 }, { 919, -1, 24 }, { 0, -1, 24 }, { 917, 0, 1 }, { 917, -1, 4 }, { 1841, 0, 24 } };
  static char a[4] = "a?", b[] = "aB", c[] = "A", e[] = "s3880", f[] = "lab_20", g[] = "LAB_20";
  int pc = vp_choose(TIER ? 11 : 5, "entries"), pre = PRE[pc].n; kt = PRE[pc].kt; es = PRE[pc].es;
  d = dict_create(es, kt);
#ifdef COUNT // every number of entries around the growth
  nk = 3; if (kt) { keys[0] = (const void*)0x7f0000000200ul; keys[1] = (const void*)0x7f0000000100ul; } else { keys[0] = f; keys[1] = b; } keys[2] = keys[0];
  ins(keys[0]); if (TIER) { int o = vp_choose(2, "again"); if (o) ins(keys[0]); } fill(912); u8 cnt; vp_make_symbolic(&cnt, 1, "count"); vp_assume(cnt < 16); for (int i = 0; i < cnt; i++) fill(1);
  static const char* const NM2[] = { "op0", "op1", "op2" };
  for (int i = 0; i < (TIER ? 3 : 2); i++) { int o = vp_choose(7, NM2[i]); const void* k = keys[o & 1]; switch (o >> 1) { case 0: ins(k); break; case 1: del(k); break; case 2: upd(k); break; default: held(keys[0]); } }
#elif defined(KEY)
  sb = 0; vp_make_symbolic(&sb, 1, "key"); a[1] = (char)sb;
  if (kt) { keys[0] = (const void*)(0x7f0000000000ul + sb * 16ul); keys[1] = (const void*)0x7f0000000100ul; keys[2] = (const void*)(0x100000ul + 48ul * 5); }
  else { keys[0] = a; keys[1] = b; keys[2] = c; }
  nk = 3; int order = vp_choose(TIER ? 12 : 6, "order");
  int before = order & 1; if (before) ins(keys[order / 2 % 3]);
  fill(pre);
  static const char* const SEQ[] = { "i0i1", "i1i0", "i0i0i2", "i2i0d0", "i0h0i0", "i1i0d1", "i0u0i2d0", "i0d0i0", "i1i0d0d0", "i0i1i2i0", "i2d2i0h0", "i0i1u1h0" };
  const char* s = SEQ[order];
  for (; *s; s += 2) { const void* k = keys[s[1] - '0']; if (*s == 'i') ins(k); else if (*s == 'd') del(k); else if (*s == 'u') upd(k); else held(k); }
#else
  if (kt) { keys[0] = keys[1] = (const void*)0x7f0000000100ul; keys[2] = (const void*)0x7f000000a2a0ul; keys[3] = (const void*)0x7f000003eb50ul; }
  else { keys[0] = f; keys[1] = g; keys[2] = e; keys[3] = "S3185"; }
  nk = 4;
  int n = TIER ? 4 : 3; static const char* const NM[] = { "op0", "op1", "op2", "op3", "op4" };
  int first = vp_choose(2, "first"); if (first) { ins(keys[2]); ins(keys[1]); }
  fill(pre);
  for (int i = 0; i < n; i++) { int o = vp_choose(11, NM[i]); const void* k = keys[o % 3 ? o % 3 + 1 : i & 1];
    switch (o / 3) { case 0: ins(k); break; case 1: del(k); break; case 2: upd(k); break; default: if (o & 1) held(keys[0]); else fill(3); }
    look(k, "a lookup delivers the value stored last"); }
#endif
  for (int j = 0; j < nk; j++) look(keys[j], "a lookup delivers the value stored last");
  look(kt ? (const void*)0x7f000004bd90ul : "S4040", "a lookup delivers the value stored last");
  look(kt ? (const void*)0x7f0000000101ul : "absent", "");
  for (int i = 0; i < nref; i += i < 4 ? 1 : TIER ? 97 : 307) if (i < nref) look(ref_[i].key, "a lookup delivers the value stored last");
  vp_reach("end"); dict_destroy(d); vp_end_path(); }
