// Helpers shared by the whole-program harnesses.
#pragma once
#include "vp.h"
#include <string.h>
#ifndef TIER
#define TIER 0
#endif
typedef unsigned char u8; typedef unsigned short u16; typedef unsigned int u32; typedef unsigned long long u64; typedef long long i64;
#ifndef SRCMAX
#define SRCMAX 16384
#endif
static char src[SRCMAX]; static int sn;
static void s_reset(void) { sn = 0; }
static void s_c(char c) { src[sn++] = c; }
static void s_s(const char* s) { while (*s) src[sn++] = *s++; }
static void s_n(const void* p, int n) { memcpy(src + sn, p, n); sn += n; }
static const char hx_up[17] = "0123456789ABCDEF"; static const char hx_lo[17] = "0123456789abcdef";
static void s_hex(u64 v, int digits) { for (int i = digits; i-- > 0;) s_c(hx_up[(v >> (4 * i)) & 15]); }
static u8 hx_symat[SRCMAX]; // digits of symbolic values
static void s_hexb(const u8* b, int n) { for (int i = n; i-- > 0;) { hx_symat[sn] = hx_symat[sn + 1] = 1; s_c(hx_up[b[i] >> 4]); s_c(hx_up[b[i] & 15]); } } // little-endian bytes
static void s_dec(i64 v) { char t[24]; int n = 0; u64 u = v < 0 ? -(u64)v : (u64)v; do { t[n++] = '0' + u % 10; u /= 10; } while (u); if (v < 0) s_c('-'); while (n) s_c(t[--n]); } // concrete values
// run: writes src to a.asm, assembles it; out/outn hold the output file
static const u8* out; static long outn; static int rc;
static const char* hx_opts[16]; static int hx_nopts;
static void opt(const char* o) { hx_opts[hx_nopts++] = o; }
static int asm_again(void) {
  char* av[32]; int n = 0; av[n++] = (char*)"pasm"; for (int i = 0; i < hx_nopts; i++) av[n++] = (char*)hx_opts[i]; av[n++] = (char*)"-o"; av[n++] = (char*)"a.out"; av[n++] = (char*)"a.asm"; av[n] = 0;
  vp_remove("a.out");
  rc = vp_pasm(n, av); outn = vp_file_size("a.out"); out = outn > 0 ? vp_file_data("a.out") : (const u8*)"";
  { u8 r[8]; r[0] = (u8)rc; r[1] = (u8)(rc >> 8); for (int i = 0; i < 4; i++) r[2 + i] = (u8)((outn < 0 ? 0 : outn) >> (8 * i)); vp_observe("run", r, 6); if (outn > 0) vp_observe("out", out, outn < 300 ? outn : 300); }
  return rc; }
static int asm_run(void) { vp_file("a.asm", src, sn); return asm_again(); }
static void sym(void* p, int n, const char* name) { vp_make_symbolic(p, n, name); }
static u8 sym8(const char* name) { u8 v; vp_make_symbolic(&v, 1, name); return v; }
static u16 sym16(const char* name) { u16 v; vp_make_symbolic(&v, 2, name); return v; }
static u32 sym32(const char* name) { u32 v; vp_make_symbolic(&v, 4, name); return v; }
#define OK_RUN(msg) do { vp_check(rc == 0, msg ": the program is accepted (exit status 0)"); if (rc != 0) vp_end_path(); } while (0)
