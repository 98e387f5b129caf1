// Model of the C library for the symbolic executor.  Files live in memory; console output is discarded after its
// string arguments have been read (so that bad pointers are still noticed).
#include <stddef.h>
#include <stdint.h>
#include <stdarg.h>
#include "vp.h"
#include "ctype_tab.h"
#undef errno
void* malloc(size_t); void free(void*); void* realloc(void*, size_t); void* memcpy(void*, const void*, size_t); void* memmove(void*, const void*, size_t); void* memset(void*, int, size_t);
size_t strlen(const char*); int strcmp(const char*, const char*); char* strcpy(char*, const char*);
static int vlibc_errno; int* __errno_location(void) { return &vlibc_errno; }
// ---- strings
size_t strlen(const char* s) { size_t n = 0; while (s[n]) n++; return n; }
size_t strnlen(const char* s, size_t m) { size_t n = 0; while (n < m && s[n]) n++; return n; }
int strcmp(const char* a, const char* b) { while (*a && *a == *b) { a++; b++; } return (unsigned char)*a - (unsigned char)*b; }
int strncmp(const char* a, const char* b, size_t n) { while (n && *a && *a == *b) { a++; b++; n--; } return n ? (unsigned char)*a - (unsigned char)*b : 0; }
int tolower(int c) { return c >= -128 && c < 256 ? vlibc_lower[c + 128] : c; }
int toupper(int c) { return c >= -128 && c < 256 ? vlibc_upper[c + 128] : c; }
int strcasecmp(const char* a, const char* b) { while (*a && tolower((unsigned char)*a) == tolower((unsigned char)*b)) { a++; b++; } return tolower((unsigned char)*a) - tolower((unsigned char)*b); }
int strncasecmp(const char* a, const char* b, size_t n) { while (n && *a && tolower((unsigned char)*a) == tolower((unsigned char)*b)) { a++; b++; n--; } return n ? tolower((unsigned char)*a) - tolower((unsigned char)*b) : 0; }
char* strcpy(char* d, const char* s) { char* r = d; while ((*d++ = *s++)); return r; }
char* stpcpy(char* d, const char* s) { while ((*d = *s)) { d++; s++; } return d; }
char* strncpy(char* d, const char* s, size_t n) { size_t i = 0; for (; i < n && s[i]; i++) d[i] = s[i]; for (; i < n; i++) d[i] = 0; return d; }
char* strcat(char* d, const char* s) { strcpy(d + strlen(d), s); return d; }
char* strncat(char* d, const char* s, size_t n) { char* e = d + strlen(d); while (n && *s) { *e++ = *s++; n--; } *e = 0; return d; }
char* strchr(const char* s, int c) { for (;; s++) { if (*s == (char)c) return (char*)s; if (!*s) return 0; } }
char* strrchr(const char* s, int c) { const char* r = 0; for (;; s++) { if (*s == (char)c) r = s; if (!*s) return (char*)r; } }
char* strstr(const char* h, const char* n) { size_t l = strlen(n); for (;; h++) { if (!strncmp(h, n, l)) return (char*)h; if (!*h) return 0; } }
size_t strspn(const char* s, const char* a) { size_t n = 0; while (s[n] && strchr(a, s[n])) n++; return n; }
size_t strcspn(const char* s, const char* a) { size_t n = 0; while (s[n] && !strchr(a, s[n])) n++; return n; }
char* strpbrk(const char* s, const char* a) { s += strcspn(s, a); return *s ? (char*)s : 0; }
char* strdup(const char* s) { size_t n = strlen(s) + 1; char* r = (char*)malloc(n); memcpy(r, s, n); return r; }
char* strndup(const char* s, size_t m) { size_t n = strnlen(s, m); char* r = (char*)malloc(n + 1); memcpy(r, s, n); r[n] = 0; return r; }
static char* vlibc_tok; char* strtok(char* s, const char* d) { if (s) vlibc_tok = s; if (!vlibc_tok) return 0; s = vlibc_tok + strspn(vlibc_tok, d); if (!*s) { vlibc_tok = 0; return 0; } char* e = s + strcspn(s, d); if (*e) { *e = 0; vlibc_tok = e + 1; } else vlibc_tok = 0; return s; }
int memcmp(const void* a, const void* b, size_t n) { const unsigned char *x = (const unsigned char*)a, *y = (const unsigned char*)b; for (size_t i = 0; i < n; i++) if (x[i] != y[i]) return x[i] - y[i]; return 0; }
void* memchr(const void* s, int c, size_t n) { const unsigned char* p = (const unsigned char*)s; for (size_t i = 0; i < n; i++) if (p[i] == (unsigned char)c) return (void*)(p + i); return 0; }
// ---- ctype
static const unsigned short* vlibc_ct = vlibc_ctype + 128; static const int* vlibc_lo = vlibc_lower + 128; static const int* vlibc_up = vlibc_upper + 128;
const unsigned short** __ctype_b_loc(void) { return &vlibc_ct; } const int** __ctype_tolower_loc(void) { return &vlibc_lo; } const int** __ctype_toupper_loc(void) { return &vlibc_up; }
#define CT(n, m) int n(int c) { return c >= -128 && c < 256 ? vlibc_ctype[c + 128] & (m) : 0; }
CT(isupper, 1 << 8) CT(islower, 1 << 9) CT(isalpha, 1 << 10) CT(isdigit, 1 << 11) CT(isxdigit, 1 << 12) CT(isspace, 1 << 13) CT(isprint, 1 << 14) CT(isgraph, 1 << 15) CT(isblank, 1) CT(iscntrl, 2) CT(ispunct, 4) CT(isalnum, 8)
int isascii(int c) { return c >= 0 && c < 128; }
// ---- numbers
static unsigned long vlibc_num(const char* s, char** end, int base, int* neg, int* over) {
  const char* p = s; while (isspace((unsigned char)*p)) p++; *neg = 0; *over = 0; if (*p == '-') { *neg = 1; p++; } else if (*p == '+') p++;
  if ((base == 0 || base == 16) && p[0] && (p[1] == 'x' || p[1] == 'X') && p[0] == '0' && vlibc_digit[(unsigned char)p[2]] >= 0 && vlibc_digit[(unsigned char)p[2]] < 16) { p += 2; base = 16; }
  else if ((base == 0 || base == 2) && p[0] && (p[1] == 'b' || p[1] == 'B') && p[0] == '0' && vlibc_digit[(unsigned char)p[2]] >= 0 && vlibc_digit[(unsigned char)p[2]] < 2) { p += 2; base = 2; } // glibc 2.38 (C23)
  else if (base == 0) base = *p == '0' ? 8 : 10;
  unsigned long acc = 0; int any = 0, digits = 0; const char* start = p;
  while (1) { int d = vlibc_digit[(unsigned char)*p]; if (d < 0 || d >= base) break; any = 1; digits++;
    if (digits > 12) { unsigned long lim = ~0ul / base; if (acc > lim || acc * base > ~0ul - d) *over = 1; }
    acc = acc * base + d; p++; }
  (void)start; if (end) *end = (char*)(any ? p : s); return acc; }
long strtol(const char* s, char** end, int base) { int n, o; unsigned long v = vlibc_num(s, end, base, &n, &o); if (o || (v >> 63)) { vlibc_errno = 34; return n ? (long)(1ul << 63) : (long)((1ul << 63) - 1); } return n ? -(long)v : (long)v; }
unsigned long strtoul(const char* s, char** end, int base) { int n, o; unsigned long v = vlibc_num(s, end, base, &n, &o); if (o) { vlibc_errno = 34; return ~0ul; } return n ? -v : v; }
long long strtoll(const char* s, char** e, int b) { return strtol(s, e, b); } unsigned long long strtoull(const char* s, char** e, int b) { return strtoul(s, e, b); }
long __isoc23_strtol(const char* s, char** e, int b) { return strtol(s, e, b); } unsigned long __isoc23_strtoul(const char* s, char** e, int b) { return strtoul(s, e, b); } long long __isoc23_strtoll(const char* s, char** e, int b) { return strtol(s, e, b); } unsigned long long __isoc23_strtoull(const char* s, char** e, int b) { return strtoul(s, e, b); }
int atoi(const char* s) { return (int)strtol(s, 0, 10); } long atol(const char* s) { return strtol(s, 0, 10); }
int abs(int x) { return x < 0 ? -x : x; } long labs(long x) { return x < 0 ? -x : x; }
static unsigned vlibc_seed = 1; int rand(void) { vlibc_seed = vlibc_seed * 1103515245u + 12345u; return (vlibc_seed >> 16) & 0x7fff; } void srand(unsigned s) { vlibc_seed = s; }
long time(long* t) { if (t) *t = 0; return 0; } long clock(void) { return 0; }
char* getenv(const char* n) { (void)n; return 0; }
void qsort(void* b, size_t n, size_t w, int (*cmp)(const void*, const void*)) { char* p = (char*)b; char* t = (char*)malloc(w + 1); for (size_t i = 1; i < n; i++) { memcpy(t, p + i * w, w); size_t j = i; while (j > 0 && cmp(p + (j - 1) * w, t) > 0) { memcpy(p + j * w, p + (j - 1) * w, w); j--; } memcpy(p + j * w, t, w); } free(t); }
void* bsearch(const void* k, const void* b, size_t n, size_t w, int (*cmp)(const void*, const void*)) { const char* p = (const char*)b; size_t lo = 0, hi = n; while (lo < hi) { size_t m = (lo + hi) / 2; int c = cmp(k, p + m * w); if (c == 0) return (void*)(p + m * w); if (c < 0) hi = m; else lo = m + 1; } return 0; }
// ---- files
typedef struct { char name[64]; unsigned char* data; size_t size, cap; int used; } vfile;
typedef struct { int f; size_t pos; int eof, err, sink, rd, wr, app; int unget; } VF;
enum { NFILES = 40 };
static vfile vlibc_files[NFILES]; static VF vlibc_std[3] = {{-1, 0, 0, 0, 1, 1, 0, 0, -1}, {-1, 0, 0, 0, 1, 0, 1, 0, -1}, {-1, 0, 0, 0, 1, 0, 1, 0, -1}};
VF *stdin = &vlibc_std[0], *stdout = &vlibc_std[1], *stderr = &vlibc_std[2];
static int vlibc_find(const char* n) { for (int i = 0; i < NFILES; i++) if (vlibc_files[i].used && !strcmp(vlibc_files[i].name, n)) return i; return -1; }
static int vlibc_new(const char* n) { for (int i = 0; i < NFILES; i++) if (!vlibc_files[i].used) { vlibc_files[i].used = 1; size_t l = strlen(n); if (l > 63) l = 63; memcpy(vlibc_files[i].name, n, l); vlibc_files[i].name[l] = 0; vlibc_files[i].cap = 256; vlibc_files[i].data = (unsigned char*)malloc(256); vlibc_files[i].size = 0; return i; } return -1; }
static void vlibc_put(vfile* f, size_t pos, unsigned char c) { if (pos >= f->cap) { size_t nc = f->cap * 4; while (nc <= pos) nc *= 2; f->data = (unsigned char*)realloc(f->data, nc); f->cap = nc; } while (f->size < pos) f->data[f->size++] = 0; f->data[pos] = c; if (pos + 1 > f->size) f->size = pos + 1; }
void vp_file(const char* name, const void* data, size_t n) { int i = vlibc_find(name); if (i < 0) i = vlibc_new(name); vfile* f = &vlibc_files[i]; if (n > f->cap) { f->data = (unsigned char*)realloc(f->data, n); f->cap = n; } if (n) memcpy(f->data, data, n); f->size = n; }
long vp_file_size(const char* name) { int i = vlibc_find(name); return i < 0 ? -1 : (long)vlibc_files[i].size; }
const unsigned char* vp_file_data(const char* name) { int i = vlibc_find(name); return i < 0 ? 0 : vlibc_files[i].data; }
int vp_is_native(void) { return 0; }
void vp_capture_stderr(void) { vp_file("stderr", "", 0); vlibc_std[2].f = vlibc_find("stderr"); vlibc_std[2].sink = 0; vlibc_std[2].app = 1; }
void vp_capture_stdout(void) { vp_file("stdout", "", 0); vlibc_std[1].f = vlibc_find("stdout"); vlibc_std[1].sink = 0; vlibc_std[1].app = 1; }
void vp_remove(const char* n) { int i = vlibc_find(n); if (i >= 0) vlibc_files[i].used = 0; }
VF* fopen(const char* n, const char* m) { int w = 0, r = 0, a = 0; if (m[0] == 'r') { r = 1; if (strchr(m, '+')) w = 1; } else if (m[0] == 'w') { w = 1; if (strchr(m, '+')) r = 1; } else { w = 1; a = 1; if (strchr(m, '+')) r = 1; }
  if (!*n) return 0; for (const char* p = n; *p; p++) if (p[0] == '/' && m[0] != 'r') { /* directories exist only if some file lives there */ int ok = 0; size_t l = p - n + 1; for (int i = 0; i < NFILES; i++) if (vlibc_files[i].used && !strncmp(vlibc_files[i].name, n, l)) ok = 1; if (!ok) return 0; }
  int i = vlibc_find(n); if (i < 0) { if (m[0] == 'r') return 0; i = vlibc_new(n); if (i < 0) return 0; } else if (m[0] == 'w') vlibc_files[i].size = 0;
  VF* f = (VF*)malloc(sizeof(VF)); f->f = i; f->pos = 0; f->eof = f->err = f->sink = 0; f->rd = r; f->wr = w; f->app = a; f->unget = -1; if (a) f->pos = vlibc_files[i].size; return f; }
VF* freopen(const char* n, const char* m, VF* f) { (void)f; return fopen(n, m); }
int fclose(VF* f) { if (f->sink || f == stderr || f == stdout) return 0; free(f); return 0; }
int fflush(VF* f) { (void)f; return 0; }
int fileno(VF* f) { return f == stdin ? 0 : f == stdout ? 1 : f == stderr ? 2 : 3 + f->f; } int isatty(int fd) { (void)fd; return 0; }
int feof(VF* f) { return f->eof; } int ferror(VF* f) { return f->err; } void clearerr(VF* f) { f->eof = f->err = 0; }
int fgetc(VF* f) { if (f->unget >= 0) { int c = f->unget; f->unget = -1; return c; } if (f->sink || !f->rd || f->pos >= vlibc_files[f->f].size) { f->eof = 1; return -1; } return vlibc_files[f->f].data[f->pos++]; }
int getc(VF* f) { return fgetc(f); } int getchar(void) { return -1; } int ungetc(int c, VF* f) { f->unget = c; f->eof = 0; return c; }
char* fgets(char* s, int n, VF* f) { int i = 0; while (i < n - 1) { int c = fgetc(f); if (c < 0) break; s[i++] = (char)c; if (c == '\n') break; } if (!i) return 0; s[i] = 0; return s; }
size_t fread(void* p, size_t w, size_t n, VF* f) { size_t tot = w * n, i = 0; if (!tot || f->sink || !f->rd) { if (f->sink) f->eof = 1; return 0; } unsigned char* d = (unsigned char*)p; if (f->unget >= 0) { d[i++] = (unsigned char)f->unget; f->unget = -1; } size_t av = f->pos < vlibc_files[f->f].size ? vlibc_files[f->f].size - f->pos : 0; size_t k = tot - i; if (k > av) { k = av; f->eof = 1; } if (k) memcpy(d + i, vlibc_files[f->f].data + f->pos, k); f->pos += k; i += k; return i / w; }
int fputc(int c, VF* f) { if (f->sink) return (unsigned char)c; if (!f->wr) { f->err = 1; return -1; } if (f->app) f->pos = vlibc_files[f->f].size; vlibc_put(&vlibc_files[f->f], f->pos++, (unsigned char)c); return (unsigned char)c; }
int putc(int c, VF* f) { return fputc(c, f); } int putchar(int c) { return fputc(c, stdout); }
size_t fwrite(const void* p, size_t w, size_t n, VF* f) { const unsigned char* d = (const unsigned char*)p; if (!f->sink && !f->wr) { f->err = 1; return 0; } for (size_t i = 0; i < w * n; i++) { unsigned char c = d[i]; if (!f->sink) fputc(c, f); } return n; }
int fputs(const char* s, VF* f) { size_t n = strlen(s); if (!f->sink) fwrite(s, 1, n, f); return 1; } int puts(const char* s) { fputs(s, stdout); fputc(10, stdout); return 1; }
int fseek(VF* f, long o, int wh) { if (f->sink) return -1; f->unget = -1; f->eof = 0; long b = wh == 0 ? 0 : wh == 1 ? (long)f->pos : (long)vlibc_files[f->f].size; if (b + o < 0) return -1; f->pos = b + o; return 0; }
long ftell(VF* f) { return f->sink ? -1 : (long)f->pos - (f->unget >= 0); } void rewind(VF* f) { fseek(f, 0, 0); f->err = 0; }
int remove(const char* n) { int i = vlibc_find(n); if (i < 0) return -1; vlibc_files[i].used = 0; return 0; } int unlink(const char* n) { return remove(n); } int access(const char* n, int m) { (void)m; return vlibc_find(n) < 0 ? -1 : 0; }
void perror(const char* s) { (void)s; } char* strerror(int e) { (void)e; return (char*)"error"; }
// ---- directories: they exist where files live
static const char* vlibc_rel(const char* p) { while (p[0] == '/' || (p[0] == '.' && p[1] == '.' && p[2] == '/')) p += p[0] == '/' ? 1 : 3; return p; }
int vp_fs_kind(const char* p) { p = vlibc_rel(p); size_t l = strlen(p); if (l && p[l - 1] == '/') l--; if (!l) return 0; for (int i = 0; i < NFILES; i++) if (vlibc_files[i].used && !strncmp(vlibc_files[i].name, p, l)) { if (!vlibc_files[i].name[l]) { if (!p[l]) return 1; } else if (vlibc_files[i].name[l] == '/') return 2; } return 0; }
int vp_fs_entry(const char* d, int k, char* o) { d = vlibc_rel(d); size_t l = strlen(d); if (l && d[l - 1] == '/') l--; int n = 0; for (int i = 0; i < NFILES; i++) if (vlibc_files[i].used && !strncmp(vlibc_files[i].name, d, l) && vlibc_files[i].name[l] == '/') { const char* e = vlibc_files[i].name + l + 1; size_t m = strcspn(e, "/"); int dup = 0; for (int j = 0; j < i && !dup; j++) if (vlibc_files[j].used && !strncmp(vlibc_files[j].name, vlibc_files[i].name, l + 1 + m) && (vlibc_files[j].name[l + 1 + m] == '/' || !vlibc_files[j].name[l + 1 + m])) dup = 1; if (!dup && n++ == k) { memcpy(o, e, m); o[m] = 0; return 1; } } return 0; }
int vp_fs_remove(const char* p) { return unlink(vlibc_rel(p)) == 0; }
char* realpath(const char* p, char* r) { p = vlibc_rel(p); if (!vp_fs_kind(p)) { vlibc_errno = 2; return 0; } size_t l = strlen(p); if (p[l - 1] == '/') l--; if (!r) r = (char*)malloc(l + 2); r[0] = '/'; memcpy(r + 1, p, l); r[l + 1] = 0; return r; }
// ---- formatted output
typedef struct { VF* f; char* b; size_t n, cap; } Out;
static void oc(Out* o, int c) { if (o->f) fputc(c, o->f); else if (o->b && o->n + 1 < o->cap) o->b[o->n] = (char)c; o->n++; }
static int vlibc_format(Out* o, const char* fmt, va_list ap) {
  int sink = o->f && o->f->sink;
  for (const char* p = fmt; *p; p++) {
    if (*p != '%') { if (!sink) oc(o, *p); continue; }
    p++; int left = 0, zero = 0, plus = 0, alt = 0, space = 0; for (;; p++) { if (*p == '-') left = 1; else if (*p == '0') zero = 1; else if (*p == '+') plus = 1; else if (*p == '#') alt = 1; else if (*p == ' ') space = 1; else break; }
    int w = 0, prec = -1; if (*p == '*') { w = va_arg(ap, int); if (w < 0) { left = 1; w = -w; } p++; } else while (*p >= '0' && *p <= '9') w = w * 10 + *p++ - '0';
    if (*p == '.') { p++; prec = 0; if (*p == '*') { prec = va_arg(ap, int); p++; } else while (*p >= '0' && *p <= '9') prec = prec * 10 + *p++ - '0'; }
    int l = 0; while (*p == 'l' || *p == 'z' || *p == 'h' || *p == 'j' || *p == 't') { if (*p == 'l' || *p == 'z' || *p == 'j' || *p == 't') l++; p++; }
    switch (*p) {
      case '%': if (!sink) oc(o, '%'); break;
      case 'c': { int c = va_arg(ap, int); if (sink) break; int pad = w - 1; if (!left) while (pad-- > 0) oc(o, ' '); oc(o, c); if (left) while (pad-- > 0) oc(o, ' '); break; }
      case 's': { const char* s = va_arg(ap, const char*); if (!s) s = "(null)"; size_t n = prec >= 0 ? strnlen(s, prec) : strlen(s); if (sink) break; int pad = w - (int)n; if (!left) while (pad-- > 0) oc(o, ' '); for (size_t i = 0; i < n; i++) oc(o, s[i]); if (left) while (pad-- > 0) oc(o, ' '); break; }
      case 'p': { unsigned long v = (unsigned long)va_arg(ap, void*); if (sink) break; oc(o, '0'); oc(o, 'x'); (void)v; oc(o, '1'); break; }
      case 'd': case 'i': case 'u': case 'x': case 'X': case 'o': {
        unsigned long v; int neg = 0; int sg = *p == 'd' || *p == 'i';
        if (l) v = va_arg(ap, unsigned long); else if (sg) v = (unsigned long)(long)va_arg(ap, int); else v = va_arg(ap, unsigned int);
        if (sink) break;
        if (sg && (long)v < 0) { neg = 1; v = -v; }
        char buf[32]; int n = 0; unsigned base = (*p == 'x' || *p == 'X') ? 16 : *p == 'o' ? 8 : 10; const char* dg = *p == 'X' ? "0123456789ABCDEF" : "0123456789abcdef";
        // with zero padding (or precision) and a symbolic value that fits, the number of digits does not depend on the value
        int mind = prec >= 0 ? prec : (zero && !left) ? w - (neg || plus || space) : 1; if (mind > 20) mind = 20;
        if (base == 16) { do { buf[n++] = dg[v & 15]; v >>= 4; } while (n < mind || v); }
        else { if (v >> 32) { do { buf[n++] = dg[v % base]; v /= base; } while (n < mind || v); } else { unsigned u = (unsigned)v; if (u < 65536) { unsigned short us = (unsigned short)u; do { buf[n++] = dg[us % base]; us /= base; } while (n < mind || us); } else do { buf[n++] = dg[u % base]; u /= base; } while (n < mind || u); } }
        int pre = (neg || plus || space) + ((alt && base == 16) ? 2 : 0); int pad = w - n - pre; 
        if (!left) while (pad-- > 0) oc(o, ' ');
        if (neg) oc(o, '-'); else if (sg && plus) oc(o, '+'); else if (sg && space) oc(o, ' '); if (alt && base == 16) { oc(o, '0'); oc(o, *p); }
        for (int i = n; i-- > 0;) oc(o, buf[i]);
        if (left) while (pad-- > 0) oc(o, ' '); break; }
      case 'f': case 'g': case 'e': (void)va_arg(ap, double); if (!sink) oc(o, '?'); break;
      default: break;
    } }
  return (int)o->n; }
int vfprintf(VF* f, const char* m, va_list ap) { Out o = {f, 0, 0, 0}; return vlibc_format(&o, m, ap); }
int vsnprintf(char* b, size_t n, const char* m, va_list ap) { Out o = {0, b, 0, n}; int r = vlibc_format(&o, m, ap); if (b && n) b[(size_t)r < n ? (size_t)r : n - 1] = 0; return r; }
int vsprintf(char* b, const char* m, va_list ap) { return vsnprintf(b, 1u << 30, m, ap); }
int fprintf(VF* f, const char* m, ...) { va_list ap; va_start(ap, m); int r = vfprintf(f, m, ap); va_end(ap); return r; }
int printf(const char* m, ...) { va_list ap; va_start(ap, m); int r = vfprintf(stdout, m, ap); va_end(ap); return r; }
int sprintf(char* b, const char* m, ...) { va_list ap; va_start(ap, m); int r = vsprintf(b, m, ap); va_end(ap); return r; }
int snprintf(char* b, size_t n, const char* m, ...) { va_list ap; va_start(ap, m); int r = vsnprintf(b, n, m, ap); va_end(ap); return r; }
int vprintf(const char* m, va_list ap) { return vfprintf(stdout, m, ap); }
// ---- process
int vp_try(int (*fn)(int, char**), int argc, char** argv);   // engine: result of fn, or the status given to vp_throw
void vp_throw(int code) __attribute__((noreturn));
void vp_restore_globals(void);
void exit(int c) { vp_throw(c); } void _exit(int c) { vp_throw(c); }
int pasm_main(int argc, char** argv) __attribute__((weak));
int vp_pasm(int argc, char** argv) { vp_restore_globals(); int r = vp_try(pasm_main, argc, argv); return r & 255; }
int eol_main(int argc, char** argv) __attribute__((weak));
int vp_eol(int argc, char** argv) { vp_restore_globals(); int r = vp_try(eol_main, argc, argv); return r & 255; }
int vlibc_guard; int __cxa_guard_acquire(char* g) { return !*g; } void __cxa_guard_release(char* g) { *g = 1; }
int __cxa_pure_virtual(void) { vp_check(0, "pure virtual call"); return 0; }
