// Native side of vp.h: values come from a replay file, the assembler is the real program run in a scratch directory.
#define _GNU_SOURCE
#include "vp.h"
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <unistd.h>
#include <errno.h>
#include <signal.h>
#include <fcntl.h>
#include <time.h>
#include <sys/wait.h>
#include <sys/resource.h>
#include <sys/stat.h>
extern int vp_main(void);
typedef struct { char name[128]; int kind; long n; unsigned char* d; int seen; } Ent;
static Ent ents[2000]; static int nents; static const char* prog; static int fails, reached; static char cwd0[4096];
static int keep;
static Ent* look(const char* name, int kind) { // the k-th use of a name is "name#k"
  char b[160]; static struct { char n[128]; int kind, c; } cnt[512]; static int nc; int i; for (i = 0; i < nc; i++) if (cnt[i].kind == kind && !strcmp(cnt[i].n, name)) break; if (i == nc) { snprintf(cnt[nc].n, 128, "%s", name); cnt[nc].kind = kind; cnt[nc].c = 0; nc++; }
  int k = ++cnt[i].c; if (k == 1) snprintf(b, sizeof b, "%s", name); else snprintf(b, sizeof b, "%s#%d", name, k);
  for (i = 0; i < nents; i++) if (ents[i].kind == kind && !strcmp(ents[i].name, b)) return &ents[i]; return 0; }
void vp_make_symbolic(void* p, size_t n, const char* name) { memset(p, 0, n); Ent* e = look(name, 0); if (e) memcpy(p, e->d, n < (size_t)e->n ? n : (size_t)e->n); }
int vp_choose(int n, const char* name) { (void)n; Ent* e = look(name, 1); return e ? (int)e->n : 0; }
static void finish(int code) { if (cwd0[0]) { if (chdir("/")) {} } printf("END fails=%d reached=%d\n", fails, reached); fflush(stdout); exit(code); }
void vp_assume(long c) { if (!c) { printf("ASSUME-FAILED\n"); finish(77); } }
void vp_check(long c, const char* msg) { if (!c) { printf("FAIL %s\n", msg); fails++; } }
void vp_check_kf(long c, long known, const char* kf, const char* msg) { if (!c) { if (known) printf("KF %s\n", kf); else { printf("FAIL %s\n", msg); fails++; } } }
void vp_reach(const char* t) { (void)t; reached++; }
void vp_observe(const char* name, const void* p, size_t n) { printf("OBS %s ", name); for (size_t i = 0; i < n; i++) printf("%02x", ((const unsigned char*)p)[i]); printf("\n"); }
void vp_end_path(void) { finish(fails ? 1 : 0); }
long vp_is_symbolic(long v) { (void)v; return 0; } long vp_concretize(long v) { return v; }
void vp_trace(const char* m, long v) { fprintf(stderr, "TRACE %s %lx\n", m, v); }
int vp_is_native(void) { return 1; }
void vp_file(const char* name, const void* data, size_t n) { char b[512]; snprintf(b, sizeof b, "%s", name); for (char* p = b + 1; *p; p++) if (*p == '/') { *p = 0; mkdir(b, 0777); *p = '/'; } FILE* f = fopen(name, "wb"); if (!f) { perror(name); exit(3); } fwrite(data, 1, n, f); fclose(f); }
static unsigned char* slurp(const char* name, long* n) { FILE* f = fopen(name, "rb"); if (!f) return 0; fseek(f, 0, 2); *n = ftell(f); rewind(f); unsigned char* d = malloc(*n + 1); if (fread(d, 1, *n, f) != (size_t)*n) {} d[*n] = 0; fclose(f); return d; }
long vp_file_size(const char* name) { struct stat st; if (stat(name, &st) || !S_ISREG(st.st_mode)) return -1; return (long)st.st_size; }
const unsigned char* vp_file_data(const char* name) { long n; return slurp(name, &n); }
void vp_remove(const char* name) { unlink(name); }
static int capture; void vp_capture_stderr(void) { capture = 1; FILE* f = fopen("stderr", "wb"); if (f) fclose(f); }
static int capture1; void vp_capture_stdout(void) { capture1 = 1; FILE* f = fopen("stdout", "wb"); if (f) fclose(f); }
static int run_prog(const char* bin, int argc, char** argv) {
  char* av[200]; av[0] = (char*)bin; for (int i = 1; i < argc && i < 199; i++) av[i] = argv[i]; av[argc] = 0;
  fflush(stdout); pid_t p = fork(); if (p < 0) { perror("fork"); exit(3); }
  if (!p) { struct rlimit r = {20, 20}; setrlimit(RLIMIT_CPU, &r); r.rlim_cur = r.rlim_max = 64l << 20; setrlimit(RLIMIT_FSIZE, &r); r.rlim_cur = r.rlim_max = 0; setrlimit(RLIMIT_CORE, &r); int nul = open("/dev/null", O_RDWR); dup2(nul, 0); const char* lg = getenv("VP_LOG"); if (lg) { int o = open(lg, O_WRONLY | O_CREAT | O_APPEND, 0666); dup2(o, 1); dup2(o, 2); } else { dup2(nul, 1); dup2(nul, 2); } if (capture) { int o = open("stderr", O_WRONLY | O_CREAT | O_APPEND, 0666); dup2(o, 2); } if (capture1) { int o = open("stdout", O_WRONLY | O_CREAT | O_APPEND, 0666); dup2(o, 1); } setpgid(0, 0); execv(bin, av); _exit(127); }
  struct timespec t0, t; clock_gettime(CLOCK_MONOTONIC, &t0); int st; double lim = getenv("VP_TIMEOUT") ? atof(getenv("VP_TIMEOUT")) : 10; 
  for (useconds_t nap = 100;; nap = nap < 5000 ? nap * 2 : 5000) { pid_t w = waitpid(p, &st, WNOHANG); if (w == p) break; clock_gettime(CLOCK_MONOTONIC, &t); if ((t.tv_sec - t0.tv_sec) + (t.tv_nsec - t0.tv_nsec) * 1e-9 > lim) { kill(p, SIGKILL); waitpid(p, &st, 0); printf("TIMEOUT\n"); return 2000; } usleep(nap); }
  if (WIFSIGNALED(st)) { printf("CRASH signal %d\n", WTERMSIG(st)); return 1000 + WTERMSIG(st); }
  return WEXITSTATUS(st); }
int vp_pasm(int argc, char** argv) { int r = run_prog(prog, argc, argv); return r; }
int vp_eol(int argc, char** argv) { // the converter works on ../../CMakePasm/samples: run it two levels down in the scratch directory
  char here[4096]; if (!getcwd(here, sizeof here)) return 3; mkdir("b", 0777); mkdir("b/b", 0777); if (chdir("b/b")) return 3; int r = run_prog(getenv("VP_EOL"), argc, argv); if (chdir(here)) exit(3); return r; }
static void segv(int s) { printf("CRASH signal %d\n", s); fflush(stdout); _exit(1); }
int main(int argc, char** argv) { // replay-file program scratch-dir
  if (argc < 4) return 3; prog = argv[2];
  FILE* f = fopen(argv[1], "r"); if (!f) return 3; static char line[1 << 20];
  while (fgets(line, sizeof line, f)) { char* k = strtok(line, "\t\n"); char* n = strtok(0, "\t\n"); char* v = strtok(0, "\t\n"); if (!k || !n) continue; if (!v) v = ""; Ent* e = &ents[nents++]; snprintf(e->name, sizeof e->name, "%s", n); if (!strcmp(k, "choice")) { e->kind = 1; e->n = atol(v); } else { e->kind = 0; e->n = strlen(v) / 2; e->d = malloc(e->n + 1); for (long i = 0; i < e->n; i++) { unsigned x; sscanf(v + 2 * i, "%2x", &x); e->d[i] = x; } } }
  fclose(f); if (!getcwd(cwd0, sizeof cwd0)) return 3; if (chdir(argv[3])) { perror(argv[3]); return 3; }
  signal(SIGSEGV, segv); signal(SIGABRT, segv); signal(SIGBUS, segv); signal(SIGFPE, segv); alarm(120);
  vp_main(); finish(fails ? 1 : 0); }
