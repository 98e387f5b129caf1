// Harness interface.  The same harness source is compiled to bitcode for the symbolic executor and natively for replay.
#pragma once
#include <stddef.h>
#include <stdint.h>
#ifdef __cplusplus
extern "C" {
#endif
// --- primitives (symbolic: engine; native: values from the replay file)
void vp_make_symbolic(void* p, size_t n, const char* name);
void vp_assume(long c);
void vp_check(long c, const char* msg);          // the property: solver decides whether c can be 0
// like vp_check; when c fails inside the region `known`, it is the recorded finding `kf` (known_findings.txt)
void vp_check_kf(long c, long known, const char* kf, const char* msg);
int  vp_choose(int n, const char* name);         // forks into n cases
void vp_reach(const char* tag);                  // vacuity witness
void vp_observe(const char* name, const void* p, size_t n); // compared between engine and native run
void vp_end_path(void) __attribute__((noreturn));
long vp_is_symbolic(long v);
long vp_concretize(long v);                      // forks on every feasible value
void vp_trace(const char* m, long v);
// --- files of the run
void vp_file(const char* name, const void* data, size_t n);      // create an input file
long vp_file_size(const char* name);                             // -1: absent
const unsigned char* vp_file_data(const char* name);
void vp_remove(const char* name);
// --- run the assembler; returns its exit status (0..255), or 1000+signal when it crashed, 2000 on time-out (native only)
int vp_pasm(int argc, char** argv);
int vp_is_native(void);
void vp_capture_stderr(void); // from now on error messages go to the file "stderr"
void vp_capture_stdout(void); // what the program prints goes to the file "stdout"
int vp_eol(int argc, char** argv);
#ifdef __cplusplus
}
#endif
