// Harness interface of the symbolic executor.  The same harness source is
// compiled to LLVM bitcode (interpreted by qsym.cpp, where these functions are
// intrinsics) and natively (qsym_native.cpp reads the inputs from a file).
#pragma once
#include <cstdint>
extern "C" {
int sym_int(const char *name, int lo, int hi);        // any value in [lo,hi]
int16_t sym_i16(const char *name);                    // any 16 bit value
uint16_t sym_u16(const char *name);
int64_t sym_i64(const char *name);
double sym_real(const char *name);                    // any real number
int sym_choose(const char *name, int n);              // forks: 0..n-1
int64_t sym_concretize(int64_t v);                    // forks over the values
void sym_assume(bool c);
void sym_check(bool c, const char *id);
void sym_same(double a, double b, const char *id);    // a == b for all values
void sym_cover(const char *id);
void sym_observe(const char *id, int64_t v);          // compared with the native replay
bool sym_is_symbolic(double v);
void sym_fail(const char *id);
void sym_assume_real(bool c);
bool sym_native();                                    // false under the symbolic executor
}
