// Harness interface. In the symbolic build these are interpreted by the engine, in the native
// build (sym_native.cpp) they read recorded inputs and check concretely.
#pragma once
#include <cstddef>
#include <cstdint>
extern "C" {
void sym_bytes(void* p, size_t n, const char* name);
uint64_t sym_u(int bits, const char* name);
unsigned sym_choose(unsigned n, const char* name);
void sym_assume(bool c);
void sym_check(bool c, const char* msg);
void sym_fail(const char* msg);
void sym_cover(const char* label);
void sym_expect(const char* label);
void sym_obs(const char* name, const void* p, size_t n);
long sym_live(void);
int sym_thread_create(void (*fn)(void*), void* arg);
void sym_thread_join(int t);
void sym_yield(void);
bool sym_is_concrete(uint64_t v);
uint64_t sym_conc(uint64_t v);
int sym_digits(uint64_t v, char* buf);
int sym_undigits(const char* p, size_t n, uint64_t* v);   // engine only: text written by sym_digits
void sym_undef(void* p, size_t n);
void sym_log(const char* s, uint64_t v);
bool sym_engine(void);
double sym_fresh_double(void);
}
static inline int64_t sym_i64(const char* n) { return (int64_t)sym_u(64, n); }
static inline int32_t sym_i32(const char* n) { return (int32_t)sym_u(32, n); }
static inline double sym_f64(const char* n) { uint64_t u = sym_u(64, n); double d; __builtin_memcpy(&d, &u, 8); return d; }
#define SYM_OBS(x) sym_obs(#x, &(x), sizeof(x))
