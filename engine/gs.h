// Harness interface. The same harness source is compiled twice: instrumented (symbolic exploration) and natively
// (replay of a counterexample against the uninstrumented code).
#pragma once
#include <cstddef>
#include <cstdint>
extern "C" {
uint64_t gs_range(const char* name, uint64_t lo, uint64_t hi); // symbolic integer in [lo,hi]
uint64_t gs_u64(const char* name);                             // unconstrained symbolic 64-bit word
uint32_t gs_u32(const char* name);
bool gs_bool(const char* name);
double gs_double(const char* name, double dflt);               // symbolic double (any bit pattern in FP mode)
void gs_assume(bool c);
void gs_assert(bool c, const char* msg);
uint64_t gs_fork(uint64_t x);                                  // case split: one path per feasible value
uint64_t gs_choose(const char* name, uint64_t n);              // symbolic in [0,n), case split
bool gs_close(double a, double b, double tol);
void gs_cover(const char* name);
int gs_is_symbolic_run();
int gs_tier();                                                 // 0 quick, 1 thorough
void gs_stop();
void gs_mode_real();
void gs_config(const char* key, uint64_t v);
void gs_register(const char* name, void (*fn)());
}
#define GS_HARNESS(n)                                                                                                  \
  static void gsh_##n();                                                                                               \
  namespace { struct GsReg_##n { GsReg_##n() { gs_register(#n, gsh_##n); } } gsreg_##n; }                              \
  static void gsh_##n()
