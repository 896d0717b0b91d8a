// Native replay: runs one harness on the concrete inputs of a counterexample, against the uninstrumented build.
// exit 0: property held; 10: assertion failed; 11: uncaught exception; 12: assumption not met (counterexample invalid)
#include "gs.h"
#include <cmath>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <exception>
#include <string>
#include <unistd.h>
#include <vector>
static std::vector<uint64_t> in;
static size_t pos = 0;
static bool realMode = false; // proven over exact reals: rounding near degenerate configurations is not a violation
static uint64_t nextIn(uint64_t d) { return pos < in.size() ? in[pos++] : (pos++, d); }
struct H { std::string n; void (*f)(); };
static std::vector<H>& hs() { static std::vector<H> v; return v; }
extern "C" {
void gs_register(const char* n, void (*f)()) { hs().push_back({n, f}); }
uint64_t gs_range(const char* name, uint64_t lo, uint64_t hi) { uint64_t v = nextIn(lo); if (v < lo || v > hi) { printf("REPLAY: %s=%llu outside [%llu,%llu]\n", name, (unsigned long long)v, (unsigned long long)lo, (unsigned long long)hi); fflush(0); _exit(12); } return v; }
uint64_t gs_u64(const char*) { return nextIn(0); }
uint32_t gs_u32(const char*) { return (uint32_t)nextIn(0); }
bool gs_bool(const char*) { return nextIn(0) & 1; }
double gs_double(const char*, double d) { uint64_t b; memcpy(&b, &d, 8); b = nextIn(b); memcpy(&d, &b, 8); return d; }
void gs_assume(bool c) { if (!c) { printf("REPLAY: assumption not met\n"); fflush(0); _exit(12); } }
void gs_assert(bool c, const char* m) { if (!c) { printf("REPLAY: assertion failed: %s\n", m); fflush(0); _exit(10); } }
uint64_t gs_fork(uint64_t x) { return x; }
uint64_t gs_choose(const char* n, uint64_t k) { return gs_range(n, 0, k - 1); }
bool gs_close(double a, double b, double tol) { if (realMode && tol < 1e-5) tol = 1e-5; double s = std::fmax(1.0, std::fmax(std::fabs(a), std::fabs(b))); return std::fabs(a - b) <= tol * s; }
void gs_cover(const char*) {}
int gs_is_symbolic_run() { return 0; }
void gs_missing() { printf("REPLAY: missing code\n"); fflush(0); _exit(13); }
int gs_tier() { const char* t = getenv("VERIF_TIER"); return t && !strcmp(t, "thorough"); }
void gs_stop() { fflush(0); _exit(0); }
void gs_mode_real() { realMode = true; }
void gs_config(const char*, uint64_t) {}
}
int main(int argc, char** argv) {
  if (argc < 3) { fprintf(stderr, "usage: replay HARNESS v0,v1,...\n"); return 2; }
  for (char* p = argv[2]; *p;) { in.push_back(strtoull(p, &p, 10)); if (*p == ',') p++; else if (*p) break; }
  for (auto& h : hs()) if (h.n == argv[1]) {
    try { h.f(); }
    catch (std::exception& e) { printf("REPLAY: uncaught exception: %s\n", e.what()); fflush(0); _exit(11); }
    catch (...) { printf("REPLAY: uncaught exception\n"); fflush(0); _exit(11); }
    printf("REPLAY: property held\n");
    fflush(0);
    _exit(0);
  }
  return 2;
}
