// Runtime of the concolic executor: hash-consed symbolic expressions, byte-granular shadow memory, a checked heap,
// path exploration (generational search, one forked process per path) and the SMT back end (Z3 C API).
#include "gs_ops.h"
#include <z3.h>
#include <algorithm>
#include <bitset>
#include <cerrno>
#include <cmath>
#include <csetjmp>
#include <csignal>
#include <cstdarg>
#include <cstdint>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <cxxabi.h>
#include <deque>
#include <exception>
#include <fcntl.h>
#include <map>
#include <poll.h>
#include <set>
#include <string>
#include <sys/mman.h>
#include <sys/resource.h>
#include <sys/time.h>
#include <sys/wait.h>
#include <typeinfo>
#include <unistd.h>
#include <unordered_map>
#include <vector>

typedef uint64_t u64;
typedef std::bitset<256> Bits;

// ------------------------------------------------------------------ configuration
static bool g_real = false;            // floating point as exact reals (idealisation) instead of IEEE-754
static unsigned g_iteLimit = 64;       // symbolic addresses: at most this many cells are modelled by ITE
static unsigned g_concLimit = 4096;    // concretisation by forking: at most this many values
static unsigned g_qTimeout = 4000;     // ms, first attempt
static double g_sliceBudget = 20;      // s per worker, real mode: one-variable model search
static unsigned g_qTimeout2 = 15000;   // ms, second attempt (other tactic)
static unsigned g_pathSeconds = 30;    // wall clock limit of one path
static bool g_inRun = false;
static bool g_hashSplit = true;        // split on the value of a wide dividend of a remainder (hash bucket)

struct Input { std::string name; unsigned ty; u64 lo, hi; };

// ------------------------------------------------------------------ expressions
struct Expr {
  unsigned op, ty; // ty: int width or FP code
  Expr *a, *b, *c;
  u64 k;           // constant / variable id / extract low bit
  u64 val;         // concrete value on this path
  u64 ub;          // every value is <= ub (integers)
  Bits vars;
  Z3_ast z;
  u64 evEpoch, evVal;
  u64 hash;
  const char* name;
  bool unsup; // not expressible in the current theory
};

static inline unsigned W(unsigned ty) { return ty & 0xff; }
static inline bool isFP(unsigned ty) { return ty & GS_FPFLAG; }
static inline u64 maskw(unsigned w) { return w >= 64 ? ~0ull : ((1ull << w) - 1); }
static inline double asD(u64 v) { double d; memcpy(&d, &v, 8); return d; }
static inline u64 fromD(double d) { u64 v; memcpy(&v, &d, 8); return v; }
static inline float asF(u64 v) { uint32_t x = (uint32_t)v; float d; memcpy(&d, &x, 4); return d; }
static inline u64 fromF(float d) { uint32_t v; memcpy(&v, &d, 4); return v; }
static inline int64_t sx(u64 v, unsigned w) { return w >= 64 ? (int64_t)v : (int64_t)(v << (64 - w)) >> (64 - w); }

struct EHash { size_t operator()(const Expr* e) const { return e->hash; } };
struct EEq {
  bool operator()(const Expr* x, const Expr* y) const {
    return x->op == y->op && x->ty == y->ty && x->a == y->a && x->b == y->b && x->c == y->c && x->k == y->k && x->name == y->name;
  }
};
struct ExprTable {
  std::vector<Expr*> t; size_t n = 0;
  ExprTable() : t(1 << 14, nullptr) {}
  Expr** find(const Expr* e) {
    size_t m = t.size() - 1, i = e->hash & m;
    while (t[i] && !(t[i]->hash == e->hash && EEq()(t[i], e))) i = (i + 1) & m;
    return &t[i];
  }
  void grow() {
    std::vector<Expr*> o; o.swap(t); t.assign(o.size() * 2, nullptr);
    for (Expr* e : o) if (e) *find(e) = e;
  }
};
static ExprTable* g_tab;
static std::vector<Expr*> g_chunks; static size_t g_chunkPos = 0; static const size_t CH = 4096;
static Expr* rawAlloc() {
  if (g_chunks.empty() || g_chunkPos == CH) { g_chunks.push_back((Expr*)malloc(sizeof(Expr) * CH)); g_chunkPos = 0; }
  return &g_chunks.back()[g_chunkPos++];
}
static std::vector<u64>* g_inputs;     // values by variable id
static std::vector<Input>* g_inputInfo;
static std::vector<Expr*>* g_vars;
static Z3_context g_ctx;

static u64 evalOp(unsigned op, unsigned ty, u64 k, Expr* A, Expr* B, u64 a, u64 b, u64 c) {
  unsigned w = W(ty), m = 0; (void)m;
  u64 mk = maskw(w);
  unsigned wa = A ? W(A->ty) : w;
  switch (op) {
  case GS_CONST: return k;
  case GS_ADD: return (a + b) & mk;
  case GS_SUB: return (a - b) & mk;
  case GS_MUL: return (a * b) & mk;
  case GS_UDIV: return b ? a / b : mk;
  case GS_UREM: return b ? a % b : a;
  case GS_SDIV: { int64_t x = sx(a, w), y = sx(b, w); if (!y) return x >= 0 ? mk : 1; if (y == -1) return (u64)(-(u64)x) & mk; return (u64)(x / y) & mk; }
  case GS_SREM: { int64_t x = sx(a, w), y = sx(b, w); if (!y) return a; if (y == -1) return 0; return (u64)(x % y) & mk; }
  case GS_SHL: return b >= w ? 0 : (a << b) & mk;
  case GS_LSHR: return b >= w ? 0 : (a >> b);
  case GS_ASHR: return (u64)(sx(a, w) >> (b >= w ? (w > 63 ? 63 : w - 1) : b)) & mk;
  case GS_AND: return a & b;
  case GS_OR: return a | b;
  case GS_XOR: return a ^ b;
  case GS_EQ: return a == b;
  case GS_ULT: return a < b;
  case GS_ULE: return a <= b;
  case GS_SLT: return sx(a, wa) < sx(b, wa);
  case GS_SLE: return sx(a, wa) <= sx(b, wa);
  case GS_ZEXT: return a;
  case GS_SEXT: return (u64)sx(a, wa) & mk;
  case GS_EXTRACT: return (a >> k) & mk;
  case GS_CONCAT: return ((a << W(B->ty)) | b) & mk;
  case GS_NOT: return !a;
  case GS_ITE: return a ? b : c;
  case GS_UMULO: { unsigned __int128 p = (unsigned __int128)a * b; return (p >> wa) != 0; }
  case GS_SMULO: { __int128 p = (__int128)sx(a, wa) * sx(b, wa); return p != (__int128)sx((u64)p & maskw(wa), wa); }
  case GS_CTPOP: return __builtin_popcountll(a);
  case GS_BSWAP: { u64 r = 0; for (unsigned i = 0; i < w; i += 8) r |= ((a >> i) & 0xff) << (w - 8 - i); return r; }
  case GS_FP2BV: case GS_BV2FP: return a;
  default: break;
  }
  // floating point
  unsigned t = (op == GS_FEQ || op == GS_FLT || op == GS_FLE || op == GS_FISNAN) ? A->ty : ty;
  if (t == (GS_FPFLAG | 64) || op == GS_FPTOSI || op == GS_FPTOUI || op == GS_FPTRUNC) {
    double x = asD(a), y = asD(b);
    if ((op == GS_FPTOSI || op == GS_FPTOUI) && W(A->ty) == 32) x = asF(a);
    switch (op) {
    case GS_FADD: return fromD(x + y);
    case GS_FSUB: return fromD(x - y);
    case GS_FMUL: return fromD(x * y);
    case GS_FDIV: return fromD(x / y);
    case GS_FREM: return fromD(std::fmod(x, y));
    case GS_FNEG: return a ^ (1ull << 63);
    case GS_FABS: return a & ~(1ull << 63);
    case GS_FSQRT: return fromD(std::sqrt(x));
    case GS_FMIN: return fromD(std::fmin(x, y));
    case GS_FMAX: return fromD(std::fmax(x, y));
    case GS_FEQ: return x == y;
    case GS_FLT: return x < y;
    case GS_FLE: return x <= y;
    case GS_FISNAN: return std::isnan(x);
    case GS_SITOFP: return fromD((double)sx(a, wa));
    case GS_UITOFP: return fromD((double)a);
    case GS_FPEXT: return fromD((double)asF(a));
    case GS_FPTRUNC: return fromF((float)x);
    case GS_FPTOSI: return (u64)(int64_t)x & mk;
    case GS_FPTOUI: return (u64)x & mk;
    case GS_FFLOOR: return fromD(std::floor(x));
    case GS_FCEIL: return fromD(std::ceil(x));
    case GS_FTRUNC: return fromD(std::trunc(x));
    case GS_FRINT: return fromD(std::nearbyint(x));
    case GS_FROUND: return fromD(std::round(x));
    default: return 0;
    }
  } else {
    float x = asF(a), y = asF(b);
    switch (op) {
    case GS_FADD: return fromF(x + y);
    case GS_FSUB: return fromF(x - y);
    case GS_FMUL: return fromF(x * y);
    case GS_FDIV: return fromF(x / y);
    case GS_FREM: return fromF(std::fmod(x, y));
    case GS_FNEG: return a ^ (1u << 31);
    case GS_FABS: return a & ~(1ull << 31);
    case GS_FSQRT: return fromF(std::sqrt(x));
    case GS_FMIN: return fromF(std::fmin(x, y));
    case GS_FMAX: return fromF(std::fmax(x, y));
    case GS_FEQ: return x == y;
    case GS_FLT: return x < y;
    case GS_FLE: return x <= y;
    case GS_FISNAN: return std::isnan(x);
    case GS_SITOFP: return fromF((float)sx(a, wa));
    case GS_UITOFP: return fromF((float)a);
    case GS_FFLOOR: return fromF(std::floor(x));
    case GS_FCEIL: return fromF(std::ceil(x));
    case GS_FTRUNC: return fromF(std::trunc(x));
    default: return 0;
    }
  }
}

static u64 g_evEpoch = 1;
static bool opUnsupReal(unsigned op, Expr* a) {
  switch (op) {
  case GS_FP2BV: case GS_BV2FP: case GS_FPTOSI: case GS_FPTOUI: case GS_FREM: case GS_FTRUNC:
  case GS_FRINT: case GS_FROUND: case GS_FISNAN: return true;
  default: return false;
  }
}
static u64 ubOf(Expr* e) {
  u64 m = maskw(W(e->ty)), A = e->a ? e->a->ub : 0, B = e->b ? e->b->ub : 0;
  switch (e->op) {
  case GS_CONST: return e->k & m;
  case GS_ADD: { u64 r = A + B; return r < A || r > m ? m : r; }
  case GS_MUL: { unsigned __int128 p = (unsigned __int128)A * B; return p > m ? m : (u64)p; }
  case GS_UDIV: return e->b->op == GS_CONST && e->b->k ? A / e->b->k : m;
  case GS_UREM: return e->b->op == GS_CONST && e->b->k ? std::min(A, e->b->k - 1) : A;
  case GS_SHL: { if (e->b->op != GS_CONST || e->b->k >= 64) return m; unsigned __int128 p = (unsigned __int128)A << e->b->k; return p > m ? m : (u64)p; }
  case GS_LSHR: return e->b->op == GS_CONST && e->b->k < 64 ? A >> e->b->k : A;
  case GS_AND: return std::min(A, B);
  case GS_OR: case GS_XOR: { u64 x = A | B; return x ? (maskw(64 - __builtin_clzll(x)) & m) : 0; }
  case GS_ZEXT: return A;
  case GS_EXTRACT: { if (isFP(e->a->ty)) return m; u64 x = e->k < 64 ? A >> e->k : 0; return std::min(x, m); }
  case GS_CONCAT: { unsigned lw = W(e->b->ty); u64 r = (A << lw) | maskw(lw); return A == 0 ? B : std::min(r, m); }
  case GS_ITE: return isFP(e->ty) ? ~0ull : std::max(B, e->c->ub);
  default: return isFP(e->ty) ? ~0ull : m;
  }
}
static Expr* intern(unsigned op, unsigned ty, Expr* a, Expr* b, Expr* c, u64 k, const char* name = nullptr, u64 forceVal = 0, bool useForce = false) {
  Expr tmp;
  tmp.op = op; tmp.ty = ty; tmp.a = a; tmp.b = b; tmp.c = c; tmp.k = k; tmp.name = name;
  u64 h = op * 0x9E3779B97F4A7C15ull + ty;
  auto mix = [&](u64 x) { h ^= x + 0x9E3779B97F4A7C15ull + (h << 6) + (h >> 2); h *= 0xff51afd7ed558ccdull; h ^= h >> 29; };
  mix(a ? a->hash : 1); mix(b ? b->hash : 2); mix(c ? c->hash : 3); mix(k); if (name) mix((u64)name);
  tmp.hash = h;
  Expr** slot = g_tab->find(&tmp);
  if (*slot) return *slot;
  Expr* e = rawAlloc();
  new (&e->vars) Bits();
  e->op = op; e->ty = ty; e->a = a; e->b = b; e->c = c; e->k = k; e->name = name; e->hash = h; e->z = nullptr; e->evEpoch = 0;
  e->unsup = false;
  if (a) { e->vars |= a->vars; e->unsup |= a->unsup; }
  if (b) { e->vars |= b->vars; e->unsup |= b->unsup; }
  if (c) { e->vars |= c->vars; e->unsup |= c->unsup; }
  if (op == GS_VAR) e->vars.set(k & 255);
  if (g_real && opUnsupReal(op, a)) e->unsup = true;
  if (g_real && op == GS_CONST && isFP(ty)) { double d = W(ty) == 64 ? asD(k) : asF(k); if (!std::isfinite(d)) e->unsup = true; }
  if (!g_real && op == GS_UF) e->unsup = true;
  e->val = useForce ? forceVal : evalOp(op, ty, k, a, b, a ? a->val : 0, b ? b->val : 0, c ? c->val : 0);
  e->ub = ubOf(e);
  *slot = e;
  if (++g_tab->n * 2 > g_tab->t.size()) g_tab->grow();
  return e;
}
static inline Expr* cst(unsigned ty, u64 v) { return intern(GS_CONST, ty, 0, 0, 0, v & (isFP(ty) ? maskw(W(ty)) : maskw(ty))); }
static inline bool isC(Expr* e) { return e->op == GS_CONST; }
static inline bool isCv(Expr* e, u64 v) { return e->op == GS_CONST && e->k == v; }

static unsigned bitsOf(u64 ub) { return ub ? 64 - __builtin_clzll(ub) : 1; }
static unsigned roundW(unsigned n) { return n <= 2 ? 2 : n <= 4 ? 4 : n <= 8 ? 8 : n <= 16 ? 16 : n <= 32 ? 32 : 64; }
static Expr* mkNot(Expr* a);
static Expr* mkIte(Expr* c, Expr* a, Expr* b);
static Expr* mkExtract(Expr* a, unsigned lo, unsigned w);
static Expr* mkZext(Expr* a, unsigned w);

// e (whose values all fit in n bits) as an n-bit expression
static Expr* narrowTo(Expr* e, unsigned n) {
  unsigned w = W(e->ty);
  if (w == n) return e;
  if (w < n) return mkZext(e, n);
  if (isC(e)) return cst(n, e->k);
  if (e->op == GS_ZEXT) { unsigned iw = W(e->a->ty); return iw == n ? e->a : iw < n ? mkZext(e->a, n) : mkExtract(e->a, 0, n); }
  return mkExtract(e, 0, n);
}
static bool g_noNarrow = false;
// does e have a compact set of constant leaves under ITEs?
static bool iteConst(Expr* e, int depth) {
  if (isC(e)) return true;
  if (e->op == GS_ITE && depth > 0) return iteConst(e->b, depth - 1) && iteConst(e->c, depth - 1);
  return false;
}
static Expr* mkEq(Expr* a, Expr* b) {
  if (a == b && !isFP(a->ty)) return cst(1, 1);
  if (isC(a) && isC(b)) return cst(1, a->k == b->k);
  if (isC(a)) std::swap(a, b);
  if (a->ty == 1) {
    if (isC(b)) return b->k ? a : mkNot(a);
  }
  if (isC(b)) {
    u64 k = b->k;
    switch (a->op) {
    case GS_ADD: if (isC(a->b)) return mkEq(a->a, cst(a->ty, k - a->b->k)); break;
    case GS_SUB:
      if (isC(a->b)) return mkEq(a->a, cst(a->ty, k + a->b->k));
      if (isC(a->a)) return mkEq(a->b, cst(a->ty, a->a->k - k));
      if (k == 0) return mkEq(a->a, a->b);
      break;
    case GS_XOR: if (isC(a->b)) return mkEq(a->a, cst(a->ty, k ^ a->b->k)); if (k == 0) return mkEq(a->a, a->b); break;
    case GS_ZEXT: if (k > maskw(W(a->a->ty))) return cst(1, 0); return mkEq(a->a, cst(a->a->ty, k));
    case GS_ITE: {
      if (isC(a->b) && isC(a->c)) {
        bool p = a->b->k == k, q = a->c->k == k;
        if (p && q) return cst(1, 1);
        if (p) return a->a;
        if (q) return mkNot(a->a);
        return cst(1, 0);
      }
      if (isC(a->b) && a->b->k != k) {
        Expr* r = mkEq(a->c, b);
        if (isC(r) && !r->k) return r;
        return intern(GS_AND, 1, mkNot(a->a), r, 0, 0);
      }
      if (isC(a->c) && a->c->k != k) {
        Expr* r = mkEq(a->b, b);
        if (isC(r) && !r->k) return r;
        return intern(GS_AND, 1, a->a, r, 0, 0);
      }
      break;
    }
    case GS_MUL: // odd/pow2 multiples with zext operands: x*c == k  (only when no wrap is possible)
      if (isC(a->b) && a->b->k && a->a->op == GS_ZEXT && W(a->a->a->ty) + (64 - __builtin_clzll(a->b->k)) <= W(a->ty)) {
        if (k % a->b->k) return cst(1, 0);
        return mkEq(a->a, cst(a->ty, k / a->b->k));
      }
      break;
    case GS_SHL:
      if (isC(a->b) && a->a->op == GS_ZEXT && W(a->a->a->ty) + a->b->k <= W(a->ty)) {
        if (k & maskw(a->b->k)) return cst(1, 0);
        return mkEq(a->a, cst(a->ty, k >> a->b->k));
      }
      break;
    default: break;
    }
  } else {
    if (a->op == GS_ADD && isC(a->b) && b->op == GS_ADD && isC(b->b) && a->b->k == b->b->k) return mkEq(a->a, b->a);
    if (a->op == GS_ZEXT && b->op == GS_ZEXT) { unsigned n = std::max(W(a->a->ty), W(b->a->ty)); return mkEq(narrowTo(a, n), narrowTo(b, n)); }
    if (a->op == b->op && (a->op == GS_SHL || a->op == GS_MUL) && a->b == b->b && isC(a->b)) {
      // no-wrap case only
      unsigned sh = a->op == GS_SHL ? a->b->k : 64 - __builtin_clzll(a->b->k | 1);
      if (a->b->k && a->a->op == GS_ZEXT && b->a->op == GS_ZEXT && W(a->a->a->ty) + sh <= W(a->ty) && W(b->a->a->ty) + sh <= W(a->ty))
        return mkEq(a->a, b->a);
    }
  }
  if (!isC(b) && a->hash > b->hash) std::swap(a, b);
  return intern(GS_EQ, 1, a, b, 0, 0);
}
static Expr* mkNot(Expr* a) {
  if (isC(a)) return cst(1, !a->k);
  if (a->op == GS_NOT) return a->a;
  if (a->op == GS_ULT) return intern(GS_ULE, 1, a->b, a->a, 0, 0);
  if (a->op == GS_ULE) return intern(GS_ULT, 1, a->b, a->a, 0, 0);
  if (a->op == GS_SLT) return intern(GS_SLE, 1, a->b, a->a, 0, 0);
  if (a->op == GS_SLE) return intern(GS_SLT, 1, a->b, a->a, 0, 0);
  return intern(GS_NOT, 1, a, 0, 0, 0);
}
static Expr* mkIte(Expr* c, Expr* a, Expr* b) {
  if (isC(c)) return c->k ? a : b;
  if (a == b) return a;
  if (a->ty == 1) {
    if (isC(a) && isC(b)) return a->k ? c : mkNot(c);
    if (isC(a)) return a->k ? intern(GS_OR, 1, c, b, 0, 0) : intern(GS_AND, 1, mkNot(c), b, 0, 0);
    if (isC(b)) return b->k ? intern(GS_OR, 1, mkNot(c), a, 0, 0) : intern(GS_AND, 1, c, a, 0, 0);
  }
  if (c->op == GS_NOT) return mkIte(c->a, b, a);
  if (!isFP(a->ty) && a->ty > 8) {
    unsigned n = roundW(bitsOf(std::max(a->ub, b->ub)));
    if (n * 2 <= W(a->ty)) return intern(GS_ZEXT, a->ty, mkIte(c, narrowTo(a, n), narrowTo(b, n)), 0, 0, 0);
  }
  return intern(GS_ITE, a->ty, c, a, b, 0);
}
static Expr* mkZext(Expr* a, unsigned w) {
  if (W(a->ty) == w) return a;
  if (isC(a)) return cst(w, a->k);
  if (a->op == GS_ZEXT) return intern(GS_ZEXT, w, a->a, 0, 0, 0);
  if (a->ty == 1) return intern(GS_ITE, w, a, cst(w, 1), cst(w, 0), 0);
  if (a->op == GS_ITE && iteConst(a, 3)) return mkIte(a->a, mkZext(a->b, w), mkZext(a->c, w));
  return intern(GS_ZEXT, w, a, 0, 0, 0);
}
static Expr* mkSext(Expr* a, unsigned w) {
  if (W(a->ty) == w) return a;
  if (isC(a)) return cst(w, (u64)sx(a->k, W(a->ty)));
  if (a->op == GS_ZEXT) return intern(GS_ZEXT, w, a->a, 0, 0, 0);
  if (a->ty == 1) return intern(GS_ITE, w, a, cst(w, ~0ull), cst(w, 0), 0);
  return intern(GS_SEXT, w, a, 0, 0, 0);
}
static Expr* mkExtract(Expr* a, unsigned lo, unsigned w) {
  if (lo == 0 && W(a->ty) == w && !isFP(a->ty)) return a;
  if (isFP(a->ty)) a = intern(GS_FP2BV, W(a->ty), a, 0, 0, 0), (void)0;
  if (lo == 0 && W(a->ty) == w) return a;
  if (isC(a)) return cst(w, a->k >> lo);
  switch (a->op) {
  case GS_EXTRACT: return mkExtract(a->a, a->k + lo, w);
  case GS_ZEXT:
    if (lo + w <= W(a->a->ty)) return mkExtract(a->a, lo, w);
    if (lo >= W(a->a->ty)) return cst(w, 0);
    if (lo == 0) return mkZext(a->a, w);
    break;
  case GS_SEXT:
    if (lo + w <= W(a->a->ty)) return mkExtract(a->a, lo, w);
    if (lo == 0) return mkSext(a->a, w);
    break;
  case GS_CONCAT: {
    unsigned lw = W(a->b->ty);
    if (lo + w <= lw) return mkExtract(a->b, lo, w);
    if (lo >= lw) return mkExtract(a->a, lo - lw, w);
    break;
  }
  case GS_ITE:
    if (w == 1 && isC(a->b) && isC(a->c)) return mkIte(a->a, mkExtract(a->b, lo, w), mkExtract(a->c, lo, w));
    if (iteConst(a, 6)) return mkIte(a->a, mkExtract(a->b, lo, w), mkExtract(a->c, lo, w));
    break;
  case GS_AND: case GS_OR: case GS_XOR:
    if (isC(a->b)) {
      Expr* x = mkExtract(a->a, lo, w); Expr* y = mkExtract(a->b, lo, w);
      if (a->op == GS_AND) { if (isCv(y, 0)) return y; if (isCv(y, maskw(w))) return x; }
      else if (isCv(y, 0)) return x;
      return intern(a->op, w, x, y, 0, 0);
    }
    break;
  default: break;
  }
  return intern(GS_EXTRACT, w, a, 0, 0, lo);
}
static Expr* mkConcat(Expr* hi, Expr* lo) {
  unsigned w = W(hi->ty) + W(lo->ty);
  if (isC(hi) && isC(lo)) return cst(w, (hi->k << W(lo->ty)) | lo->k);
  if (isC(hi) && hi->k == 0) return mkZext(lo, w);
  if (hi->op == GS_EXTRACT && lo->op == GS_EXTRACT && hi->a == lo->a && hi->k == lo->k + W(lo->ty)) return mkExtract(hi->a, lo->k, w);
  return intern(GS_CONCAT, w, hi, lo, 0, 0);
}
static Expr* mkBin(unsigned op, unsigned ty, Expr* a, Expr* b) {
  unsigned w = W(ty);
  if (isC(a) && isC(b)) return cst(ty, evalOp(op, ty, 0, a, b, a->k, b->k, 0));
  // arithmetic on provably small values is done in a narrow width
  if (!isFP(ty) && w >= 16) {
    Expr t; t.op = op; t.ty = ty; t.a = a; t.b = b; t.c = nullptr; t.k = 0;
    bool okop = op == GS_ADD || op == GS_MUL || op == GS_UDIV || op == GS_UREM || op == GS_AND || op == GS_OR || op == GS_XOR ||
                (op == GS_LSHR && isC(b)) || (op == GS_SHL && isC(b));
    if (op == GS_UDIV && isC(b) && !b->k) okop = false;
    if (op == GS_UREM && isC(b) && !b->k) okop = false;
    if ((op == GS_UDIV || op == GS_UREM) && !isC(b)) okop = false;
    if (op == GS_UREM && isC(b) && b->k > a->ub) return a;
    if (op == GS_UDIV && isC(b) && b->k > a->ub) return cst(ty, 0);
    if (op == GS_ADD && !(isC(b) ? false : isC(a)) && isC(b) && b->k > (1ull << 40)) okop = false; // pointers, negative offsets
    if (okop) {
      u64 r = ubOf(&t);
      u64 need = op == GS_AND ? (isC(b) ? (isC(a) ? r : std::max(a->ub, b->ub & maskw(bitsOf(a->ub)))) : std::max(a->ub, b->ub)) : std::max(r, std::max(a->ub, (op == GS_LSHR || op == GS_SHL) ? (isC(b) ? b->k : ~(u64)0) : b->ub));
      unsigned n = roundW(bitsOf(need));
      if (n < 4) n = 4;
      if (n * 2 <= w) {
        Expr *x = narrowTo(a, n), *y = op == GS_AND && isC(b) ? cst(n, b->k) : narrowTo(b, n);
        return mkZext(mkBin(op, n, x, y), w);
      }
    }
  }
  bool comm = op == GS_ADD || op == GS_MUL || op == GS_AND || op == GS_OR || op == GS_XOR;
  if (comm && isC(a)) std::swap(a, b);
  switch (op) {
  case GS_ADD:
    if (isCv(b, 0)) return a;
    if (isC(b) && a->op == GS_ADD && isC(a->b)) return mkBin(GS_ADD, ty, a->a, cst(ty, a->b->k + b->k));
    if (isC(b) && a->op == GS_ITE && iteConst(a, 6)) return mkIte(a->a, mkBin(op, ty, a->b, b), mkBin(op, ty, a->c, b));
    if (ty == 1) return mkBin(GS_XOR, 1, a, b);
    break;
  case GS_SUB:
    if (isCv(b, 0)) return a;
    if (a == b) return cst(ty, 0);
    if (ty == 1) return mkBin(GS_XOR, 1, a, b);
    if (isC(b)) return mkBin(GS_ADD, ty, a, cst(ty, (u64)0 - b->k));
    if (a->op == GS_ADD && isC(a->b)) {
      if (b->op == GS_ADD && isC(b->b)) return mkBin(GS_ADD, ty, mkBin(GS_SUB, ty, a->a, b->a), cst(ty, a->b->k - b->b->k));
      return mkBin(GS_ADD, ty, mkBin(GS_SUB, ty, a->a, b), a->b);
    }
    if (isC(a) && b->op == GS_ADD && isC(b->b)) return mkBin(GS_SUB, ty, cst(ty, a->k - b->b->k), b->a);
    break;
  case GS_MUL:
    if (isCv(b, 0)) return b;
    if (isCv(b, 1)) return a;
    if (isC(b) && (b->k & (b->k - 1)) == 0) return mkBin(GS_SHL, ty, a, cst(ty, __builtin_ctzll(b->k)));
    if (isC(b) && a->op == GS_ITE && iteConst(a, 6)) return mkIte(a->a, mkBin(op, ty, a->b, b), mkBin(op, ty, a->c, b));
    break;
  case GS_UDIV:
    if (isCv(b, 1)) return a;
    if (isC(b) && b->k && (b->k & (b->k - 1)) == 0) return mkBin(GS_LSHR, ty, a, cst(ty, __builtin_ctzll(b->k)));
    break;
  case GS_UREM:
    if (isC(b) && b->k && (b->k & (b->k - 1)) == 0) return mkBin(GS_AND, ty, a, cst(ty, b->k - 1));
    if (isC(b) && a->op == GS_ZEXT && b->k > maskw(W(a->a->ty))) return a;
    break;
  case GS_SHL:
    if (isCv(b, 0)) return a;
    if (isC(b) && b->k >= w) return cst(ty, 0);
    if (isC(b) && a->op == GS_SHL && isC(a->b) && a->b->k + b->k < w) return mkBin(GS_SHL, ty, a->a, cst(ty, a->b->k + b->k));
    if (isC(b) && a->op == GS_LSHR && a->b == b) return mkBin(GS_AND, ty, a->a, cst(ty, ~maskw(b->k)));
    if (isC(b) && a->op == GS_ITE && iteConst(a, 6)) return mkIte(a->a, mkBin(op, ty, a->b, b), mkBin(op, ty, a->c, b));
    break;
  case GS_LSHR: case GS_ASHR:
    if (isCv(b, 0)) return a;
    if (isC(b) && b->k >= w && op == GS_LSHR) return cst(ty, 0);
    if (isC(b) && a->op == GS_SHL && a->b == b && a->a->op == GS_ZEXT && W(a->a->a->ty) + b->k + (op == GS_ASHR) <= w) return a->a;
    if (isC(b) && a->op == GS_ZEXT && b->k >= W(a->a->ty)) return cst(ty, 0);
    if (isC(b) && a->op == GS_ITE && iteConst(a, 6)) return mkIte(a->a, mkBin(op, ty, a->b, b), mkBin(op, ty, a->c, b));
    break;
  case GS_AND:
    if (a == b) return a;
    if (isCv(b, 0)) return b;
    if (isCv(b, maskw(w))) return a;
    if (ty == 1 && ((a->op == GS_NOT && a->a == b) || (b->op == GS_NOT && b->a == a))) return cst(1, 0);
    if (isC(b) && a->op == GS_ZEXT && (b->k & maskw(W(a->a->ty))) == maskw(W(a->a->ty))) return a;
    if (isC(b) && a->op == GS_ITE && iteConst(a, 6)) return mkIte(a->a, mkBin(op, ty, a->b, b), mkBin(op, ty, a->c, b));
    // low-bit alignment mask of something already aligned
    if (isC(b) && a->op == GS_SHL && isC(a->b) && (b->k | maskw(a->b->k)) == maskw(w)) return a;
    break;
  case GS_OR:
    if (a == b) return a;
    if (isCv(b, 0)) return a;
    if (isCv(b, maskw(w))) return b;
    if (ty == 1 && ((a->op == GS_NOT && a->a == b) || (b->op == GS_NOT && b->a == a))) return cst(1, 1);
    if (isC(b) && a->op == GS_ITE && iteConst(a, 6)) return mkIte(a->a, mkBin(op, ty, a->b, b), mkBin(op, ty, a->c, b));
    break;
  case GS_XOR:
    if (a == b) return cst(ty, 0);
    if (isCv(b, 0)) return a;
    if (ty == 1 && isCv(b, 1)) return mkNot(a);
    if (isC(b) && a->op == GS_XOR && isC(a->b)) return mkBin(GS_XOR, ty, a->a, cst(ty, a->b->k ^ b->k));
    if (isC(b) && a->op == GS_ITE && iteConst(a, 6)) return mkIte(a->a, mkBin(op, ty, a->b, b), mkBin(op, ty, a->c, b));
    break;
  case GS_FADD: case GS_FSUB: case GS_FMUL: case GS_FDIV:
    if (g_real) {
      // exact identities of real arithmetic
      if (op == GS_FADD && isCv(b, 0)) return a;
      if (op == GS_FADD && isCv(a, 0)) return b;
      if (op == GS_FSUB && isCv(b, 0)) return a;
      if (op == GS_FSUB && a == b) return cst(ty, 0);
      if (op == GS_FMUL && (isCv(a, 0) || isCv(a, 1ull << 63))) return cst(ty, 0);
      if (op == GS_FMUL && (isCv(b, 0) || isCv(b, 1ull << 63))) return cst(ty, 0);
      if (W(ty) == 64) {
        u64 one = fromD(1.0);
        if (op == GS_FMUL && isCv(b, one)) return a;
        if (op == GS_FMUL && isCv(a, one)) return b;
        if (op == GS_FDIV && isCv(b, one)) return a;
      }
    }
    break;
  default: break;
  }
  if (comm && !isC(b) && a->hash > b->hash) std::swap(a, b);
  return intern(op, ty, a, b, 0, 0);
}
static Expr* mkCmp(unsigned op, Expr* a, Expr* b) {
  unsigned w = W(a->ty);
  switch (op) {
  case GS_EQ: return mkEq(a, b);
  case GS_NE: return mkNot(mkEq(a, b));
  case GS_UGT: return mkCmp(GS_ULT, b, a);
  case GS_UGE: return mkCmp(GS_ULE, b, a);
  case GS_SGT: return mkCmp(GS_SLT, b, a);
  case GS_SGE: return mkCmp(GS_SLE, b, a);
  default: break;
  }
  if (isC(a) && isC(b)) return cst(1, evalOp(op, 1, 0, a, b, a->k, b->k, 0));
  if (a->ty == 1) { // order on booleans
    if (op == GS_ULT || op == GS_SLT) { Expr *x = op == GS_ULT ? a : b, *y = op == GS_ULT ? b : a; return mkBin(GS_AND, 1, mkNot(x), y); }
    Expr *x = op == GS_ULE ? a : b, *y = op == GS_ULE ? b : a; return mkBin(GS_OR, 1, mkNot(x), y);
  }
  if (a == b) return cst(1, op == GS_ULE || op == GS_SLE);
  if (op == GS_ULT) {
    if (isCv(b, 0)) return cst(1, 0);
    if (isCv(b, 1)) return mkEq(a, cst(a->ty, 0));
    if (isCv(a, maskw(w))) return cst(1, 0);
    if (isCv(a, 0)) return mkNot(mkEq(b, a));
  }
  if (op == GS_ULE) {
    if (isCv(a, 0)) return cst(1, 1);
    if (isCv(b, maskw(w))) return cst(1, 1);
    if (isCv(b, 0)) return mkEq(a, b);
  }
  // narrow zero-extended operands
  if ((op == GS_ULT || op == GS_ULE || op == GS_SLT || op == GS_SLE)) {
    auto narrow = [&](Expr* x, Expr* y, bool xl) -> Expr* {
      if (x->op != GS_ZEXT) return nullptr;
      unsigned nw = W(x->a->ty);
      unsigned uop = (op == GS_SLT || op == GS_ULT) ? GS_ULT : GS_ULE;
      if (isC(y)) {
        int64_t ys = sx(y->k, w);
        bool sgn = op == GS_SLT || op == GS_SLE;
        if (sgn && ys < 0) return cst(1, xl ? 0 : 1);
        if (y->k > maskw(nw)) return cst(1, xl ? 1 : 0);
        Expr* yy = cst(x->a->ty, y->k);
        return xl ? mkCmp(uop, x->a, yy) : mkCmp(uop, yy, x->a);
      }
      if (y->op == GS_ZEXT) {
        unsigned n = std::max(W(x->a->ty), W(y->a->ty));
        Expr *p = narrowTo(x, n), *q = narrowTo(y, n);
        return xl ? mkCmp(uop, p, q) : mkCmp(uop, q, p);
      }
      return nullptr;
    };
    if (Expr* r = narrow(a, b, true)) return r;
    if (Expr* r = narrow(b, a, false)) return r;
  }
  if (isC(b) && a->op == GS_ITE && iteConst(a, 6)) return mkIte(a->a, mkCmp(op, a->b, b), mkCmp(op, a->c, b));
  if (isC(a) && b->op == GS_ITE && iteConst(b, 6)) return mkIte(b->a, mkCmp(op, a, b->b), mkCmp(op, a, b->c));
  return intern(op, 1, a, b, 0, 0);
}

// ------------------------------------------------------------------ evaluation under an arbitrary assignment
static std::vector<u64>* g_evAssign;
static u64 evalE(Expr* e) {
  if (e->op == GS_CONST) return e->k;
  if (e->evEpoch == g_evEpoch) return e->evVal;
  u64 r;
  if (e->op == GS_VAR) r = e->k < g_evAssign->size() ? (*g_evAssign)[e->k] : 0;
  else if (e->op == GS_ITE) r = evalE(e->a) ? evalE(e->b) : evalE(e->c);
  else r = evalOp(e->op, e->ty, e->k, e->a, e->b, e->a ? evalE(e->a) : 0, e->b ? evalE(e->b) : 0, e->c ? evalE(e->c) : 0);
  e->evEpoch = g_evEpoch; e->evVal = r;
  return r;
}

// ------------------------------------------------------------------ SMT translation
static Z3_sort sortOf(unsigned ty) {
  if (ty == 1) return Z3_mk_bool_sort(g_ctx);
  if (ty == (GS_FPFLAG | 64)) return g_real ? Z3_mk_real_sort(g_ctx) : Z3_mk_fpa_sort_double(g_ctx);
  if (ty == (GS_FPFLAG | 32)) return g_real ? Z3_mk_real_sort(g_ctx) : Z3_mk_fpa_sort_single(g_ctx);
  return Z3_mk_bv_sort(g_ctx, ty);
}
static std::vector<Z3_ast>* g_defs;     // definitional constraints (sqrt etc.), keyed by expression below
static std::unordered_map<Expr*, Z3_ast>* g_defOf;
static Z3_ast realConst(double d) {
  // exact dyadic rational
  int ex; double m = std::frexp(d, &ex); // d = m*2^ex
  int64_t n = (int64_t)std::ldexp(m, 53); ex -= 53;
  if (n == 0) return Z3_mk_real(g_ctx, 0, 1);
  while (!(n & 1)) { n >>= 1; ex++; }
  std::string s = std::to_string(n);
  if (ex >= 0) {
    Z3_ast a = Z3_mk_numeral(g_ctx, s.c_str(), Z3_mk_real_sort(g_ctx));
    if (!ex) return a;
    // 2^ex by string doubling
    std::string p = "1";
    for (int i = 0; i < ex; i++) { int c = 0; for (int j = (int)p.size() - 1; j >= 0; j--) { int v = (p[j] - '0') * 2 + c; p[j] = '0' + v % 10; c = v / 10; } if (c) p = char('0' + c) + p; }
    Z3_ast ar[2] = {a, Z3_mk_numeral(g_ctx, p.c_str(), Z3_mk_real_sort(g_ctx))};
    return Z3_simplify(g_ctx, Z3_mk_mul(g_ctx, 2, ar));
  }
  std::string p = "1";
  for (int i = 0; i < -ex; i++) { int c = 0; for (int j = (int)p.size() - 1; j >= 0; j--) { int v = (p[j] - '0') * 2 + c; p[j] = '0' + v % 10; c = v / 10; } if (c) p = char('0' + c) + p; }
  return Z3_mk_numeral(g_ctx, (s + "/" + p).c_str(), Z3_mk_real_sort(g_ctx));
}
// constants are idealised as in the normal forms: a double within one rounding of a small fraction stands for the fraction
static Z3_ast idealConst(double d) {
  if (d != 0 && std::isfinite(d)) for (long den = 1; den <= 720; den++) { double k = d * den, r = std::round(k); if (std::fabs(r) < 1e12 && std::fabs(r) >= 1 && std::fabs(k - r) <= 2.3e-16 * std::fabs(r)) return Z3_mk_numeral(g_ctx, (std::to_string((long)r) + "/" + std::to_string(den)).c_str(), Z3_mk_real_sort(g_ctx)); }
  return realConst(d);
}
static Z3_ast rne() { return Z3_mk_fpa_rne(g_ctx); }
// ------------------------------------------------------------------ whole numbers carried in doubles
// A double computed from 32-bit (or provably small) integers by exact operations is handled as that integer: value = e / 2^s.
typedef __int128 i128;
struct Rng { i128 lo, hi; };
static std::unordered_map<Expr*, Rng>* g_rng;
static Rng fullRng(unsigned w) { return {-((i128)1 << (w - 1)), ((i128)1 << (w - 1)) - 1}; }
static Rng srange(Expr* e, int d = 0) { // signed range of a bit vector
  if (!g_rng) g_rng = new std::unordered_map<Expr*, Rng>();
  auto it = g_rng->find(e); if (it != g_rng->end()) return it->second;
  unsigned w = W(e->ty); Rng full = fullRng(w), r = full; if (w < 2) r = {0, 1};
  auto fits = [&](i128 lo, i128 hi) { if (lo >= full.lo && hi <= full.hi) r = {lo, hi}; };
  if (e->op == GS_CONST) { int64_t v = sx(e->k, w); r = {v, v}; }
  else if (d < 200 && w >= 2) switch (e->op) {
    case GS_ADD: { Rng a = srange(e->a, d + 1), b = srange(e->b, d + 1); fits(a.lo + b.lo, a.hi + b.hi); break; }
    case GS_SUB: { Rng a = srange(e->a, d + 1), b = srange(e->b, d + 1); fits(a.lo - b.hi, a.hi - b.lo); break; }
    case GS_MUL: { Rng a = srange(e->a, d + 1), b = srange(e->b, d + 1); i128 p[4] = {a.lo * b.lo, a.lo * b.hi, a.hi * b.lo, a.hi * b.hi}; fits(*std::min_element(p, p + 4), *std::max_element(p, p + 4)); break; }
    case GS_SDIV: if (isC(e->b) && sx(e->b->k, w) > 0) { Rng a = srange(e->a, d + 1); i128 k = sx(e->b->k, w); fits(a.lo / k, a.hi / k); } break;
    case GS_SHL: if (isC(e->b) && e->b->k < 40) { Rng a = srange(e->a, d + 1); fits(a.lo * ((i128)1 << e->b->k), a.hi * ((i128)1 << e->b->k)); } break;
    case GS_ASHR: if (isC(e->b) && e->b->k < w) { Rng a = srange(e->a, d + 1); fits(a.lo >> e->b->k, a.hi >> e->b->k); } break;
    case GS_ITE: { Rng a = srange(e->b, d + 1), b = srange(e->c, d + 1); r = {std::min(a.lo, b.lo), std::max(a.hi, b.hi)}; break; }
    case GS_SEXT: r = e->a->ty == 1 ? Rng{-1, 0} : srange(e->a, d + 1); break;
    case GS_ZEXT: { if (e->a->ty == 1) { r = {0, 1}; break; } Rng a = srange(e->a, d + 1); if (a.lo >= 0) r = a; else r = {0, ((i128)1 << W(e->a->ty)) - 1}; break; }
    case GS_EXTRACT: if (e->k == 0 && !isFP(e->a->ty)) { Rng a = srange(e->a, d + 1); fits(a.lo, a.hi); } break;
    default: break;
  }
  if (e->ub <= (u64)full.hi && r.lo < 0) r = {0, (i128)e->ub}; else if (r.lo >= 0 && (i128)e->ub < r.hi && e->ub <= (u64)full.hi) r.hi = e->ub;
  (*g_rng)[e] = r;
  return r;
}
struct IntD { bool ok; Expr* e; unsigned s; };
static std::unordered_map<Expr*, IntD>* g_intd;
static Expr* withRng(Expr* e, i128 lo, i128 hi) { Rng r = srange(e); if (lo > r.lo) r.lo = lo; if (hi < r.hi) r.hi = hi; (*g_rng)[e] = r; return e; }
static IntD intOf(Expr* f, int d = 0) {
  IntD no{false, nullptr, 0}; if (f->ty != (GS_FPFLAG | 64) || d > 200) return no;
  if (!g_intd) g_intd = new std::unordered_map<Expr*, IntD>();
  if (f->op != GS_CONST) { auto it = g_intd->find(f); if (it != g_intd->end()) return it->second; }
  const i128 LIM = (i128)1 << 50; IntD r = no;
  auto done = [&](Expr* e, unsigned s) { Rng g = srange(e); if (s <= 4 && g.lo > -LIM && g.hi < LIM) r = {true, e, s}; };
  auto up = [&](const IntD& x, unsigned s) -> Expr* { return x.s == s ? x.e : mkBin(GS_SHL, 64, x.e, cst(64, s - x.s)); };
  auto upr = [&](const IntD& x, unsigned s) -> Expr* { Rng g = srange(x.e); Expr* e = up(x, s); return withRng(e, g.lo * ((i128)1 << (s - x.s)), g.hi * ((i128)1 << (s - x.s))); };
  switch (f->op) {
  case GS_CONST: { double v = asD(f->k); if (std::isfinite(v) && std::fabs(v) < 1e9) for (unsigned s = 0; s <= 4 && !r.ok; s++) { double t = std::ldexp(v, s); if (t == std::trunc(t)) r = {true, cst(64, (u64)(int64_t)t), s}; } return r; }
  case GS_SITOFP: { Rng g = srange(f->a); if (W(f->a->ty) > 64) break; Expr* e = W(f->a->ty) == 64 ? f->a : mkSext(f->a, 64); done(withRng(e, g.lo, g.hi), 0); break; }
  case GS_UITOFP: { unsigned w = W(f->a->ty); if (w < 64) { done(withRng(mkZext(f->a, 64), 0, maskw(w)), 0); break; } Rng g = srange(f->a); if (g.lo >= 0) done(f->a, 0); break; }
  case GS_FNEG: { IntD a = intOf(f->a, d + 1); if (a.ok) { Rng g = srange(a.e); done(withRng(mkBin(GS_SUB, 64, cst(64, 0), a.e), -g.hi, -g.lo), a.s); } break; }
  case GS_FABS: { IntD a = intOf(f->a, d + 1); if (!a.ok) break; Rng g = srange(a.e); if (g.lo >= 0) { r = a; break; } Expr* n = withRng(mkBin(GS_SUB, 64, cst(64, 0), a.e), -g.hi, -g.lo); done(withRng(mkIte(mkCmp(GS_SLT, a.e, cst(64, 0)), n, a.e), 0, std::max(-g.lo, g.hi)), a.s); break; }
  case GS_FADD: case GS_FSUB: { IntD a = intOf(f->a, d + 1), b = intOf(f->b, d + 1); if (!a.ok || !b.ok) break; unsigned s = std::max(a.s, b.s); Expr *x = upr(a, s), *y = upr(b, s); Rng p = srange(x), q = srange(y); Expr* e = mkBin(f->op == GS_FADD ? GS_ADD : GS_SUB, 64, x, y); done(f->op == GS_FADD ? withRng(e, p.lo + q.lo, p.hi + q.hi) : withRng(e, p.lo - q.hi, p.hi - q.lo), s); break; }
  case GS_FMUL: case GS_FDIV: {
    Expr *x = f->a, *y = f->b; if (f->op == GS_FMUL && isC(x)) std::swap(x, y); if (!isC(y)) break; double k = asD(y->k); if (f->op == GS_FDIV) { if (k != 2 && k != 4) break; k = 1 / k; }
    IntD a = intOf(x, d + 1), b = intOf(cst(GS_FPFLAG | 64, fromD(k))); if (!a.ok || !b.ok) break; Rng p = srange(a.e); i128 c = sx(b.e->k, 64); Expr* e = mkBin(GS_MUL, 64, a.e, b.e);
    done(withRng(e, c >= 0 ? p.lo * c : p.hi * c, c >= 0 ? p.hi * c : p.lo * c), a.s + b.s); break; }
  case GS_FMIN: case GS_FMAX: { IntD a = intOf(f->a, d + 1), b = intOf(f->b, d + 1); if (!a.ok || !b.ok) break; unsigned s = std::max(a.s, b.s); Expr *x = upr(a, s), *y = upr(b, s); Rng p = srange(x), q = srange(y); bool mx = f->op == GS_FMAX; if (mx ? p.lo >= q.hi : p.hi <= q.lo) { done(x, s); break; } if (mx ? q.lo >= p.hi : q.hi <= p.lo) { done(y, s); break; } Expr* e = mx ? mkIte(mkCmp(GS_SLT, x, y), y, x) : mkIte(mkCmp(GS_SLT, x, y), x, y); done(mx ? withRng(e, std::max(p.lo, q.lo), std::max(p.hi, q.hi)) : withRng(e, std::min(p.lo, q.lo), std::min(p.hi, q.hi)), s); break; }
  case GS_ITE: { IntD a = intOf(f->b, d + 1), b = intOf(f->c, d + 1); if (!a.ok || !b.ok) break; unsigned s = std::max(a.s, b.s); done(mkIte(f->a, upr(a, s), upr(b, s)), s); break; }
  case GS_FTRUNC: case GS_FFLOOR: case GS_FCEIL: case GS_FROUND: case GS_FRINT: { IntD a = intOf(f->a, d + 1); if (a.ok && a.s == 0) r = a; else if (a.ok && f->op == GS_FFLOOR) done(mkBin(GS_ASHR, 64, a.e, cst(64, a.s)), 0); break; }
  default: break;
  }
  if (r.ok && (int64_t)r.e->val != (int64_t)std::ldexp(asD(f->val), r.s)) r = no;
  (*g_intd)[f] = r;
  return r;
}
static Expr* intCmp(unsigned q, Expr* a, Expr* b) { // q: ordered predicate number; null if not whole numbers
  if (isC(a) && isC(b)) return nullptr;
  IntD x = intOf(a), y = intOf(b); if (!x.ok || !y.ok) return nullptr;
  unsigned s = std::max(x.s, y.s); Expr *p = x.s == s ? x.e : mkBin(GS_SHL, 64, x.e, cst(64, s - x.s)), *r = y.s == s ? y.e : mkBin(GS_SHL, 64, y.e, cst(64, s - y.s));
  switch (q) {
  case 1: return mkEq(p, r); case 2: return mkCmp(GS_SLT, r, p); case 3: return mkCmp(GS_SLE, r, p); case 4: return mkCmp(GS_SLT, p, r); case 5: return mkCmp(GS_SLE, p, r); case 6: return mkNot(mkEq(p, r));
  default: return nullptr;
  }
}

// low n bits of e (signed values of e fit in n bits)
static std::map<std::pair<Expr*, unsigned>, Expr*>* g_nar;
static Expr* narrowS(Expr* e, unsigned n, int d = 0) {
  unsigned w = W(e->ty);
  if (w == n) return e;
  if (isC(e)) return cst(n, e->k);
  if (w < n) { Rng g = srange(e); return g.lo >= 0 ? mkZext(e, n) : mkSext(e, n); }
  if (!g_nar) g_nar = new std::map<std::pair<Expr*, unsigned>, Expr*>();
  auto it = g_nar->find({e, n}); if (it != g_nar->end()) return it->second;
  Expr* r = nullptr;
  if (d < 300) switch (e->op) {
    case GS_ADD: case GS_SUB: case GS_MUL: case GS_AND: case GS_OR: case GS_XOR: r = mkBin(e->op, n, narrowS(e->a, n, d + 1), narrowS(e->b, n, d + 1)); break;
    case GS_SHL: if (isC(e->b) && e->b->k < n) r = mkBin(GS_SHL, n, narrowS(e->a, n, d + 1), cst(n, e->b->k)); break;
    case GS_ITE: r = mkIte(e->a, narrowS(e->b, n, d + 1), narrowS(e->c, n, d + 1)); break;
    case GS_SEXT: if (e->a->ty != 1) r = W(e->a->ty) <= n ? mkSext(e->a, n) : narrowS(e->a, n, d + 1); break;
    case GS_ZEXT: if (e->a->ty != 1) r = W(e->a->ty) <= n ? mkZext(e->a, n) : narrowS(e->a, n, d + 1); break;
    case GS_EXTRACT: if (e->k == 0 && !isFP(e->a->ty)) r = narrowS(e->a, n, d + 1); break;
    case GS_SDIV: case GS_SREM: { Rng g = srange(e->a), h = srange(e->b), f = fullRng(n); if (g.lo > f.lo && g.hi <= f.hi && h.lo >= f.lo && h.hi <= f.hi) r = mkBin(e->op, n, narrowS(e->a, n, d + 1), narrowS(e->b, n, d + 1)); break; }
    default: break;
  }
  if (!r) r = mkExtract(e, 0, n);
  (*g_nar)[{e, n}] = r;
  return r;
}
static bool narrowPair(Expr* a, Expr* b, Expr*& x, Expr*& y) {
  unsigned w = W(a->ty); if (w < 16 || isFP(a->ty)) return false;
  Rng p = srange(a), q = srange(b); i128 lo = std::min(p.lo, q.lo), hi = std::max(p.hi, q.hi);
  for (unsigned n : {6u, 10u, 14u, 20u, 34u}) if (n < w) { Rng f = fullRng(n); if (lo >= f.lo && hi <= f.hi) { x = narrowS(a, n); y = narrowS(b, n); return W(x->ty) == n && W(y->ty) == n; } }
  return false;
}
static Z3_ast Z(Expr* e) {
  if (e->z) return e->z;
  if (e->op == GS_SLT || e->op == GS_SLE || e->op == GS_EQ) {
    Expr *p, *q;
    if (narrowPair(e->a, e->b, p, q)) {
      Z3_ast u = Z(p), v = Z(q);
      Z3_ast t = e->op == GS_SLT ? Z3_mk_bvslt(g_ctx, u, v) : e->op == GS_SLE ? Z3_mk_bvsle(g_ctx, u, v) : Z3_mk_eq(g_ctx, u, v);
      Z3_inc_ref(g_ctx, t); return e->z = t;
    }
  }
  Z3_ast a = e->a ? Z(e->a) : nullptr, b = e->b ? Z(e->b) : nullptr, c = e->c ? Z(e->c) : nullptr;
  Z3_context x = g_ctx;
  Z3_ast r = nullptr;
  bool B1 = e->a && e->a->ty == 1;
  Z3_ast two[2] = {a, b};
  switch (e->op) {
  case GS_CONST:
    if (e->ty == 1) r = e->k ? Z3_mk_true(x) : Z3_mk_false(x);
    else if (isFP(e->ty)) {
      double d = W(e->ty) == 64 ? asD(e->k) : asF(e->k);
      if (g_real) r = idealConst(d);
      else if (W(e->ty) == 64) r = Z3_mk_fpa_to_fp_bv(x, Z3_mk_unsigned_int64(x, e->k, Z3_mk_bv_sort(x, 64)), sortOf(e->ty));
      else r = Z3_mk_fpa_to_fp_bv(x, Z3_mk_unsigned_int64(x, e->k, Z3_mk_bv_sort(x, 32)), sortOf(e->ty));
    } else r = Z3_mk_unsigned_int64(x, e->k, sortOf(e->ty));
    break;
  case GS_VAR: {
    char nm[32]; snprintf(nm, sizeof nm, "v%llu", (unsigned long long)e->k);
    r = Z3_mk_const(x, Z3_mk_string_symbol(x, nm), sortOf(e->ty));
    break;
  }
  case GS_ADD: r = Z3_mk_bvadd(x, a, b); break;
  case GS_SUB: r = Z3_mk_bvsub(x, a, b); break;
  case GS_MUL: r = Z3_mk_bvmul(x, a, b); break;
  case GS_UDIV: r = Z3_mk_bvudiv(x, a, b); break;
  case GS_SDIV: r = Z3_mk_bvsdiv(x, a, b); break;
  case GS_UREM: r = Z3_mk_bvurem(x, a, b); break;
  case GS_SREM: r = Z3_mk_bvsrem(x, a, b); break;
  case GS_SHL: r = Z3_mk_bvshl(x, a, b); break;
  case GS_LSHR: r = Z3_mk_bvlshr(x, a, b); break;
  case GS_ASHR: r = Z3_mk_bvashr(x, a, b); break;
  case GS_AND: r = B1 ? Z3_mk_and(x, 2, two) : Z3_mk_bvand(x, a, b); break;
  case GS_OR: r = B1 ? Z3_mk_or(x, 2, two) : Z3_mk_bvor(x, a, b); break;
  case GS_XOR: r = B1 ? Z3_mk_xor(x, a, b) : Z3_mk_bvxor(x, a, b); break;
  case GS_EQ: r = Z3_mk_eq(x, a, b); break;
  case GS_ULT: r = Z3_mk_bvult(x, a, b); break;
  case GS_ULE: r = Z3_mk_bvule(x, a, b); break;
  case GS_SLT: r = Z3_mk_bvslt(x, a, b); break;
  case GS_SLE: r = Z3_mk_bvsle(x, a, b); break;
  case GS_ZEXT: r = Z3_mk_zero_ext(x, W(e->ty) - W(e->a->ty), a); break;
  case GS_SEXT: r = Z3_mk_sign_ext(x, W(e->ty) - W(e->a->ty), a); break;
  case GS_EXTRACT: {
    if (e->ty == 1) r = Z3_mk_eq(x, Z3_mk_extract(x, e->k, e->k, a), Z3_mk_unsigned_int64(x, 1, Z3_mk_bv_sort(x, 1)));
    else r = Z3_mk_extract(x, e->k + W(e->ty) - 1, e->k, a);
    break;
  }
  case GS_CONCAT: {
    auto asbv = [&](Expr* s, Z3_ast t) { return s->ty == 1 ? Z3_mk_ite(x, t, Z3_mk_unsigned_int64(x, 1, Z3_mk_bv_sort(x, 1)), Z3_mk_unsigned_int64(x, 0, Z3_mk_bv_sort(x, 1))) : t; };
    r = Z3_mk_concat(x, asbv(e->a, a), asbv(e->b, b));
    break;
  }
  case GS_NOT: r = Z3_mk_not(x, a); break;
  case GS_ITE: r = Z3_mk_ite(x, a, b, c); break;
  case GS_UMULO: r = Z3_mk_not(x, Z3_mk_bvmul_no_overflow(x, a, b, false)); break;
  case GS_SMULO: { Z3_ast o[2] = {Z3_mk_not(x, Z3_mk_bvmul_no_overflow(x, a, b, true)), Z3_mk_not(x, Z3_mk_bvmul_no_underflow(x, a, b))}; r = Z3_mk_or(x, 2, o); break; }
  case GS_CTPOP: {
    unsigned w = W(e->ty);
    for (unsigned i = 0; i < w; i++) {
      Z3_ast bit = Z3_mk_zero_ext(x, w - 1, Z3_mk_extract(x, i, i, a));
      r = r ? Z3_mk_bvadd(x, r, bit) : bit;
    }
    break;
  }
  case GS_BSWAP: {
    unsigned w = W(e->ty);
    for (unsigned i = 0; i < w; i += 8) { Z3_ast by = Z3_mk_extract(x, i + 7, i, a); r = r ? Z3_mk_concat(x, r, by) : by; }
    break;
  }
  // floating point
  case GS_FADD: r = g_real ? Z3_mk_add(x, 2, two) : Z3_mk_fpa_add(x, rne(), a, b); break;
  case GS_FSUB: r = g_real ? Z3_mk_sub(x, 2, two) : Z3_mk_fpa_sub(x, rne(), a, b); break;
  case GS_FMUL: r = g_real ? Z3_mk_mul(x, 2, two) : Z3_mk_fpa_mul(x, rne(), a, b); break;
  case GS_FDIV: r = g_real ? Z3_mk_div(x, a, b) : Z3_mk_fpa_div(x, rne(), a, b); break;
  case GS_FREM: r = nullptr; break;
  case GS_FNEG: r = g_real ? Z3_mk_unary_minus(x, a) : Z3_mk_fpa_neg(x, a); break;
  case GS_FABS: r = g_real ? Z3_mk_ite(x, Z3_mk_ge(x, a, realConst(0)), a, Z3_mk_unary_minus(x, a)) : Z3_mk_fpa_abs(x, a); break;
  case GS_FMIN: r = g_real ? Z3_mk_ite(x, Z3_mk_le(x, a, b), a, b) : Z3_mk_fpa_min(x, a, b); break;
  case GS_FMAX: r = g_real ? Z3_mk_ite(x, Z3_mk_ge(x, a, b), a, b) : Z3_mk_fpa_max(x, a, b); break;
  case GS_FSQRT:
    if (g_real) {
      r = Z3_mk_fresh_const(x, "sqrt", Z3_mk_real_sort(x));
      Z3_ast rr[2] = {r, r};
      Z3_ast cj[2] = {Z3_mk_ge(x, r, realConst(0)), Z3_mk_eq(x, Z3_mk_mul(x, 2, rr), a)};
      Z3_ast d = Z3_mk_and(x, 2, cj);
      Z3_inc_ref(x, d); (*g_defOf)[e] = d;
    } else r = Z3_mk_fpa_sqrt(x, rne(), a);
    break;
  case GS_FEQ: r = g_real ? Z3_mk_eq(x, a, b) : Z3_mk_fpa_eq(x, a, b); break;
  case GS_FLT: r = g_real ? Z3_mk_lt(x, a, b) : Z3_mk_fpa_lt(x, a, b); break;
  case GS_FLE: r = g_real ? Z3_mk_le(x, a, b) : Z3_mk_fpa_leq(x, a, b); break;
  case GS_FISNAN: r = g_real ? Z3_mk_false(x) : Z3_mk_fpa_is_nan(x, a); break;
  case GS_SITOFP: r = g_real ? Z3_mk_int2real(x, Z3_mk_bv2int(x, a, true)) : Z3_mk_fpa_to_fp_signed(x, rne(), a, sortOf(e->ty)); break;
  case GS_UITOFP: r = g_real ? Z3_mk_int2real(x, Z3_mk_bv2int(x, a, false)) : Z3_mk_fpa_to_fp_unsigned(x, rne(), a, sortOf(e->ty)); break;
  case GS_FPTOSI: r = g_real ? nullptr : Z3_mk_fpa_to_sbv(x, Z3_mk_fpa_rtz(x), a, W(e->ty)); break;
  case GS_FPTOUI: r = g_real ? nullptr : Z3_mk_fpa_to_ubv(x, Z3_mk_fpa_rtz(x), a, W(e->ty)); break;
  case GS_FPEXT: case GS_FPTRUNC: r = g_real ? a : Z3_mk_fpa_to_fp_float(x, rne(), a, sortOf(e->ty)); break;
  case GS_FP2BV: r = g_real ? nullptr : Z3_mk_fpa_to_ieee_bv(x, a); break;
  case GS_BV2FP: r = g_real ? nullptr : Z3_mk_fpa_to_fp_bv(x, a, sortOf(e->ty)); break;
  case GS_FFLOOR: r = g_real ? Z3_mk_int2real(x, Z3_mk_real2int(x, a)) : Z3_mk_fpa_round_to_integral(x, Z3_mk_fpa_rtn(x), a); break;
  case GS_FCEIL: r = g_real ? Z3_mk_unary_minus(x, Z3_mk_int2real(x, Z3_mk_real2int(x, Z3_mk_unary_minus(x, a)))) : Z3_mk_fpa_round_to_integral(x, Z3_mk_fpa_rtp(x), a); break;
  case GS_FTRUNC: r = g_real ? nullptr : Z3_mk_fpa_round_to_integral(x, Z3_mk_fpa_rtz(x), a); break;
  case GS_FRINT: r = g_real ? nullptr : Z3_mk_fpa_round_to_integral(x, rne(), a); break;
  case GS_FROUND: r = g_real ? nullptr : Z3_mk_fpa_round_to_integral(x, Z3_mk_fpa_rna(x), a); break;
  case GS_UF: {
    Z3_sort rs = Z3_mk_real_sort(x);
    Z3_sort dom[2] = {rs, rs};
    Z3_func_decl f = Z3_mk_func_decl(x, Z3_mk_string_symbol(x, e->name), b ? 2 : 1, dom, rs);
    r = Z3_mk_app(x, f, b ? 2 : 1, two);
    break;
  }
  default: break;
  }
  if (!r) { r = Z3_mk_fresh_const(x, "opaque", sortOf(e->ty)); }
  Z3_inc_ref(x, r);
  e->z = r;
  return r;
}
static void collectDefs(Expr* e, std::set<Expr*>& seen, std::vector<Z3_ast>& out) {
  if (!e || !seen.insert(e).second) return;
  collectDefs(e->a, seen, out); collectDefs(e->b, seen, out); collectDefs(e->c, seen, out);
  if (e->op == GS_FSQRT) { auto it = g_defOf->find(e); if (it != g_defOf->end()) out.push_back(it->second); }
}

#include "norm.h"
// ------------------------------------------------------------------ path state
struct Work {
  int h = 0; std::vector<u64> in; unsigned bound = 0; u64 pfx = 0; // expected hash of the event prefix
  unsigned site = 0; std::vector<uint8_t> forced; // real mode: decisions of the first `bound` events
};
static std::vector<Expr*>* g_pc;
static unsigned g_evt = 0;
static Work* g_work;
static u64 g_pfx = 0;
static std::vector<uint8_t>* g_dec;
static bool g_pfxChecked = false;
struct Stats {
  u64 queries = 0, sat = 0, unsat = 0, unknown = 0, discharged = 0, asserts = 0, events = 0, loadsChecked = 0, stale = 0, trivially = 0, normed = 0, sliced = 0;
  double solver = 0;
};
static Stats g_st;
static std::vector<std::vector<u64>>* g_models;
static std::set<std::string>* g_incomplete;
static std::set<std::string>* g_cover;
static std::string* g_out; // message buffer of this path
static int g_fd = -1;
static Z3_solver g_solver;
static bool g_pcFP = false; static size_t g_pcAsserted = 0;

static double now() { struct timeval t; gettimeofday(&t, 0); return t.tv_sec + t.tv_usec * 1e-6; }
static void incomplete(const std::string& s) { g_incomplete->insert(s); }

static void put(const std::string& s) { *g_out += s; *g_out += '\n'; }
static std::string esc(const std::string& s) { std::string r; for (char c : s) { if (c == '\n' || c == '\t') r += ' '; else r += c; } return r; }
static void emitWork(const std::vector<u64>& in, unsigned bound, u64 pfx, unsigned site, const std::vector<uint8_t>* dec, int lastDec) {
  std::string s = "W " + std::to_string(bound) + " " + std::to_string(pfx) + " " + std::to_string(site) + " ";
  for (u64 v : in) s += std::to_string(v) + ",";
  s += " ";
  if (dec && g_real) { for (unsigned i = 0; i + 1 < bound && i < dec->size(); i++) s += char('0' + (*dec)[i]); if (lastDec >= 0) s += char('0' + lastDec); }
  s += "|";
  put(s);
}
static void emitViolation(const std::string& kind, const std::string& msg, const std::vector<u64>& in) {
  std::string s = "V " + kind + "\t" + esc(msg) + "\t";
  for (size_t i = 0; i < g_inputInfo->size(); i++)
    s += (*g_inputInfo)[i].name + "=" + std::to_string(i < in.size() ? in[i] : 0) + ";";
  put(s);
}
static void flushAndExit(const char* status) __attribute__((noreturn));
// instrumented-function coverage
struct FnRec { unsigned char hit; const char* name; };
static FnRec *fnBegin, *fnEnd; // section gs_funcs of the executable
static void flushAndExit(const char* status) {
  g_inRun = false;
  std::string s;
  char buf[512];
  snprintf(buf, sizeof buf, "S %s %llu %llu %llu %llu %llu %llu %llu %llu %llu %llu %.6f %zu %zu", status, (unsigned long long)g_st.queries,
           (unsigned long long)g_st.sat, (unsigned long long)g_st.unsat, (unsigned long long)g_st.unknown, (unsigned long long)g_st.discharged,
           (unsigned long long)g_st.asserts, (unsigned long long)g_st.events, (unsigned long long)g_st.loadsChecked, (unsigned long long)g_st.stale,
           (unsigned long long)g_st.trivially, g_st.solver, g_pc ? g_pc->size() : 0, g_tab ? g_tab->n : 0);
  put(buf);
  for (auto& i : *g_incomplete) put("I " + esc(i));
  for (auto& i : *g_cover) put("C " + esc(i));
  if (!strcmp(status, "done") && g_inputInfo->size()) {
    std::string x = "X ";
    for (size_t i = 0; i < g_inputInfo->size(); i++) x += (*g_inputInfo)[i].name + "=" + std::to_string(i < g_inputs->size() ? (*g_inputs)[i] : 0) + ";";
    put(x);
  }
  {
    std::string f = "F ";
    for (FnRec* r = fnBegin; r != fnEnd; r++) if (r->hit) f += std::to_string(r - fnBegin) + ",";
    put(f);
  }
  const char* p = g_out->data(); size_t n = g_out->size();
  while (n) { ssize_t k = write(g_fd, p, n); if (k <= 0) { if (errno == EINTR) continue; break; } p += k; n -= k; }
  _exit(0);
}

enum QR { Q_UNSAT, Q_SAT, Q_UNKNOWN };
static double modelToDouble(Z3_model m, Z3_ast v) {
  Z3_ast out;
  if (!Z3_model_eval(g_ctx, m, v, true, &out)) return 0;
  if (Z3_get_ast_kind(g_ctx, out) == Z3_NUMERAL_AST) {
    std::string s = Z3_get_numeral_decimal_string(g_ctx, out, 40);
    if (!s.empty() && s.back() == '?') s.pop_back();
    return strtod(s.c_str(), 0);
  }
  if (Z3_is_algebraic_number(g_ctx, out)) {
    std::string s = Z3_get_numeral_decimal_string(g_ctx, out, 40);
    if (!s.empty() && s.back() == '?') s.pop_back();
    return strtod(s.c_str(), 0);
  }
  // unary minus etc.
  std::string s = Z3_ast_to_string(g_ctx, out);
  if (s.compare(0, 3, "(- ") == 0) return -strtod(s.c_str() + 3, 0);
  return strtod(s.c_str(), 0);
}
static void readModel(Z3_model m, const Bits& bits, std::vector<u64>& out) {
  out = *g_inputs;
  for (size_t i = 0; i < g_vars->size(); i++) {
    if (!bits.test(i & 255)) continue;
    Expr* v = (*g_vars)[i];
    if (!v->z) continue;
    if (isFP(v->ty)) {
      if (g_real) { double d = modelToDouble(m, v->z); out[i] = W(v->ty) == 64 ? fromD(d) : fromF((float)d); continue; }
      Z3_ast o; Z3_ast bv = Z3_mk_fpa_to_ieee_bv(g_ctx, v->z);
      u64 k; Z3_ast nan;
      bool isNan = Z3_model_eval(g_ctx, m, Z3_mk_fpa_is_nan(g_ctx, v->z), true, &nan) && Z3_get_bool_value(g_ctx, Z3_simplify(g_ctx, nan)) == Z3_L_TRUE;
      if (!isNan && Z3_model_eval(g_ctx, m, bv, true, &o) && Z3_get_numeral_uint64(g_ctx, Z3_simplify(g_ctx, o), (uint64_t*)&k)) out[i] = k;
      else { // NaN
        out[i] = W(v->ty) == 64 ? 0x7ff8000000000000ull : 0x7fc00000u;
      }
      continue;
    }
    Z3_ast o;
    if (!Z3_model_eval(g_ctx, m, v->z, true, &o)) continue;
    if (v->ty == 1) { out[i] = Z3_get_bool_value(g_ctx, o) == Z3_L_TRUE; continue; }
    uint64_t k; if (Z3_get_numeral_uint64(g_ctx, o, &k)) out[i] = k;
  }
}
static bool anyFP(Expr* e, std::set<Expr*>& seen) {
  if (!e || !seen.insert(e).second) return false;
  return isFP(e->ty) || anyFP(e->a, seen) || anyFP(e->b, seen) || anyFP(e->c, seen);
}
// is pc /\ cs satisfiable? (only the constraints sharing variables with cs matter: pc itself is satisfiable)
static QR query(const std::vector<Expr*>& cs, std::vector<u64>& model) {
  Bits bits;
  for (Expr* c : cs) {
    if (isC(c)) { if (!c->k) return Q_UNSAT; }
    else if (c->unsup) { g_st.unknown++; incomplete("constraint outside the theory"); return Q_UNKNOWN; }
    bits |= c->vars;
  }
  std::vector<Expr*> sl; std::vector<char> used(g_pc->size(), 0);
  bool ch = true;
  while (ch) {
    ch = false;
    for (size_t i = 0; i < g_pc->size(); i++) if (!used[i]) {
      Expr* p = (*g_pc)[i];
      if ((p->vars & bits).any()) { used[i] = 1; sl.push_back(p); Bits nb = bits | p->vars; if (nb != bits) { bits = nb; ch = true; } }
    }
  }
  g_st.queries++;
  // a model seen earlier on this path may already be a witness
  if (!g_real) {
    for (int mi = (int)g_models->size() - 1, tried = 0; mi >= 0 && tried < 6; mi--, tried++) {
      std::vector<u64>& m = (*g_models)[mi];
      std::vector<u64> asg = *g_inputs;
      for (size_t i = 0; i < asg.size() && i < m.size(); i++) if (bits.test(i & 255)) asg[i] = m[i];
      g_evAssign = &asg; g_evEpoch++;
      bool ok = true;
      for (Expr* c : cs) if (!evalE(c)) { ok = false; break; }
      if (ok) for (Expr* c : sl) if (!evalE(c)) { ok = false; break; }
      if (ok) { model = asg; g_st.sat++; return Q_SAT; }
    }
  }
  double t0 = now();
  QR res = Q_UNKNOWN;
  bool pcFP = g_pcFP;
  if (!g_real && !pcFP) { std::set<Expr*> s2; for (Expr* c : cs) pcFP |= anyFP(c, s2); }
  if (!g_real && !pcFP) {
    // incremental: the path condition stays asserted
    for (; g_pcAsserted < g_pc->size(); g_pcAsserted++) Z3_solver_assert(g_ctx, g_solver, Z((*g_pc)[g_pcAsserted]));
    Z3_params p = Z3_mk_params(g_ctx); Z3_params_inc_ref(g_ctx, p);
    Z3_params_set_uint(g_ctx, p, Z3_mk_string_symbol(g_ctx, "timeout"), g_qTimeout);
    Z3_solver_set_params(g_ctx, g_solver, p);
    Z3_params_dec_ref(g_ctx, p);
    Z3_solver_push(g_ctx, g_solver);
    for (Expr* c : cs) Z3_solver_assert(g_ctx, g_solver, Z(c));
    Z3_lbool r = Z3_solver_check(g_ctx, g_solver);
    if (r == Z3_L_FALSE) res = Q_UNSAT;
    else if (r == Z3_L_TRUE) {
      res = Q_SAT;
      Z3_model m = Z3_solver_get_model(g_ctx, g_solver);
      Z3_model_inc_ref(g_ctx, m);
      Bits all; all.set();
      readModel(m, all, model);
      Z3_model_dec_ref(g_ctx, m);
    }
    Z3_solver_pop(g_ctx, g_solver, 1);
  }
  std::vector<Z3_ast> as; std::set<Expr*> seen;
  if (res == Q_UNKNOWN) {
  for (Expr* p : sl) { as.push_back(Z(p)); }
  for (Expr* c : cs) as.push_back(Z(c));
  if (g_real) { std::vector<Z3_ast> d; for (Expr* p : sl) collectDefs(p, seen, d); for (Expr* c : cs) collectDefs(c, seen, d); for (Z3_ast x : d) as.push_back(x); }
  bool fp = false;
  if (!g_real) { std::set<Expr*> s2; for (Expr* c : cs) fp |= anyFP(c, s2); if (!fp) for (Expr* c : sl) fp |= anyFP(c, s2); }
  static double spent = 0;
  for (int attempt = 0; attempt < 2 && res == Q_UNKNOWN; attempt++) {
    Z3_solver s;
    bool temp = true;
    if (g_real) {
      if (attempt == 0) { s = Z3_mk_solver(g_ctx); }
      else { Z3_tactic t = Z3_mk_tactic(g_ctx, "qfnra-nlsat"); Z3_tactic_inc_ref(g_ctx, t); t = Z3_tactic_try_for(g_ctx, t, g_qTimeout2); Z3_tactic_inc_ref(g_ctx, t); s = Z3_mk_solver_from_tactic(g_ctx, t); }
    } else if (fp) {
      if (attempt == 0) s = Z3_mk_solver_for_logic(g_ctx, Z3_mk_string_symbol(g_ctx, "QF_FPBV"));
      else s = Z3_mk_solver(g_ctx);
    } else if (attempt == 0) { s = Z3_mk_simple_solver(g_ctx); }
    else s = Z3_mk_solver_for_logic(g_ctx, Z3_mk_string_symbol(g_ctx, "QF_BV"));
    if (temp) Z3_solver_inc_ref(g_ctx, s);
    Z3_params p = Z3_mk_params(g_ctx); Z3_params_inc_ref(g_ctx, p);
    Z3_params_set_uint(g_ctx, p, Z3_mk_string_symbol(g_ctx, "timeout"), attempt ? g_qTimeout2 : g_qTimeout);
    if (!(g_real && attempt == 1)) Z3_solver_set_params(g_ctx, s, p);
    if (!temp) Z3_solver_push(g_ctx, s);
    for (Z3_ast a : as) Z3_solver_assert(g_ctx, s, a);
    Z3_lbool r = Z3_solver_check(g_ctx, s);
    if (r == Z3_L_FALSE) res = Q_UNSAT;
    else if (r == Z3_L_TRUE) {
      res = Q_SAT;
      Z3_model m = Z3_solver_get_model(g_ctx, s);
      Z3_model_inc_ref(g_ctx, m);
      readModel(m, bits, model);
      Z3_model_dec_ref(g_ctx, m);
    }
    if (!temp) Z3_solver_pop(g_ctx, s, 1);
    if (temp) Z3_solver_dec_ref(g_ctx, s);
    Z3_params_dec_ref(g_ctx, p);
    // Undecided over the reals: look for a model in which all variables but one keep this path's values. Only a model counts.
    
    for (size_t i = 0, tried = 0; g_real && !attempt && res == Q_UNKNOWN && i < g_vars->size() && tried < 6 && spent < g_sliceBudget; i++) {
      if (!bits.test(i & 255) || !isFP((*g_vars)[i]->ty)) continue;
      tried++; double t1 = now();
      Z3_solver s = Z3_mk_simple_solver(g_ctx); Z3_solver_inc_ref(g_ctx, s);
      Z3_params p = Z3_mk_params(g_ctx); Z3_params_inc_ref(g_ctx, p);
      Z3_params_set_uint(g_ctx, p, Z3_mk_string_symbol(g_ctx, "timeout"), 1000);
      Z3_solver_set_params(g_ctx, s, p);
      for (Z3_ast a : as) Z3_solver_assert(g_ctx, s, a);
      for (size_t j = 0; j < g_vars->size(); j++) {
        Expr* v = (*g_vars)[j];
        if (j == i || !bits.test(j & 255) || !isFP(v->ty) || !v->z) continue;
        u64 k = (*g_inputs)[j]; double d = W(v->ty) == 64 ? asD(k) : (double)asF(k);
        if (!std::isfinite(d)) continue;
        Z3_solver_assert(g_ctx, s, Z3_mk_eq(g_ctx, v->z, realConst(d)));
      }
      if (Z3_solver_check(g_ctx, s) == Z3_L_TRUE) {
        res = Q_SAT; g_st.sliced++;
        Z3_model m = Z3_solver_get_model(g_ctx, s); Z3_model_inc_ref(g_ctx, m);
        readModel(m, bits, model); Z3_model_dec_ref(g_ctx, m);
      }
      Z3_solver_dec_ref(g_ctx, s); Z3_params_dec_ref(g_ctx, p);
      spent += now() - t1;
    }
  }
  }
  g_st.solver += now() - t0;
  static const char* slowLog = getenv("GS_SLOW");
  if (slowLog && now() - t0 > 0.3) if (FILE* f = fopen(slowLog, "a")) { // development aid
    std::set<Expr*> n1; bool q = false; for (Expr* c : cs) q |= anyFP(c, n1); for (Expr* c : sl) q |= anyFP(c, n1);
    fprintf(f, "%.2f s res %d cs %zu sl %zu fp %d pcFP %d nodes %zu\n", now() - t0, (int)res, cs.size(), sl.size(), (int)q, (int)pcFP, n1.size());
    if (getenv("GS_SLOWDUMP") && now() - t0 > 0.3) for (Expr* c : cs) fprintf(f, "%s\n", Z3_ast_to_string(g_ctx, Z(c))); fclose(f); }
  if (res == Q_SAT) {
    g_st.sat++;
    if (!g_real) {
      // the model must satisfy the query under our own evaluator as well: guards the translation
      g_evAssign = &model; g_evEpoch++;
      bool ok = true;
      for (Expr* c : cs) if (!evalE(c)) ok = false;
      for (Expr* c : sl) if (!evalE(c)) ok = false;
      if (!ok) { incomplete("solver model rejected by the evaluator"); g_st.unknown++; return Q_UNKNOWN; }
      g_models->push_back(model);
    }
  } else if (res == Q_UNSAT) g_st.unsat++;
  else { g_st.unknown++; incomplete("solver answered unknown"); }
  return res;
}

// sign of a polynomial implied by the sign facts of the path, monomials taken as independent reals
int nf::linSign(const Poly& p) {
  if (p.size() < 2 || p.size() > 60 || facts().size() > 200) return 0;
  static auto* memo = new std::map<std::pair<std::string, size_t>, int>();
  std::string key = show(p, 0); auto mk = std::make_pair(key, facts().size() * 100000 + eqs().size() * 1000 + posVars().size());
  auto it = memo->find(mk); if (it != memo->end()) return it->second;
  Z3_context x = g_ctx; Z3_sort R = Z3_mk_real_sort(x);
  Z3_solver s = Z3_mk_simple_solver(x); Z3_solver_inc_ref(x, s);
  std::map<Mono, Z3_ast, MLess> mv; Z3_ast zero = Z3_mk_real(x, 0, 1);
  auto mono = [&](const Mono& m) { auto f = mv.find(m); if (f != mv.end()) return f->second;
    Z3_ast v = m.empty() ? Z3_mk_real(x, 1, 1) : Z3_mk_fresh_const(x, "m", R); mv[m] = v;
    if (!m.empty()) { int sg = 2; for (auto& y : m) { int t = sgnAtom(y.first); if (std::abs(t) == 2) { if (t < 0 && y.second % 2) sg = -sg; } else if (y.second % 2 == 0 || t == 1) { if (std::abs(sg) == 2) sg = sg > 0 ? 1 : -1; } else { sg = 0; break; } }
      if (sg) Z3_solver_assert(x, s, sg == 2 ? Z3_mk_gt(x, v, zero) : sg == 1 ? Z3_mk_ge(x, v, zero) : sg == -1 ? Z3_mk_le(x, v, zero) : Z3_mk_lt(x, v, zero)); }
    return v; };
  auto term = [&](const Poly& q) { std::vector<Z3_ast> ts; for (auto& t : q) { Z3_ast c = Z3_mk_numeral(x, t.second.str().c_str(), R); Z3_ast two[2] = {c, mono(t.first)}; ts.push_back(t.first.empty() ? c : Z3_mk_mul(x, 2, two)); } return ts.empty() ? zero : Z3_mk_add(x, ts.size(), ts.data()); };
  Z3_ast P = term(p);
  for (auto& f : facts()) { Z3_ast t = term(f.first); Z3_solver_assert(x, s, f.second == 2 ? Z3_mk_gt(x, t, zero) : f.second == 1 ? Z3_mk_ge(x, t, zero) : f.second == -1 ? Z3_mk_le(x, t, zero) : Z3_mk_lt(x, t, zero)); }
  for (auto& e : eqs()) Z3_solver_assert(x, s, Z3_mk_eq(x, term(e), zero));
  Z3_params pr = Z3_mk_params(x); Z3_params_inc_ref(x, pr); Z3_params_set_uint(x, pr, Z3_mk_string_symbol(x, "timeout"), 200); Z3_solver_set_params(x, s, pr);
  int res = 0;
  for (int k : {2, 1, -2, -1}) {
    Z3_solver_push(x, s);
    Z3_solver_assert(x, s, k == 2 ? Z3_mk_le(x, P, zero) : k == 1 ? Z3_mk_lt(x, P, zero) : k == -1 ? Z3_mk_gt(x, P, zero) : Z3_mk_ge(x, P, zero));
    Z3_lbool r = Z3_solver_check(x, s); Z3_solver_pop(x, s, 1);
    if (r == Z3_L_FALSE) { res = k; break; }
  }
  Z3_params_dec_ref(x, pr); Z3_solver_dec_ref(x, s);
  (*memo)[mk] = res; return res;
}
static void pcAdd(Expr* c) {
  if (isC(c)) return;
  if (c->unsup) { incomplete("path constraint outside the theory"); return; }
  if (c->op == GS_AND && c->ty == 1) { pcAdd(c->a); pcAdd(c->b); return; }
  if (g_real && (c->op == GS_FLT || c->op == GS_FLE) && isC(c->a) && c->b->op == GS_VAR && (c->op == GS_FLT ? asD(c->a->k) >= 0 : asD(c->a->k) > 0)) nf::posVars().insert(c->b->k);
  if (g_real && c->op == GS_FEQ) nf::addEqE(c->a, c->b);
  if (g_real && (c->op == GS_FLT || c->op == GS_FLE)) nf::addFact(c->a, c->b, c->op == GS_FLT);
  if (g_real && c->op == GS_NOT && (c->a->op == GS_FLT || c->a->op == GS_FLE)) nf::addFact(c->a->b, c->a->a, c->a->op == GS_FLE);
  for (size_t i = g_pc->size(); i-- > 0 && i + 64 > g_pc->size();) if ((*g_pc)[i] == c) return;
  g_pc->push_back(c);
  if (!g_pcFP) { std::set<Expr*> s2; g_pcFP = anyFP(c, s2); }
}
// decisions already settled on this path (kept separately from g_pc, which leaves out implied constraints, so that a
// re-execution of a prefix sees exactly the same events)
static std::set<Expr*>* g_known;
// variables whose value the path condition fixes: expressions over them alone are constants of this path
static Bits g_fixed; static bool g_anyFixed = false;
static inline bool isFixed(Expr* e) { return g_anyFixed && g_vars->size() <= 256 && (e->vars & ~g_fixed).none(); }
static void fixVar(Expr* e) {
  while (e->op == GS_ZEXT) e = e->a;
  if (e->op == GS_VAR && !isFP(e->ty)) { g_fixed.set(e->k & 255); g_anyFixed = true; }
}
static void know(Expr* c) {
  if (isC(c) || !g_known->insert(c).second) return;
  if (c->op == GS_EQ && isC(c->b)) fixVar(c->a);
  else if (c->op == GS_EQ && isC(c->a)) fixVar(c->b);
  else if (c->ty == 1 && c->op == GS_VAR) fixVar(c);
  else if (c->ty == 1 && c->op == GS_NOT && c->a->op == GS_VAR) fixVar(c->a);
  if (c->op == GS_AND && c->ty == 1) { know(c->a); know(c->b); }
}
static bool pcHas(Expr* c) { return g_known->count(c) != 0; }
static void trace(const char* k, u64 a, u64 b) {
  static int on = getenv("GS_TRACE") ? 1 : 0;
  extern u64 g_pfxDbg();
  if (on) fprintf(stderr, "EV %d %u %s %llx %llx before=%llx%s expect=%llx\n", getpid(), g_evt, k, (unsigned long long)a, (unsigned long long)b, (unsigned long long)g_pfxDbg(), g_evt == g_work->bound ? " <== bound" : "", (unsigned long long)g_work->pfx);
}
u64 g_pfxDbg() { return g_pfx; }
static inline u64 pmix(u64 h, u64 x) { h ^= x + 0x9E3779B97F4A7C15ull + (h << 6) + (h >> 2); h *= 0xff51afd7ed558ccdull; return h ^ (h >> 31); }
static bool g_noExplore = false;
// one symbolic decision. Returns the direction to take.
static bool decide(Expr* c, bool dir, unsigned site) {
  if (isFixed(c)) return dir;
  if (isC(c)) return c->k;
  if (!g_real) {
    if (pcHas(c)) return dir;
    Expr* n = mkNot(c);
    if (pcHas(n)) return dir;
  }
  unsigned i = g_evt++;
  g_st.events++;
  bool fresh = i >= g_work->bound;
  if (g_real && !fresh && i < g_work->forced.size()) dir = g_work->forced[i];
  Expr* taken = dir ? c : mkNot(c);
  u64 before = g_pfx;
  if (fresh && !g_noExplore) {
    std::vector<u64> m;
    QR r = query({mkNot(taken)}, m);
    if (r == Q_SAT) { emitWork(m, i + 1, pmix(before, site * 2 + !dir), site * 2 + !dir, g_dec, !dir); pcAdd(taken); }
    else if (r == Q_UNSAT) { if (g_real) pcAdd(taken); /* implied; a forced replay of this path learns the same facts */ }
    else pcAdd(taken);
    if (g_real && r == Q_UNSAT) {}
    if (g_real && r != Q_UNSAT) {
      // the concrete direction may be infeasible over the reals; it is then re-examined by later queries
    }
  } else pcAdd(taken);
  know(taken);
  trace("br", site, dir);
  g_pfx = pmix(before, site * 2 + dir);
  g_dec->push_back(dir);
  if (i + 1 == g_work->bound && g_work->pfx && g_pfx != g_work->pfx) incomplete("path diverged from its prediction");
  return dir;
}
// fix e to its concrete value, exploring every other feasible value in further paths
static void concretise(Expr* e, unsigned site, const char* tag) {
  if (isC(e) || isFixed(e)) return;
  if (isFP(e->ty) || e->unsup) {
    // pin (under-approximation, reported)
    incomplete(std::string("pinned to a concrete value: ") + tag);
    if (!e->unsup) { Expr* q = isFP(e->ty) ? intern(GS_FEQ, 1, e, cst(e->ty, e->val), 0, 0) : mkEq(e, cst(e->ty, e->val)); if (q->val) pcAdd(q); }
    return;
  }
  Expr* q = mkEq(e, cst(e->ty, e->val));
  if (isC(q) || pcHas(q)) return;
  unsigned i = g_evt++;
  g_st.events++;
  if (i >= g_work->bound && !g_noExplore) {
    std::vector<Expr*> ex{mkNot(q)};
    for (unsigned n = 0;; n++) {
      if (n >= g_concLimit) { incomplete(std::string("too many values when concretising: ") + tag); break; }
      std::vector<u64> m;
      QR r = query(ex, m);
      if (r != Q_SAT) break;
      g_evAssign = &m; g_evEpoch++;
      u64 v = evalE(e);
      emitWork(m, i + 1, pmix(g_pfx, pmix(site * 2 + 1, v)), site * 2 + 1, g_dec, 1);
      ex.push_back(mkNot(mkEq(e, cst(e->ty, v))));
    }
  }
  pcAdd(q);
  know(q);
  trace("conc", site, e->val);
  g_pfx = pmix(g_pfx, pmix(site * 2 + 1, e->val));
  g_dec->push_back(1);
  if (i + 1 == g_work->bound && g_work->pfx && g_pfx != g_work->pfx) incomplete("path diverged from its prediction");
}

static void violationNow(const std::string& kind, const std::string& msg) {
  emitViolation(kind, msg, *g_inputs);
  flushAndExit("violation");
}

// ------------------------------------------------------------------ checked heap
static const u64 ARENA = 0x200000000000ull;
static const u64 ARENA_SIZE = 1ull << 32;
static unsigned char* g_map; // 1 byte per 8 bytes: 0 = unaddressable, 1..8 = bytes usable, 9 = freed
static u64 g_brk = 0;
struct Blk { u64 base, size; bool freed; };
static Blk* g_blk; static size_t g_nblk = 0; static const size_t MAXBLK = 1 << 23;
static void arenaInit() {
  if (g_map) return;
  void* p = mmap((void*)ARENA, ARENA_SIZE, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE | MAP_FIXED_NOREPLACE, -1, 0);
  if (p != (void*)ARENA) { fprintf(stderr, "gs: cannot map arena\n"); _exit(3); }
  g_map = (unsigned char*)mmap(0, ARENA_SIZE / 8, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0);
  g_blk = (Blk*)mmap(0, MAXBLK * sizeof(Blk), PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0);
  g_brk = ARENA + 4096;
}
static inline bool inArena(u64 a) { return a - ARENA < ARENA_SIZE; }
static void* arenaAlloc(u64 n, u64 align) {
  arenaInit();
  if (align < 16) align = 16;
  u64 b = (g_brk + 32 + align - 1) & ~(align - 1);
  if (n > (1ull << 30) || b + n + 64 > ARENA + ARENA_SIZE || g_nblk >= MAXBLK) return nullptr;
  g_brk = b + n;
  g_blk[g_nblk++] = {b, n, false};
  u64 i = (b - ARENA) / 8, full = n / 8;
  memset(g_map + i, 8, full);
  if (n & 7) g_map[i + full] = n & 7;
  memset((void*)b, 0xBE, n);
  return (void*)b;
}
static Blk* findBlk(u64 a) {
  size_t lo = 0, hi = g_nblk;
  while (lo < hi) { size_t m = (lo + hi) / 2; if (g_blk[m].base <= a) lo = m + 1; else hi = m; }
  return lo ? &g_blk[lo - 1] : nullptr;
}
static bool okAccess(u64 a, u64 n, unsigned char& why) {
  u64 o = a - ARENA, e = o + n;
  while (o < e) {
    unsigned char m = g_map[o >> 3];
    if (m == 0 || m == 9) { why = m; return false; }
    u64 inG = o & 7, end = (o | 7) + 1;
    u64 stop = end < e ? end : e;
    if ((stop - 1 & 7) >= m) { why = 0; return false; }
    (void)inG;
    o = stop;
  }
  return true;
}
static void memError(u64 a, u64 n, bool wr, unsigned char why) {
  if (!g_inRun) return;
  char b[200];
  Blk* k = findBlk(a);
  snprintf(b, sizeof b, "%s of %llu bytes %s", wr ? "write" : "read", (unsigned long long)n,
           why == 9 ? "from freed memory" : "outside a heap block");
  (void)k;
  violationNow("memory", b);
}
static inline void checkAccess(u64 a, u64 n, bool wr) {
  if (!n) return;
  if (inArena(a)) { unsigned char why = 0; if (!okAccess(a, n, why)) memError(a, n, wr, why); }
  else if (a < 4096 && g_inRun) violationNow("memory", "null pointer access");
}

// ------------------------------------------------------------------ shadow memory
struct SB { Expr* e; u64 i; };
struct SPage { u64 page; unsigned live; SB b[4096]; };
static std::unordered_map<u64, SPage*>* g_pages;
static unsigned short g_filter[1 << 16];
static SPage* lastPage; static u64 lastNo = ~0ull;
static inline unsigned fidx(u64 pg) { return (pg ^ (pg >> 16)) & 0xffff; }
static inline SPage* getPage(u64 pg) {
  if (!g_filter[fidx(pg)]) return nullptr;
  if (pg == lastNo) return lastPage;
  auto it = g_pages->find(pg);
  if (it == g_pages->end()) return nullptr;
  lastNo = pg; lastPage = it->second;
  return it->second;
}
static inline SB* getByte(u64 a) { SPage* p = getPage(a >> 12); if (!p) return nullptr; SB* b = &p->b[a & 4095]; return b->e ? b : nullptr; }
static void setByte(u64 a, Expr* e, unsigned i) {
  u64 pg = a >> 12;
  SPage* p = getPage(pg);
  if (!p) {
    if (!e) return;
    p = (SPage*)calloc(1, sizeof(SPage));
    p->page = pg;
    (*g_pages)[pg] = p; g_filter[fidx(pg)]++;
    lastNo = pg; lastPage = p;
  }
  p->b[a & 4095].e = e; p->b[a & 4095].i = i;
}
static inline void clearRange(u64 a, u64 n) {
  u64 e = a + n;
  while (a < e) {
    u64 pe = (a | 4095) + 1; if (pe > e) pe = e;
    SPage* p = getPage(a >> 12);
    if (p) memset(&p->b[a & 4095], 0, (pe - a) * sizeof(SB));
    a = pe;
  }
}
static Expr* byteOf(Expr* e, unsigned i) { return mkExtract(e, i * 8, 8); }
static Expr* asInt(Expr* e);
static u64 rd(u64 a, unsigned n) { u64 v = 0; memcpy(&v, (void*)a, n); return v; }
// expression for the current contents of memory, null if concrete
static Expr* loadExpr(u64 a, unsigned size, unsigned ty) {
  if (!g_filter[fidx(a >> 12)] && !g_filter[fidx((a + size - 1) >> 12)]) return nullptr;
  SB* first = nullptr;
  bool any = false, whole = true;
  Expr* e0 = nullptr;
  for (unsigned k = 0; k < size; k++) {
    SB* b = getByte(a + k);
    if (b) any = true;
    if (k == 0) { first = b; e0 = b ? b->e : nullptr; }
    if (!b || b->e != e0 || b->i != k) whole = false;
  }
  (void)first;
  if (!any) return nullptr;
  g_st.loadsChecked++;
  // drop stale bytes (memory changed behind our back by uninstrumented code)
  bool stale = false;
  for (unsigned k = 0; k < size; k++) {
    SB* b = getByte(a + k);
    if (!b) continue;
    unsigned char real = *(unsigned char*)(a + k);
    unsigned char want = (b->e->val >> (8 * b->i)) & 0xff;
    if (real != want) {
      if (g_real && isFP(b->e->ty)) continue;
      stale = true;
    }
  }
  if (stale && getenv("GS_DEBUG")) { fprintf(stderr, "stale at %llx size %u\n", (unsigned long long)a, size); abort(); }
  if (stale) { g_st.stale++; clearRange(a, size); incomplete("stale shadow dropped"); return nullptr; }
  if (whole && (W(e0->ty) + 7) / 8 == size) {
    if (e0->ty == ty) return e0;
    if (isFP(e0->ty) && !isFP(ty)) {
      if (e0->op == GS_BV2FP) return e0->a;
      Expr* r = intern(GS_FP2BV, W(e0->ty), e0, 0, 0, 0);
      return W(ty) == W(r->ty) ? r : mkExtract(r, 0, ty);
    }
    if (!isFP(e0->ty) && isFP(ty)) {
      if (W(e0->ty) != W(ty)) return nullptr;
      if (e0->op == GS_FP2BV) return e0->a;
      return intern(GS_BV2FP, ty, e0, 0, 0, 0);
    }
    if (W(e0->ty) < W(ty)) return mkZext(e0, ty);
    return mkExtract(e0, 0, ty);
  }
  Expr* acc = nullptr;
  for (unsigned k = 0; k < size; k++) {
    SB* b = getByte(a + k);
    Expr* x;
    if (!b) x = cst(8, *(unsigned char*)(a + k));
    else {
      Expr* src = asInt(b->e);
      unsigned w = W(src->ty);
      if (8 * b->i + 8 <= w) x = mkExtract(src, 8 * b->i, 8);
      else if (8 * b->i < w) x = mkZext(mkExtract(src, 8 * b->i, w - 8 * b->i), 8);
      else x = cst(8, 0);
    }
    acc = acc ? mkConcat(x, acc) : x;
  }
  if (isFP(ty)) {
    if (W(acc->ty) != W(ty)) return nullptr;
    if (isC(acc)) return nullptr;
    if (acc->op == GS_FP2BV) return acc->a;
    return intern(GS_BV2FP, ty, acc, 0, 0, 0);
  }
  if (W(acc->ty) > W(ty)) acc = mkExtract(acc, 0, ty);
  return isC(acc) ? nullptr : acc;
}
static Expr* asInt(Expr* e) {
  if (!isFP(e->ty)) return e;
  if (e->op == GS_BV2FP) return e->a;
  return intern(GS_FP2BV, W(e->ty), e, 0, 0, 0);
}
static void storeExpr(u64 a, unsigned size, Expr* e) {
  if (!e || isC(e)) { if (g_filter[fidx(a >> 12)] || g_filter[fidx((a + size - 1) >> 12)]) clearRange(a, size); return; }
  for (unsigned k = 0; k < size; k++) setByte(a + k, e, k);
}

// ------------------------------------------------------------------ symbolic addresses
static u64 gcd64(u64 a, u64 b) { while (b) { u64 t = a % b; a = b; b = t; } return a; }
static u64 strideOf(Expr* e, int d = 0) { // every value of e is a multiple of this (0 = only zero)
  if (isC(e)) return e->k;
  if (d > 40) return 1;
  switch (e->op) {
  case GS_ADD: case GS_SUB: return gcd64(strideOf(e->a, d + 1), strideOf(e->b, d + 1));
  case GS_MUL: { u64 x = strideOf(e->a, d + 1), y = strideOf(e->b, d + 1); unsigned __int128 p = (unsigned __int128)x * y; return p >> 32 ? 1 : (u64)p; }
  case GS_SHL: if (isC(e->b)) { u64 s = strideOf(e->a, d + 1); return e->b->k < 32 && s < (1ull << 31) ? s << e->b->k : 1; } return 1;
  case GS_ITE: return gcd64(strideOf(e->b, d + 1), strideOf(e->c, d + 1));
  case GS_ZEXT: return strideOf(e->a, d + 1);
  default: return 1;
  }
}
// Candidate cells of a symbolic access of `size` bytes; false = use concretisation.
static bool candidates(Expr* A, u64 addr, unsigned size, std::vector<u64>& out, unsigned site) {
  if (!inArena(addr) || A->unsup) return false;
  Blk* b = findBlk(addr);
  if (!b || b->freed || addr + size > b->base + b->size) return false;
  // A == base + offset; stride of the symbolic part
  Expr* off = mkBin(GS_SUB, 64, A, cst(64, addr));
  u64 g = strideOf(off);
  if (g == 0 || (g < size && g < (1u << 20) && size % g == 0 && g != size)) return false;
  if (g < size) return false;
  if (g > (1u << 20)) g = g & (~g + 1);
  if (g > b->size) g = b->size;
  u64 first = addr - ((addr - b->base) / g) * g;
  u64 n = 0;
  for (u64 c = first; c + size <= b->base + b->size; c += g) { if (++n > g_iteLimit) return false; out.push_back(c); }
  return true;
}
// The block a symbolic address falls into is settled first: one path per block that is reachable. An address built
// from a constant base inside some block must stay inside that block.
static Expr* inBlock(Expr* A, Blk* b, unsigned size) {
  return mkCmp(GS_ULE, mkBin(GS_SUB, 64, A, cst(64, b->base)), cst(64, b->size - size));
}
static void settleBlock(Expr* A, u64 addr, unsigned size, bool wr, unsigned site) {
  if (A->op == GS_ADD && isC(A->b) && inArena(A->b->k) && A->a->ub < (1ull << 40)) {
    Blk* h = findBlk(A->b->k);
    if (h && A->b->k < h->base + h->size && (addr < h->base || addr + size > h->base + h->size)) memError(addr, size, wr, 0);
  }
  Blk* b = inArena(addr) ? findBlk(addr) : nullptr;
  if (!b || b->freed || addr + size > b->base + b->size || A->unsup) return;
  Expr* in = inBlock(A, b, size);
  if (isC(in) || pcHas(in)) return;
  unsigned i = g_evt++;
  g_st.events++;
  if (i >= g_work->bound && !g_noExplore) {
    std::vector<Expr*> ex{mkNot(in)};
    for (unsigned n = 0; n < 256; n++) {
      std::vector<u64> m;
      if (query(ex, m) != Q_SAT) break;
      g_evAssign = &m; g_evEpoch++;
      u64 v = evalE(A);
      Blk* bv = inArena(v) ? findBlk(v) : nullptr;
      if (!bv || v + size > bv->base + bv->size || bv->freed) { emitWork(m, i + 1, 0, site * 2, g_dec, 1); ex.push_back(mkNot(mkEq(A, cst(64, v)))); break; }
      emitWork(m, i + 1, pmix(g_pfx, pmix(site * 2 + 1, bv->base)), site * 2 + 1, g_dec, 1);
      ex.push_back(mkNot(inBlock(A, bv, size)));
    }
  }
  pcAdd(in); know(in);
  trace("block", site, b->base);
  g_pfx = pmix(g_pfx, pmix(site * 2 + 1, b->base));
  g_dec->push_back(1);
  if (i + 1 == g_work->bound && g_work->pfx && g_pfx != g_work->pfx) incomplete("path diverged from its prediction");
}

extern "C" {
Expr* __gs_args[64];
Expr* __gs_rets[16];
void* __gs_callee;
unsigned __gs_retvalid;

static void desync(Expr* s, unsigned ty, u64 v) {
  if (g_real && isFP(ty)) return;
  incomplete("desynchronised operand");
  if (getenv("GS_DEBUG")) { fprintf(stderr, "desync op=%u ty=%u ety=%u val=%llx actual=%llx\n", s->op, ty, s->ty, (unsigned long long)s->val, (unsigned long long)v); abort(); }
}
static inline Expr* sh(Expr* s, unsigned ty, u64 v) {
  if (!s) return cst(ty, v);
  if (s->val != (v & maskw(W(ty))) || W(s->ty) != W(ty)) { desync(s, ty, v); if (!(g_real && isFP(ty))) return cst(ty, v); }
  return s;
}
static inline Expr* fin(Expr* e) { return isC(e) || isFixed(e) ? nullptr : e; }

Expr* __gs_fcmp(unsigned p, unsigned ty, Expr* sa, u64 va, Expr* sb, u64 vb);
Expr* __gs_bin(unsigned op, unsigned ty, Expr* sa, u64 va, Expr* sb, u64 vb) {
  if (!sa && !sb) return nullptr;
  Expr *a = sh(sa, ty, va), *b = sh(sb, ty, vb);
  if (g_real && (op == GS_FMIN || op == GS_FMAX) && !a->unsup && !b->unsup) {
    Expr* le = __gs_fcmp(5, ty, a, va, b, vb); bool cc = W(ty) == 64 ? asD(va) <= asD(vb) : asF((uint32_t)va) <= asF((uint32_t)vb);
    bool d = le ? decide(le, cc, 0x5e2) : cc;
    return fin(d == (op == GS_FMIN) ? a : b);
  }
  // real-arithmetic model: symbolic values are finite, so inf +- x and NaN op x do not depend on x
  if (g_real && isFP(ty) && W(ty) == 64 && (op == GS_FADD || op == GS_FSUB || op == GS_FMUL || op == GS_FDIV)) {
    bool ia = isC(a) && !std::isfinite(asD(va)), ib = isC(b) && !std::isfinite(asD(vb));
    if ((ia && std::isnan(asD(va))) || (ib && std::isnan(asD(vb)))) return nullptr;
    if ((ia || ib) && (op == GS_FADD || op == GS_FSUB)) return nullptr;
    if (ib && op == GS_FDIV) return nullptr;
  }
  switch (op) {
  case GS_UMIN: return fin(mkIte(mkCmp(GS_ULE, a, b), a, b));
  case GS_UMAX: return fin(mkIte(mkCmp(GS_ULE, a, b), b, a));
  case GS_SMIN: return fin(mkIte(mkCmp(GS_SLE, a, b), a, b));
  case GS_SMAX: return fin(mkIte(mkCmp(GS_SLE, a, b), b, a));
  case GS_UDIV: case GS_SDIV: case GS_UREM: case GS_SREM:
    if (!isC(b)) decide(mkNot(mkEq(b, cst(ty, 0))), b->val != 0, 0xD1u);
    // bucket index of a hash table: split on the key instead of encoding the hash function
    if (op == GS_UREM && isC(b) && a->ub > (1ull << 32) && g_hashSplit) { concretise(a, 0xD2u, "hash value"); return nullptr; }
    break;
  case GS_FDIV:
    if (g_real && !isC(b) && !b->unsup) {
      // division by zero is excluded from the real-arithmetic model
      { int sg = nf::signOf(b, cst(ty, 0)); if (sg == 2 || sg == -2) break; }
      Expr* nz = mkNot(intern(GS_FEQ, 1, b, cst(ty, 0), 0, 0));
      if (asD(b->val) == 0 && W(ty) == 64) { g_cover->insert("real-model:division-by-zero path excluded"); flushAndExit("excluded"); }
      pcAdd(nz);
    }
    break;
  default: break;
  }
  return fin(mkBin(op, ty, a, b));
}
Expr* __gs_cmp(unsigned op, unsigned ty, Expr* sa, u64 va, Expr* sb, u64 vb) {
  if (!sa && !sb) return nullptr;
  Expr *a = sh(sa, ty, va), *b = sh(sb, ty, vb);
  if (op == GS_UMULO || op == GS_SMULO) return fin(intern(op, 1, a, b, 0, 0));
  return fin(mkCmp(op, a, b));
}
// development aid: GS_AUDIT=file has the solver confirm every verdict of the normal forms
static const char* g_audit = getenv("GS_AUDIT");
static bool hasUF(Expr* e, std::set<Expr*>& seen) { return e && seen.insert(e).second && (e->op == GS_UF || (isC(e) && isFP(e->ty) && [&] { bool pi; nf::ratOf(asD(e->k), pi); return pi; }()) || hasUF(e->a, seen) || hasUF(e->b, seen) || hasUF(e->c, seen)); }
static void audit(Expr* holds, const char* what) {
  { std::set<Expr*> seen; if (hasUF(holds, seen)) return; }
  std::vector<u64> m; auto keep = g_st; QR r = query({mkNot(holds)}, m); g_st = keep;
  static unsigned n = 0; n++;
  if (FILE* f = fopen(g_audit, "a")) { if (r == Q_SAT) { std::string in; for (u64 x : m) { char t[40]; snprintf(t, sizeof t, " %.17g", asD(x)); in += t; } fprintf(f, "REFUTED %s [%d]:%s   %s\n", what, getpid(), in.c_str(), nf::show(nf::add(nf::of(holds->op == GS_NOT ? holds->a->a : holds->a), nf::of(holds->op == GS_NOT ? holds->a->b : holds->b), -1), 2).c_str()); } else if (n % 64 == 0) fprintf(f, "%s\n", r == Q_UNSAT ? "ok" : "undecided"); fclose(f); }
}
static Expr* fcmpImpl(unsigned p, unsigned ty, Expr* sa, u64 va, Expr* sb, u64 vb);
unsigned __gs_fv;
Expr* __gs_fcmp(unsigned p, unsigned ty, Expr* sa, u64 va, Expr* sb, u64 vb) {
  Expr* r = fcmpImpl(p, ty, sa, va, sb, vb);
  if (r) __gs_fv = r->val & 1;
  return r;
}
static Expr* fcmpImpl(unsigned p, unsigned ty, Expr* sa, u64 va, Expr* sb, u64 vb) {
  if (!sa && !sb) return nullptr;
  Expr *a = sh(sa, ty, va), *b = sh(sb, ty, vb);
  if (Expr* r = intCmp(p & 7, a, b)) return fin(r);
  if ((p == 7 || p == 8) && !g_real && intOf(a).ok && intOf(b).ok) return cst(1, p == 7);
  if (g_real) {
    // comparisons with infinities
    auto inf = [&](Expr* e) { return isC(e) && W(e->ty) == 64 && std::isinf(asD(e->k)); };
    auto nan = [&](Expr* e) { return isC(e) && W(e->ty) == 64 && std::isnan(asD(e->k)); };
    if (inf(a) || inf(b) || nan(a) || nan(b)) return nullptr; // the concrete outcome holds for every finite value
    if (a == b) { return nullptr; }
    unsigned q = p & 7;
    if (q && q != 7) { // angles of symbolic vectors: compare half planes, then the cross product
      auto isA = [](Expr* e) { return e->op == GS_UF && e->a && e->b && !strcmp(e->name, "atan2"); };
      if ((isA(a) && (isA(b) || isC(b))) || (isC(a) && isA(b))) {
        Expr* z = cst(ty, 0);
        auto sgn = [&](Expr* e) { for (unsigned c : {4u, 2u}) { bool cv = c == 4 ? asD(e->val) < 0 : asD(e->val) > 0; Expr* t = isC(e) ? nullptr : fcmpImpl(c, ty, e, e->val, z, 0); if (t ? isC(t) ? t->k & 1 : decide(t, cv, 0x5e3) : cv) return c == 4 ? -1 : 1; } return 0; };
        auto ks = [&](double d) { u64 k; memcpy(&k, &d, 8); return cst(ty, k); };
        bool far = false; int side = 0;
        auto dir = [&](Expr* e, Expr*& y, Expr*& x) { if (isA(e)) { y = e->a; x = e->b; return; } double d = asD(e->k); if (std::fabs(d) > M_PI) far = true, side = d < 0 ? -1 : 1; y = ks(d == 0 || std::fabs(d) == M_PI ? 0 : std::sin(d)); x = ks(std::fabs(d) == M_PI ? -1 : std::cos(d)); };
        Expr *ya, *xa, *yb, *xb; dir(a, ya, xa); dir(b, yb, xb);
        int c;
        if (far) c = isC(a) ? side : -side;
        else {
          auto half = [&](Expr* y, Expr* x) { int t = sgn(y); return t < 0 ? 0 : t > 0 ? 2 : sgn(x) < 0 ? 3 : 1; };
          int ha = half(ya, xa), hb = half(yb, xb);
          if (ha != hb) c = ha < hb ? -1 : 1;
          else if (ha == 1 || ha == 3) c = 0;
          else c = -sgn(mkBin(GS_FSUB, ty, mkBin(GS_FMUL, ty, xa, yb), mkBin(GS_FMUL, ty, ya, xb)));
        }
        bool yes = q == 1 ? c == 0 : q == 2 ? c > 0 : q == 3 ? c >= 0 : q == 4 ? c < 0 : q == 5 ? c <= 0 : c != 0;
        return cst(1, yes);
      }
    }
    if (q && q != 7 && !a->unsup && !b->unsup) {
      int sg = nf::signOf(a, b);
      bool known = sg != 0, yes = false;
      if (q == 1) { yes = sg == 3; known = sg == 3 || sg == 2 || sg == -2; }
      else if (q == 6) { yes = sg != 3; known = sg == 3 || sg == 2 || sg == -2; }
      else if (q == 2) { yes = sg == 2; known = sg == 2 || sg == 3 || sg < 0; }
      else if (q == 4) { yes = sg == -2; known = sg == -2 || sg == 3 || sg == 1 || sg == 2; }
      else if (q == 3) { yes = sg > 0; known = sg > 0 || sg == -2; }
      else if (q == 5) { yes = sg < 0 || sg == 3; known = sg == 2 || sg < 0 || sg == 3; }
      if (known) {
        g_st.normed++;
        if (g_audit) { Expr* t = q == 1 || q == 6 ? intern(GS_FEQ, 1, a, b, 0, 0) : q == 2 ? intern(GS_FLT, 1, b, a, 0, 0) : q == 3 ? intern(GS_FLE, 1, b, a, 0, 0) : q == 4 ? intern(GS_FLT, 1, a, b, 0, 0) : intern(GS_FLE, 1, a, b, 0, 0); audit((q == 6) != yes ? t : mkNot(t), "sign"); }
        return cst(1, yes);
      }
    }
    Expr* r;
    switch (q) {
    case 0: return nullptr;
    case 1: r = intern(GS_FEQ, 1, a, b, 0, 0); break;
    case 2: r = intern(GS_FLT, 1, b, a, 0, 0); break;
    case 3: r = intern(GS_FLE, 1, b, a, 0, 0); break;
    case 4: r = intern(GS_FLT, 1, a, b, 0, 0); break;
    case 5: r = intern(GS_FLE, 1, a, b, 0, 0); break;
    case 6: r = mkNot(intern(GS_FEQ, 1, a, b, 0, 0)); break;
    default: return nullptr;
    }
    return fin(r);
  }
  auto lt = [&](Expr* x, Expr* y) { return intern(GS_FLT, 1, x, y, 0, 0); };
  auto le = [&](Expr* x, Expr* y) { return intern(GS_FLE, 1, x, y, 0, 0); };
  auto eq = [&](Expr* x, Expr* y) { return intern(GS_FEQ, 1, x, y, 0, 0); };
  auto nan = [&](Expr* x) { return isC(x) ? cst(1, W(x->ty) == 64 ? std::isnan(asD(x->k)) : std::isnan(asF(x->k))) : intern(GS_FISNAN, 1, x, 0, 0, 0); };
  auto uno = [&]() { return mkBin(GS_OR, 1, nan(a), nan(b)); };
  Expr* r;
  switch (p) {
  case 0: return nullptr;
  case 1: r = eq(a, b); break;
  case 2: r = lt(b, a); break;
  case 3: r = le(b, a); break;
  case 4: r = lt(a, b); break;
  case 5: r = le(a, b); break;
  case 6: r = mkBin(GS_OR, 1, lt(a, b), lt(b, a)); break; // one
  case 7: r = mkNot(uno()); break;
  case 8: r = uno(); break;
  case 9: r = mkBin(GS_OR, 1, uno(), eq(a, b)); break;
  case 10: r = mkNot(le(a, b)); break;
  case 11: r = mkNot(lt(a, b)); break;
  case 12: r = mkNot(le(b, a)); break;
  case 13: r = mkNot(lt(b, a)); break;
  case 14: r = mkNot(eq(a, b)); break;
  default: return nullptr;
  }
  return fin(r);
}
Expr* __gs_cast(unsigned op, unsigned from, unsigned to, Expr* s, u64 v) {
  if (!s) return nullptr;
  switch (op) {
  case GS_ZEXT: return fin(mkZext(s, to));
  case GS_SEXT: return fin(mkSext(s, to));
  case GS_TRUNC: return fin(mkExtract(s, 0, to));
  case GS_FP2BV: return fin(asInt(s));
  case GS_BV2FP: return s->op == GS_FP2BV ? s->a : intern(GS_BV2FP, to, s, 0, 0, 0);
  case GS_FPTOSI: case GS_FPTOUI: {
    IntD q = intOf(s);
    if (q.ok && !isC(s)) {
      Expr* t = q.e; Rng g = srange(t);
      if (q.s) { t = withRng(mkBin(GS_SDIV, 64, t, cst(64, 1ull << q.s)), g.lo / (1 << q.s), g.hi / (1 << q.s)); g = srange(t); }
      if (op == GS_FPTOUI && g.lo < 0) { Expr* nn = mkCmp(GS_SLE, cst(64, 0), t); bool d = isC(nn) ? nn->k : decide(nn, (int64_t)t->val >= 0, 0xC7u); if (!d) { incomplete("negative number converted to unsigned"); concretise(s, 0xC5u, "float to int conversion"); return nullptr; } g.lo = 0; t = withRng(mkIte(mkCmp(GS_SLT, t, cst(64, 0)), cst(64, 0), t), 0, g.hi); }
      Rng f = fullRng(W(to)); if (op == GS_FPTOUI) f = {0, ((i128)1 << W(to)) - 1};
      if (g.lo >= f.lo && g.hi <= f.hi) { Expr* r = W(to) == 64 ? t : mkExtract(t, 0, to); if (W(to) > 1) withRng(r, g.lo, g.hi <= fullRng(W(to)).hi ? g.hi : fullRng(W(to)).hi); return fin(r); }
    } }
    if (g_real) { // truncation towards zero by a ladder of case splits
      if (s->unsup || W(from) != 64) { concretise(s, 0xC5u, "float to int conversion"); return nullptr; }
      double x = asD(s->val), got = std::trunc(x), k = 0;
      auto less = [&](double c) { Expr* e = __gs_fcmp(4, from, s, s->val, nullptr, fromD(c)); bool cc = x < c; return e ? decide(e, cc, 0xC5u) : cc; }; // x < c
      auto atMost = [&](double c) { Expr* e = __gs_fcmp(5, from, s, s->val, nullptr, fromD(c)); bool cc = x <= c; return e ? decide(e, cc, 0xC6u) : cc; };
      if (op == GS_FPTOUI || !atMost(-1)) { while (k < 64 && !less(k + 1)) k++; }
      else { k = -1; while (k > -64 && atMost(k - 1)) k--; }
      if (std::fabs(k) >= 64) { incomplete("float to int conversion beyond 64"); }
      else if (k != got) { incomplete("float to int conversion on the other side of an integer"); flushAndExit("excluded"); }
      return nullptr;
    }
    return fin(intern(op, to, s, 0, 0, 0));
  default: return fin(intern(op, to, s, 0, 0, 0));
  }
}
Expr* __gs_un(unsigned op, unsigned ty, Expr* s, u64 v) {
  if (!s) return nullptr;
  if (op == GS_FSQRT && g_real && !s->unsup) {
    if (asD(s->val) < 0 && W(ty) == 64) { g_cover->insert("real-model:sqrt of negative path excluded"); flushAndExit("excluded"); }
    { int sg = nf::sos(s) ? 1 : nf::signOf(s, cst(ty, 0)); if (sg == 1 && nf::sos(s)) nf::addFact(cst(ty, 0), s, false); if (!(sg == 1 || sg == 2 || sg == 3)) pcAdd(intern(GS_FLE, 1, cst(ty, 0), s, 0, 0)); }
    Expr* e = intern(op, ty, s, 0, 0, 0);
    return e;
  }
  return fin(intern(op, ty, s, 0, 0, 0));
}
Expr* __gs_math(const char* name, unsigned op, unsigned ty, Expr* sa, u64 va, Expr* sb, u64 vb, Expr*, u64 res) {
  if (!sa && !sb) return nullptr;
  if (op == GS_FSQRT || op == GS_FABS || op == GS_FFLOOR || op == GS_FCEIL || op == GS_FTRUNC || op == GS_FROUND || op == GS_FRINT)
    return __gs_un(op, ty, sa, va);
  if (op == GS_FMIN || op == GS_FMAX) return __gs_bin(op, ty, sa, va, sb, vb);
  Expr* a = sh(sa, ty, va);
  if (!strcmp(name, "cabs")) name = "hypot";
  if (g_real && !strcmp(name, "hypot")) { // exact: sqrt(a^2 + b^2)
    Expr* b = sh(sb, ty, vb);
    Expr* q = fin(mkBin(GS_FADD, ty, mkBin(GS_FMUL, ty, a, a), mkBin(GS_FMUL, ty, b, b)));
    return q ? __gs_un(GS_FSQRT, ty, q, 0) : nullptr;
  }
  bool two = !strcmp(name, "atan2") || !strcmp(name, "pow") || !strcmp(name, "hypot") || op == GS_FREM;
  Expr* b = two ? sh(sb, ty, vb) : nullptr;
  if (op == GS_FREM) { return fin(intern(GS_FREM, ty, a, b, 0, 0)); }
  if (!strcmp(name, "pow") && g_real && isC(b) && asD(b->k) == 2.0) return fin(mkBin(GS_FMUL, ty, a, a));
  static std::map<std::string, const char*>* names; // canonical pointer per name
  if (!names) names = new std::map<std::string, const char*>();
  const char*& nm = (*names)[name]; if (!nm) nm = strdup(name);
  return intern(GS_UF, ty, a, b, 0, 0, nm, res, true);
}
Expr* __gs_select(unsigned ty, Expr* sc, bool c, Expr* sa, u64 va, Expr* sb, u64 vb) {
  if (!sc) return c ? sa : sb;
  if (ty == 0) return nullptr;
  Expr *a = sh(sa, ty, va), *b = sh(sb, ty, vb);
  if (g_real && isFP(ty)) {
    bool d = decide(sc, c, 0x5e1); // case split rather than a conditional term
    return fin(d ? a : b);
  }
  return fin(mkIte(sc, a, b));
}
Expr* __gs_gep(Expr* acc, u64 accVal, Expr* sIdx, u64 idxVal, u64 scale) {
  if (!acc && !sIdx) return nullptr;
  Expr* base = acc ? acc : cst(64, accVal);
  Expr* idx = sIdx ? sIdx : cst(64, idxVal);
  return fin(mkBin(GS_ADD, 64, base, mkBin(GS_MUL, 64, idx, cst(64, scale))));
}
Expr* __gs_load(u64 a, Expr* sA, unsigned size, unsigned ty) {
  checkAccess(a, size, false);
  if (sA && !isC(sA) && !isFixed(sA)) {
    std::vector<u64> cand;
    settleBlock(sA, a, size, false, 0x10ad);
    if (candidates(sA, a, size, cand, 0x10ad)) {
      // newest value first; group equal values
      Expr* r = nullptr;
      std::vector<std::pair<Expr*, Expr*>> groups; // value -> condition
      for (u64 c : cand) {
        Expr* v = loadExpr(c, size, ty);
        if (!v) { u64 raw = rd(c, size); v = cst(ty, raw); }
        Expr* q = mkEq(sA, cst(64, c));
        if (isC(q) && !q->k) continue;
        bool found = false;
        for (auto& g : groups) if (g.first == v) { g.second = mkBin(GS_OR, 1, g.second, q); found = true; break; }
        if (!found) groups.push_back({v, q});
      }
      for (auto& g : groups) r = r ? mkIte(g.second, g.first, r) : g.first;
      return r ? fin(r) : nullptr;
    }
    concretise(sA, 0x10ae, "address of a load");
  }
  Expr* r = loadExpr(a, size, ty);
  return r && isFixed(r) ? nullptr : r;
}
void __gs_store(u64 a, Expr* sA, unsigned size, unsigned ty, Expr* s, u64 v) {
  checkAccess(a, size, true);
  if (sA && !isC(sA) && !isFixed(sA)) {
    std::vector<u64> cand;
    settleBlock(sA, a, size, true, 0x570e);
    if (ty && candidates(sA, a, size, cand, 0x570e)) {
      Expr* nv = s ? s : cst(ty, v);
      for (u64 c : cand) {
        Expr* q = mkEq(sA, cst(64, c));
        if (isC(q) && !q->k) continue;
        Expr* old = loadExpr(c, size, ty);
        if (!old) old = cst(ty, rd(c, size));
        Expr* r = mkIte(q, nv, old);
        // the concrete store happens right after this call; only the shadow of other cells changes here
        storeExpr(c, size, fin(r));
      }
      return;
    }
    concretise(sA, 0x570f, "address of a store");
  }
  storeExpr(a, size, s);
}
bool __gs_br(Expr* s, bool c, unsigned site) {
  if (!s) return c;
  if (s->unsup) {
    incomplete("branch on a value outside the theory");
    return c;
  }
  if (!g_real && s->val != c) { incomplete("desynchronised branch"); return c; }
  return decide(s, c, site);
}
void __gs_switch(Expr* s, u64 v, unsigned ty, const u64* cases, unsigned n, unsigned site) {
  if (!s) return;
  for (unsigned i = 0; i < n; i++) {
    bool eq = cases[i] == v;
    decide(mkEq(s, cst(ty, cases[i])), eq, site + 0x8000 + i);
    if (eq) return;
  }
}
void __gs_conc_tag(Expr* s, u64 v, unsigned ty, const char* tag) { if (s) concretise(s, 0xC0C0, tag); }
void __gs_conc(Expr* s, u64 v, unsigned ty) { if (s) concretise(s, 0xC0C1, "operand"); }
void __gs_memcpy(u64 d, Expr* sd, u64 s, Expr* ss, u64 n, Expr* sn) {
  if (sd) concretise(sd, 0x3e1, "memcpy destination");
  if (ss) concretise(ss, 0x3e2, "memcpy source");
  if (sn) concretise(sn, 0x3e3, "memcpy length");
  if (!n) return;
  checkAccess(s, n, false);
  checkAccess(d, n, true);
  if (d == s) return;
  bool any = false;
  for (u64 p = s >> 12; p <= (s + n - 1) >> 12 && !any; p++) if (g_filter[fidx(p)]) any = true;
  if (!any) { clearRange(d, n); return; }
  std::vector<SB> tmp(n);
  for (u64 k = 0; k < n; k++) { SB* b = getByte(s + k); if (b) tmp[k] = *b; else tmp[k] = SB{nullptr, 0}; }
  for (u64 k = 0; k < n; k++) {
    if (tmp[k].e) {
      unsigned char real = *(unsigned char*)(s + k), want = (tmp[k].e->val >> (8 * tmp[k].i)) & 0xff;
      if (real != want && !(g_real && isFP(tmp[k].e->ty))) { tmp[k].e = nullptr; g_st.stale++; incomplete("stale shadow dropped"); }
    }
    setByte(d + k, tmp[k].e, tmp[k].i);
  }
}
void __gs_memset(u64 d, Expr* sd, Expr* sv, u64 v, u64 n, Expr* sn) {
  if (sd) concretise(sd, 0x3e4, "memset destination");
  if (sn) concretise(sn, 0x3e5, "memset length");
  checkAccess(d, n, true);
  if (sv && !isC(sv)) { for (u64 k = 0; k < n; k++) storeExpr(d + k, 1, sv); return; }
  clearRange(d, n);
}
void __gs_alloca(u64 p, u64 n) { if (n) clearRange(p, n); }
void __gs_copyshadow(u64 d, u64 s, u64 n) {
  if (!s || d == s) { return; }
  for (u64 k = 0; k < n; k++) { SB* b = getByte(s + k); setByte(d + k, b ? b->e : nullptr, b ? b->i : 0); }
}

// ---- redirected allocation functions
static void* gsAlloc(u64 n, u64 al, bool thr) {
  void* p = arenaAlloc(n, al);
  if (!p) { if (thr) throw std::bad_alloc(); return nullptr; }
  return p;
}
static void gsFree(void* p) {
  if (!p) return;
  u64 a = (u64)p;
  if (!inArena(a)) { ::free(p); return; }
  Blk* b = findBlk(a);
  if (!b || b->base != a) { if (g_inRun) violationNow("memory", "free of a pointer that is not a block start"); return; }
  if (b->freed) { if (g_inRun) violationNow("memory", "double free"); return; }
  b->freed = true;
  if (b->size) memset(g_map + (a - ARENA) / 8, 9, (b->size + 7) / 8);
  clearRange(a, b->size);
}
void* __gsw__Znwm(size_t n) { return gsAlloc(n, 16, true); }
void* __gsw__Znam(size_t n) { return gsAlloc(n, 16, true); }
void* __gsw__ZnwmRKSt9nothrow_t(size_t n, const void*) { return gsAlloc(n, 16, false); }
void* __gsw__ZnwmSt11align_val_t(size_t n, size_t al) { return gsAlloc(n, al, true); }
void __gsw__ZdlPv(void* p) { gsFree(p); }
void __gsw__ZdlPvm(void* p, size_t) { gsFree(p); }
void __gsw__ZdaPv(void* p) { gsFree(p); }
void __gsw__ZdaPvm(void* p, size_t) { gsFree(p); }
void __gsw__ZdlPvSt11align_val_t(void* p, size_t) { gsFree(p); }
void __gsw__ZdlPvmSt11align_val_t(void* p, size_t, size_t) { gsFree(p); }
void* __gsw_malloc(size_t n) { return gsAlloc(n, 16, false); }
void __gsw_free(void* p) { gsFree(p); }
void* __gsw_calloc(size_t a, size_t b) { void* p = gsAlloc(a * b, 16, false); if (p) memset(p, 0, a * b); return p; }
void* __gsw_realloc(void* o, size_t n) {
  if (!o) return gsAlloc(n, 16, false);
  if (!inArena((u64)o)) return realloc(o, n);
  Blk* b = findBlk((u64)o);
  void* p = gsAlloc(n, 16, false);
  if (!p) return nullptr;
  u64 k = b->size < n ? b->size : n;
  if (k) { __gs_memcpy((u64)p, nullptr, (u64)o, nullptr, k, nullptr); memcpy(p, o, k); }
  gsFree(o);
  return p;
}
int __gsw_posix_memalign(void** r, size_t al, size_t n) { *r = gsAlloc(n, al, false); return *r ? 0 : ENOMEM; }
void* __gsw_aligned_alloc(size_t al, size_t n) { return gsAlloc(n, al, false); }
static int cmpBytes(const unsigned char* a, const unsigned char* b, size_t n) {
  for (size_t i = 0; i < n; i++) {
    checkAccess((u64)a + i, 1, false); checkAccess((u64)b + i, 1, false);
    Expr *x = loadExpr((u64)a + i, 1, 8), *y = loadExpr((u64)b + i, 1, 8);
    if (x || y) decide(mkEq(sh(x, 8, a[i]), sh(y, 8, b[i])), a[i] == b[i], 0x3c3);
    if (a[i] != b[i]) {
      if (x || y) decide(mkCmp(GS_ULT, sh(x, 8, a[i]), sh(y, 8, b[i])), a[i] < b[i], 0x3c4);
      return a[i] < b[i] ? -1 : 1;
    }
  }
  return 0;
}
int __gsw_memcmp(const void* a, const void* b, size_t n) { return cmpBytes((const unsigned char*)a, (const unsigned char*)b, n); }
int __gsw_bcmp(const void* a, const void* b, size_t n) { return cmpBytes((const unsigned char*)a, (const unsigned char*)b, n); }
size_t __gsw_strlen(const char* s) { return strlen(s); }
void* __gsw_memchr(const void* s, int c, size_t n) {
  for (size_t i = 0; i < n; i++) if (loadExpr((u64)s + i, 1, 8)) { concretise(loadExpr((u64)s + i, 1, 8), 0x3c5, "memchr"); }
  return const_cast<void*>(memchr(s, c, n));
}
} // extern C

// operator delete reached from uninstrumented code with an arena pointer
void operator delete(void* p) noexcept { if (inArena((u64)p)) gsFree(p); else ::free(p); }
void operator delete(void* p, size_t) noexcept { if (inArena((u64)p)) gsFree(p); else ::free(p); }
void operator delete[](void* p) noexcept { if (inArena((u64)p)) gsFree(p); else ::free(p); }
void operator delete[](void* p, size_t) noexcept { if (inArena((u64)p)) gsFree(p); else ::free(p); }
void* operator new(size_t n) { void* p = malloc(n ? n : 1); if (!p) abort(); return p; }
void* operator new[](size_t n) { void* p = malloc(n ? n : 1); if (!p) abort(); return p; }

// ------------------------------------------------------------------ harness API
static Expr* newVar(const char* name, unsigned ty, u64 lo, u64 hi, u64 def) {
  u64 id = g_vars->size();
  if (id >= g_inputs->size()) g_inputs->push_back(def);
  Expr* e = intern(GS_VAR, ty, 0, 0, 0, id, nullptr, (*g_inputs)[id] & (isFP(ty) ? ~0ull : maskw(W(ty))), true);
  g_vars->push_back(e);
  g_inputInfo->push_back({name, ty, lo, hi});
  Z(e);
  return e;
}
static void setRet(Expr* e) { __gs_rets[0] = (e && !isC(e)) ? e : nullptr; __gs_retvalid = 1; }
static Expr* argShadow(void* self, unsigned slot) { return __gs_callee == self ? __gs_args[slot] : nullptr; }
static void assumeE(Expr* c, bool conc) {
  if (!c || isC(c)) { if (!(c ? c->k : conc)) flushAndExit("assumefail"); return; }
  if (c->unsup) { if (!conc) flushAndExit("assumefail"); incomplete("assumption outside the theory"); return; }
  unsigned i = g_evt++;
  bool forced = g_real && i < g_work->bound && i < g_work->forced.size();
  if (conc || forced) {
    pcAdd(c); know(c); g_pfx = pmix(g_pfx, 0xA55u); g_dec->push_back(1);
    if (i + 1 == g_work->bound && g_work->pfx && g_pfx != g_work->pfx) incomplete("path diverged from its prediction");
    return;
  }
  std::vector<u64> m;
  QR r = query({c}, m);
  if (r == Q_SAT) { emitWork(m, i + 1, pmix(g_pfx, 0xA55u), 0xA55u, g_dec, 1); flushAndExit("assumefail"); }
  flushAndExit(r == Q_UNSAT ? "assumefail" : "unknown");
}
extern "C" {
u64 gs_range(const char* name, u64 lo, u64 hi) {
  unsigned w = 64 - (hi ? __builtin_clzll(hi) : 63);
  if (w < 1) w = 1;
  Expr* v = newVar(name, w, lo, hi, lo);
  Expr* z = mkZext(v, 64);
  __gs_callee = nullptr;
  Expr* c = mkBin(GS_AND, 1, mkCmp(GS_ULE, cst(64, lo), z), mkCmp(GS_ULE, z, cst(64, hi)));
  if (!isC(c)) { if (c->val) { pcAdd(c); know(c); } else assumeE(c, false); }
  setRet(z);
  return z->val;
}
u64 gs_u64(const char* name) { Expr* v = newVar(name, 64, 0, ~0ull, 0); __gs_callee = nullptr; setRet(v); return v->val; }
uint32_t gs_u32(const char* name) { Expr* v = newVar(name, 32, 0, ~0u, 0); __gs_callee = nullptr; setRet(v); return v->val; }
bool gs_bool(const char* name) { Expr* v = newVar(name, 1, 0, 1, 0); __gs_callee = nullptr; setRet(v); return v->val; }
double gs_double(const char* name, double def) { Expr* v = newVar(name, GS_FPFLAG | 64, 0, 0, fromD(def)); __gs_callee = nullptr; setRet(v); return asD(v->val); }
void gs_assume(bool c) {
  Expr* s = argShadow((void*)gs_assume, 0);
  __gs_callee = nullptr; __gs_retvalid = 0;
  assumeE(s, c);
}
void gs_assert(bool c, const char* msg) {
  Expr* s = argShadow((void*)gs_assert, 0);
  __gs_callee = nullptr; __gs_retvalid = 0;
  g_st.asserts++;
  g_cover->insert(std::string("assert:") + msg);
  if (!s || isC(s)) {
    if (!(s ? (bool)s->k : c)) violationNow("assert", msg);
    g_st.trivially++;
    return;
  }
  if (s->unsup) { incomplete(std::string("assertion outside the theory: ") + msg); if (!c) violationNow("assert", msg); return; }
  if (!c && !g_real) violationNow("assert", msg);
  std::vector<u64> m;
  QR r = query({mkNot(s)}, m);
  if (g_real && !c && r != Q_UNSAT) emitViolation("assert", msg, *g_inputs); // this path's own input is a candidate, too
  if (r == Q_SAT) emitViolation("assert", msg, m), pcAdd(s), know(s);
  else if (r == Q_UNSAT) g_st.discharged++;
  else if (g_real && !c) flushAndExit("violation");
  else incomplete(std::string("assertion undecided: ") + msg);
}
u64 gs_fork(u64 x) {
  Expr* s = argShadow((void*)gs_fork, 0);
  __gs_callee = nullptr;
  if (s) concretise(s, 0xF0F0, "gs_fork");
  setRet(nullptr);
  return x;
}
u64 gs_choose(const char* name, u64 n) {
  __gs_callee = nullptr;
  u64 v = gs_range(name, 0, n - 1);
  Expr* s = __gs_rets[0];
  if (s) concretise(s, 0xF0F1, name);
  setRet(nullptr);
  return v;
}
// equality of floating point results: exact in the real-arithmetic model, within a tolerance in concrete runs
bool gs_close(double a, double b, double tol) {
  Expr *x = argShadow((void*)gs_close, 0), *y = argShadow((void*)gs_close, 1);
  __gs_callee = nullptr;
  double sc = std::fmax(1.0, std::fmax(std::fabs(a), std::fabs(b)));
  bool c = std::fabs(a - b) <= tol * sc;
  if (g_real && (x || y)) {
    Expr *p = sh(x, GS_FPFLAG | 64, fromD(a)), *q = sh(y, GS_FPFLAG | 64, fromD(b));
    if (p == q) { setRet(nullptr); return true; }
    if (!p->unsup && !q->unsup && nf::equal(p, q)) { if (g_audit) audit(intern(GS_FEQ, 1, p, q, 0, 0), "equal"); g_st.normed++; g_st.discharged++; setRet(nullptr); return true; }
    Expr* r = intern(GS_FEQ, 1, p, q, 0, 0, nullptr, c, true);
    r->val = c;
    setRet(r);
    return c;
  }
  setRet(nullptr);
  return c;
}
void gs_cover(const char* n) { g_cover->insert(n); }
int gs_is_symbolic_run() { return 1; }
void gs_missing() { incomplete("missing code: a function outside the encoded set was called"); flushAndExit("excluded"); }
int gs_tier() { const char* t = getenv("VERIF_TIER"); return t && !strcmp(t, "thorough"); }
void gs_stop() { flushAndExit("done"); }
void gs_mode_real() { g_real = true; }
void gs_config(const char* k, u64 v) {
  if (!strcmp(k, "ite")) g_iteLimit = v;
  else if (!strcmp(k, "hashsplit")) g_hashSplit = v;
  else if (!strcmp(k, "conc")) g_concLimit = v;
  else if (!strcmp(k, "qtimeout")) { g_qTimeout = v; g_qTimeout2 = v * 3; }
  else if (!strcmp(k, "pathsec")) { g_pathSeconds = v; alarm(v); }
}
}

// ------------------------------------------------------------------ driver
struct Harness { const char* name; void (*fn)(); };
static std::vector<Harness>& harnesses() { static std::vector<Harness> v; return v; }
extern "C" void gs_register(const char* name, void (*fn)()) { harnesses().push_back({name, fn}); }

static void onSignal(int sig) {
  static volatile sig_atomic_t once = 0;
  if (once++) _exit(4);
  const char* n = sig == SIGSEGV ? "segmentation fault" : sig == SIGFPE ? "arithmetic exception" : sig == SIGABRT ? "abort (assertion failure or terminate)" : sig == SIGBUS ? "bus error" : "illegal instruction";
  if (sig == SIGALRM) { emitViolation("timeout", "no termination within the path time limit", *g_inputs); flushAndExit("timeout"); }
  if (!g_inRun) _exit(5);
  emitViolation("crash", n, *g_inputs);
  flushAndExit("crash");
}
static void runChild(const Work& w, int fd) {
  g_fd = fd;
  static Work wk; wk = w; g_work = &wk;
  g_inputs = new std::vector<u64>(w.in);
  g_inputInfo = new std::vector<Input>();
  g_vars = new std::vector<Expr*>();
  g_pc = new std::vector<Expr*>();
  g_known = new std::set<Expr*>();
  g_dec = new std::vector<uint8_t>();
  g_models = new std::vector<std::vector<u64>>();
  g_incomplete = new std::set<std::string>();
  g_cover = new std::set<std::string>();
  g_out = new std::string();
  g_defOf = new std::unordered_map<Expr*, Z3_ast>();
  static char alt[1 << 16];
  stack_t ss; ss.ss_sp = alt; ss.ss_size = sizeof alt; ss.ss_flags = 0; sigaltstack(&ss, 0);
  struct sigaction sa; memset(&sa, 0, sizeof sa); sa.sa_handler = onSignal; sa.sa_flags = SA_ONSTACK | SA_NODEFER;
  for (int s : {SIGSEGV, SIGFPE, SIGABRT, SIGBUS, SIGILL, SIGALRM}) sigaction(s, &sa, 0);
  alarm(g_pathSeconds);
  g_inRun = true;
  __gs_callee = nullptr;
  try { harnesses()[w.h].fn(); }
  catch (std::exception& e) { emitViolation("exception", std::string("uncaught exception: ") + e.what(), *g_inputs); flushAndExit("exception"); }
  catch (...) { emitViolation("exception", "uncaught exception", *g_inputs); flushAndExit("exception"); }
  flushAndExit("done");
}

struct HState {
  std::map<unsigned, u64> siteCount;
  std::vector<std::vector<Work>> q; // unused
  std::deque<Work> queue;
  u64 launched = 0, paths = 0, assumefail = 0, excluded = 0, lost = 0, timeouts = 0; double cpu = 0;
  Stats st; std::map<std::string, u64> inc; std::map<std::string, u64> cover;
  std::vector<std::string> viol; std::map<std::string, int> violCount;
  size_t maxPc = 0, maxExpr = 0; std::set<int> fns; bool dropped = false; int running = 0; u64 nviol = 0;
  std::vector<std::string> samples;
};
static std::string jstr(const std::string& s) {
  std::string r = "\"";
  for (unsigned char c : s) { if (c == '"' || c == '\\') { r += '\\'; r += c; } else if (c < 32) { char b[8]; snprintf(b, 8, "\\u%04x", c); r += b; } else r += c; }
  return r + "\"";
}
extern "C" int gs_main(int argc, char** argv, void* fb, void* fe) {
  fnBegin = (FnRec*)fb; fnEnd = (FnRec*)fe;
  double budget = 60; int jobs = 8; std::string out = "", only = ""; int maxViol = 4; u64 maxPaths = ~0ull; bool list = false; unsigned memMB = 3000;
  std::vector<u64> runIn; int runH = -1; (void)runH;
  for (int i = 1; i < argc; i++) {
    std::string a = argv[i];
    if (a == "--time") budget = atof(argv[++i]);
    else if (a == "--jobs") jobs = atoi(argv[++i]);
    else if (a == "--out") out = argv[++i];
    else if (a == "--only") only = argv[++i];
    else if (a == "--max-viol") maxViol = atoi(argv[++i]);
    else if (a == "--max-paths") maxPaths = strtoull(argv[++i], 0, 10);
    else if (a == "--list") list = true;
    else if (a == "--mem") memMB = atoi(argv[++i]);
    else { fprintf(stderr, "unknown argument %s\n", a.c_str()); return 2; }
  }
  auto& H = harnesses();
  std::sort(H.begin(), H.end(), [](const Harness& a, const Harness& b) { return strcmp(a.name, b.name) < 0; });
  if (list) { for (auto& h : H) printf("%s\n", h.name); return 0; }
  arenaInit();
  g_tab = new ExprTable();
  g_pages = new std::unordered_map<u64, SPage*>();
  Z3_config cfg = Z3_mk_config();
  g_ctx = Z3_mk_context(cfg);
  Z3_set_error_handler(g_ctx, [](Z3_context c, Z3_error_code e) { fprintf(stderr, "z3 error: %s\n", Z3_get_error_msg(c, e)); });
  g_solver = Z3_mk_simple_solver(g_ctx);
  Z3_solver_inc_ref(g_ctx, g_solver);
  std::vector<HState> S(H.size());
  std::set<std::string> onlySet;
  { std::string cur; for (char c : only + ",") if (c == ',') { if (!cur.empty()) onlySet.insert(cur); cur.clear(); } else cur += c; }
  for (size_t i = 0; i < H.size(); i++) {
    bool sel = onlySet.empty();
    for (auto& o : onlySet) if (!strncmp(H[i].name, o.c_str(), o.size())) sel = true;
    if (sel) { Work w; w.h = i; S[i].queue.push_back(w); }
  }
  struct Child { pid_t pid; int fd; int h; std::string buf; double t0; };
  std::vector<Child> ch;
  double T0 = now();
  bool stop = false;
  fflush(stdout); fflush(stderr);
  while (true) {
    double t = now();
    if (t - T0 > budget) stop = true;
    while (!stop && (int)ch.size() < jobs) {
      // fairness: harness with the least time used first
      int best = -1;
      for (size_t i = 0; i < H.size(); i++)
        if (!S[i].queue.empty() && S[i].nviol < (u64)maxViol && S[i].launched < maxPaths)
          if (best < 0 || S[i].cpu + S[i].running * 0.01 < S[best].cpu + S[best].running * 0.01) best = i;
      if (best < 0) break;
      HState& s = S[best];
      // prefer the decision site flipped least often so far (bounded scan)
      size_t bi = s.queue.size() - 1; u64 bc = ~0ull;
      size_t scan = std::min<size_t>(s.queue.size(), 64);
      for (size_t k = 0; k < scan; k++) {
        size_t idx = s.queue.size() - 1 - k;
        u64 c = s.siteCount[s.queue[idx].site];
        if (c < bc) { bc = c; bi = idx; }
      }
      Work w = std::move(s.queue[bi]);
      s.queue.erase(s.queue.begin() + bi);
      s.siteCount[w.site]++;
      int p[2];
      if (pipe(p)) { perror("pipe"); return 3; }
      pid_t pid = fork();
      if (pid == 0) {
        close(p[0]);
        for (auto& c : ch) close(c.fd);
        struct rlimit rl; rl.rlim_cur = rl.rlim_max = 0; setrlimit(RLIMIT_CORE, &rl);
        struct rlimit as; as.rlim_cur = as.rlim_max = ((rlim_t)memMB << 20) + (6ull << 30); setrlimit(RLIMIT_AS, &as);
        if (!getenv("GS_VERBOSE")) { int dn = open("/dev/null", 1); if (dn >= 0) { dup2(dn, 1); dup2(dn, 2); } }
        runChild(w, p[1]);
      }
      if (pid < 0) { close(p[0]); close(p[1]); s.queue.push_back(w); usleep(10000); break; }
      close(p[1]);
      s.launched++; s.running++;
      ch.push_back({pid, p[0], best, "", now()});
    }
    if (ch.empty()) break;
    std::vector<struct pollfd> pf;
    for (auto& c : ch) pf.push_back({c.fd, POLLIN, 0});
    poll(pf.data(), pf.size(), 200);
    if (stop && now() - T0 > budget + 1.0) for (auto& c : ch) kill(c.pid, SIGKILL);
    for (size_t i = ch.size(); i-- > 0;) {
      if (now() - ch[i].t0 > 300) kill(ch[i].pid, SIGKILL);
      if (!(pf[i].revents & (POLLIN | POLLHUP | POLLERR))) continue;
      char buf[65536];
      ssize_t n = read(ch[i].fd, buf, sizeof buf);
      if (n > 0) { ch[i].buf.append(buf, n); continue; }
      if (n < 0 && errno == EINTR) continue;
      close(ch[i].fd);
      int st; waitpid(ch[i].pid, &st, 0);
      HState& s = S[ch[i].h];
      s.running--;
      s.cpu += now() - ch[i].t0;
      bool gotS = false;
      size_t pos = 0;
      const std::string& B = ch[i].buf;
      while (pos < B.size()) {
        size_t e = B.find('\n', pos); if (e == std::string::npos) break;
        std::string L = B.substr(pos, e - pos); pos = e + 1;
        if (L.size() < 2) continue;
        if (L[0] == 'W') {
          Work w; w.h = ch[i].h; char* q = &L[2];
          w.bound = strtoul(q, &q, 10); w.pfx = strtoull(q, &q, 10); w.site = strtoul(q, &q, 10); q++;
          while (*q && *q != ' ') { w.in.push_back(strtoull(q, &q, 10)); if (*q == ',') q++; }
          if (*q == ' ') q++;
          while (*q == '0' || *q == '1') w.forced.push_back(*q++ - '0');
          s.queue.push_back(std::move(w));
        } else if (L[0] == 'V') {
          s.nviol++;
          size_t tb = L.find('\t'); size_t t2 = L.find('\t', tb + 1);
          std::string key = L.substr(2, t2 - 2);
          if (s.violCount[key]++ < 3) s.viol.push_back(L.substr(2));
        } else if (L[0] == 'S') {
          gotS = true;
          char status[64]; unsigned long long v[10]; double sol; size_t pcn, en;
          if (sscanf(L.c_str(), "S %63s %llu %llu %llu %llu %llu %llu %llu %llu %llu %llu %lf %zu %zu", status, v, v + 1, v + 2, v + 3, v + 4, v + 5, v + 6, v + 7, v + 8, v + 9, &sol, &pcn, &en) == 14) {
            s.st.queries += v[0]; s.st.sat += v[1]; s.st.unsat += v[2]; s.st.unknown += v[3]; s.st.discharged += v[4]; s.st.asserts += v[5];
            s.st.events += v[6]; s.st.loadsChecked += v[7]; s.st.stale += v[8]; s.st.trivially += v[9]; s.st.solver += sol;
            s.maxPc = std::max(s.maxPc, pcn); s.maxExpr = std::max(s.maxExpr, en);
          }
          std::string stt = status;
          if (stt == "assumefail") s.assumefail++;
          else if (stt == "excluded") s.excluded++;
          else if (stt == "timeout") { s.timeouts++; s.paths++; }
          else s.paths++;
        } else if (L[0] == 'X') { if (s.samples.size() < 2 || (s.samples.size() < 4 && s.paths % 97 == 0)) s.samples.push_back(L.substr(2)); }
        else if (L[0] == 'I') s.inc[L.substr(2)]++;
        else if (L[0] == 'C') s.cover[L.substr(2)]++;
        else if (L[0] == 'F') { char* q = &L[2]; while (*q >= '0' && *q <= '9') { s.fns.insert((int)strtoul(q, &q, 10)); if (*q == ',') q++; } }
      }
      if (!gotS) { s.lost++; }
      ch.erase(ch.begin() + i);
    }
  }
  // report
  std::string J = "{\"harnesses\":[";
  bool firstH = true;
  for (size_t i = 0; i < H.size(); i++) {
    HState& s = S[i];
    if (!s.launched && s.queue.empty()) continue;
    bool exhausted = s.queue.empty() && !s.lost && s.inc.empty() && s.st.unknown == 0 && s.nviol < (u64)maxViol;
    if (!firstH) J += ","; firstH = false;
    J += "\n{\"name\":" + jstr(H[i].name) + ",\"exhausted\":" + (exhausted ? "true" : "false") + ",\"paths\":" + std::to_string(s.paths) +
         ",\"assume_rejected\":" + std::to_string(s.assumefail) + ",\"excluded\":" + std::to_string(s.excluded) + ",\"lost\":" + std::to_string(s.lost) +
         ",\"pending\":" + std::to_string(s.queue.size()) + ",\"queries\":" + std::to_string(s.st.queries) + ",\"sat\":" + std::to_string(s.st.sat) +
         ",\"unsat\":" + std::to_string(s.st.unsat) + ",\"unknown\":" + std::to_string(s.st.unknown) + ",\"asserts\":" + std::to_string(s.st.asserts) +
         ",\"discharged\":" + std::to_string(s.st.discharged) + ",\"concrete_asserts\":" + std::to_string(s.st.trivially) + ",\"events\":" + std::to_string(s.st.events) +
         ",\"loads_validated\":" + std::to_string(s.st.loadsChecked) + ",\"stale\":" + std::to_string(s.st.stale) +
         ",\"max_path_constraints\":" + std::to_string(s.maxPc) + ",\"max_expressions\":" + std::to_string(s.maxExpr);
    char b[128]; snprintf(b, sizeof b, ",\"solver_s\":%.3f,\"cpu_s\":%.3f", s.st.solver, s.cpu); J += b;
    J += ",\"incomplete\":{"; bool f = true; for (auto& k : s.inc) { if (!f) J += ","; f = false; J += jstr(k.first) + ":" + std::to_string(k.second); } J += "}";
    J += ",\"cover\":{"; f = true; for (auto& k : s.cover) { if (!f) J += ","; f = false; J += jstr(k.first) + ":" + std::to_string(k.second); } J += "}";
    J += ",\"functions\":["; f = true; for (int k : s.fns) { if (!f) J += ","; f = false; J += jstr(fnBegin[k].name); } J += "]";
    J += ",\"samples\":["; f = true; for (auto& k : s.samples) { if (!f) J += ","; f = false; J += jstr(k); } J += "]";
    J += ",\"violations\":["; f = true;
    for (auto& v : s.viol) {
      if (!f) J += ","; f = false;
      size_t a = v.find('\t'), c = v.find('\t', a + 1);
      J += "{\"kind\":" + jstr(v.substr(0, a)) + ",\"msg\":" + jstr(v.substr(a + 1, c - a - 1)) + ",\"inputs\":" + jstr(v.substr(c + 1)) + "}";
    }
    J += "]}";
  }
  char b[64]; snprintf(b, sizeof b, "],\"wall_s\":%.3f}\n", now() - T0); J += b;
  if (out.empty()) fputs(J.c_str(), stdout);
  else { FILE* f = fopen(out.c_str(), "w"); if (!f) { perror(out.c_str()); return 3; } fputs(J.c_str(), f); fclose(f); }
  return 0;
}
