// Exact normal form of real-arithmetic terms: Laurent polynomials with rational coefficients over atoms (variables,
// square roots, inverses of polynomials, trigonometric terms, opaque terms), used to discharge identities before the
// solver is asked. Sound provided no denominator vanishes, which the path condition contains for every division.
#pragma once
#include <boost/multiprecision/cpp_int.hpp>
namespace nf {
typedef boost::multiprecision::cpp_rational Q;
typedef std::vector<std::pair<int, int>> Mono; // (atom, exponent != 0), sorted by atom
struct MLess { // lexicographic monomial order (multiplicative)
  bool operator()(const Mono& a, const Mono& b) const {
    size_t i = 0, j = 0;
    for (;;) {
      if (i == a.size() && j == b.size()) return false;
      int ia = i < a.size() ? a[i].first : INT32_MAX, ib = j < b.size() ? b[j].first : INT32_MAX;
      int m = std::min(ia, ib), ea = ia == m ? a[i].second : 0, eb = ib == m ? b[j].second : 0;
      if (ea != eb) return ea > eb; // bigger first
      if (ia == m) i++;
      if (ib == m) j++;
    }
  }
};
typedef std::map<Mono, Q, MLess> Poly;
struct Fail {};
enum Kind { A_VAR, A_OPQ, A_SQRT, A_INV, A_UF, A_PI, A_SIN, A_COS, A_ABS };
struct Atom { Kind k; Expr* e; Poly p, q; const char* nm; bool two; int partner; };
static std::vector<Atom>& atoms() { static auto* v = new std::vector<Atom>(); return *v; }
static long g_budget = 0;
static void tick(long n) { if ((g_budget -= n) < 0) throw Fail(); }
static Poly reduce(Poly p);
static Poly cnst(const Q& q) { Poly p; if (q != 0) p[{}] = q; return p; }
static Poly atomP(int a, int e = 1) { Poly p; p[{{a, e}}] = 1; return p; }
static Poly add(const Poly& a, const Poly& b, const Q& s = 1) {
  Poly r = a; tick(b.size());
  for (auto& t : b) { Q& c = r[t.first]; c += s * t.second; if (c == 0) r.erase(t.first); }
  return r;
}
static Poly scale(const Poly& a, const Q& s) { Poly r; if (s == 0) return r; for (auto& t : a) r[t.first] = t.second * s; return r; }
static Poly mul(const Poly& a, const Poly& b);
static Poly inv(const Poly& p);
static bool isZero(Poly p);
static Poly powp(const Poly& p, int k) { Poly r = cnst(1); for (int i = 0; i < k; i++) r = mul(r, p); return r; }
// product of powers of atoms, with the reductions sqrt(P)^2 = P, sin^2 = 1 - cos^2, |P|^2 = P^2, inv(P)^-1 = P
static Poly monoP(const Mono& m_, const Q& c) {
  Mono keep, m0 = m_, order; std::vector<Poly> extra;
  for (auto& x : m_) if (atoms()[x.first].k == A_SQRT) order.push_back(x);
  for (auto& x : m_) if (atoms()[x.first].k != A_SQRT) order.push_back(x);
  for (auto& x0 : order) {
    std::pair<int, int> x = x0; if (atoms()[x.first].k == A_INV) for (auto& y : m0) if (y.first == x.first) x.second = y.second;
    if (!x.second) continue;
    Kind k = atoms()[x.first].k; int e = x.second;
    if (k == A_SQRT) {
      int pt = atoms()[x.first].partner; // sqrt(P) inv(P) = sqrt(P)^-1
      if (pt >= 0 && e > 0) for (auto& y : m0) if (y.first == pt && y.second > 0) { int n = std::min(y.second, (e + 1) / 2); y.second -= n; e -= 2 * n; }
      int h = e / 2, r = e - 2 * h; Poly P = atoms()[x.first].p;
      if (h) extra.push_back(h > 0 ? powp(P, h) : powp(inv(P), -h));
      if (r) keep.push_back({x.first, r});
    } else if (k == A_INV && e < 0) extra.push_back(powp(Poly(atoms()[x.first].p), -e));
    else if (k == A_SIN && e > 1) { // partner cosine has the same argument
      int cosA = -1; for (size_t i = 0; i < atoms().size(); i++) if (atoms()[i].k == A_COS && atoms()[i].p == atoms()[x.first].p) cosA = i;
      if (cosA < 0) throw Fail();
      extra.push_back(powp(add(cnst(1), atomP(cosA, 2), -1), e / 2)); if (e & 1) keep.push_back({x.first, 1});
    } else if (k == A_ABS && e > 1) { extra.push_back(powp(Poly(atoms()[x.first].p), e / 2 * 2)); if (e & 1) keep.push_back({x.first, 1}); }
    else keep.push_back(x);
  }
  std::sort(keep.begin(), keep.end());
  Poly r; if (c != 0) r[keep] = c;
  for (auto& p : extra) r = mul(r, p);
  return r;
}
static bool hasPos(const Mono& m, int a) { if (a >= 0) for (auto& x : m) if (x.first == a && x.second > 0) return true; return false; }
static bool plain(const Mono& m) {
  for (auto& x : m) { Kind k = atoms()[x.first].k; if (k == A_SQRT ? (x.second < -1 || x.second > 1 || (x.second > 0 && hasPos(m, atoms()[x.first].partner))) : k == A_INV ? x.second < 0 : (k == A_SIN || k == A_ABS) ? x.second > 1 : false) return false; }
  return true;
}
static Mono mm(const Mono& a, const Mono& b) {
  Mono r; size_t i = 0, j = 0;
  while (i < a.size() || j < b.size()) {
    if (j == b.size() || (i < a.size() && a[i].first < b[j].first)) r.push_back(a[i++]);
    else if (i == a.size() || b[j].first < a[i].first) r.push_back(b[j++]);
    else { int e = a[i].second + b[j].second; if (e) r.push_back({a[i].first, e}); i++; j++; }
  }
  return r;
}
static Poly mul(const Poly& a, const Poly& b) {
  Poly r; tick((long)a.size() * b.size());
  for (auto& x : a) for (auto& y : b) {
    Mono m = mm(x.first, y.first); Q c = x.second * y.second;
    if (plain(m)) { Q& d = r[m]; d += c; if (d == 0) r.erase(m); }
    else r = add(r, monoP(m, c));
  }
  if (r.size() > 20000) throw Fail();
  return r;
}
static bool same(const Poly& a, const Poly& b) { return a.size() == b.size() ? a == b : false; }
static bool eqp(const Poly& a, const Poly& b) { if (same(a, b)) return true; long save = g_budget; g_budget = std::min(g_budget, 20000l); bool r = false; try { r = isZero(add(a, b, -1)); } catch (Fail) {} g_budget = save; tick(50); return r; }
static int mk(Kind k, Expr* e, const Poly& p = Poly(), const Poly& q = Poly(), const char* nm = "", bool two = false) {
  auto& A = atoms();
  for (size_t i = 0; i < A.size(); i++) if (A[i].k == k && A[i].e == e && A[i].nm == nm && same(A[i].p, p) && same(A[i].q, q)) return i;
  if (k != A_VAR && k != A_OPQ && k != A_PI && k != A_SIN && k != A_COS)
    for (size_t i = 0; i < A.size(); i++) if (A[i].k == k && A[i].nm == nm && A[i].two == two && eqp(A[i].p, p) && (!two || eqp(A[i].q, q))) return i;
  int pt = -1, id = A.size();
  if (k == A_SQRT || k == A_INV) for (int i = 0; i < id; i++) if (A[i].k == (k == A_SQRT ? A_INV : A_SQRT) && same(A[i].p, p)) { pt = i; A[i].partner = id; break; }
  A.push_back(Atom{k, e, p, q, nm, two, pt});
  return id;
}
// exact division by D (leading term order), or nothing
static bool divide(Poly a, const Poly& D, Poly& q) {
  q.clear(); auto& lt = *D.begin();
  for (int it = 0; !a.empty(); it++) {
    if (it > 400) return false; tick(D.size());
    auto t = *a.begin(); Mono m; size_t i = 0;
    for (auto& x : lt.first) { while (i < t.first.size() && t.first[i].first < x.first) m.push_back(t.first[i++]); if (i == t.first.size() || t.first[i].first != x.first || (x.second > 0 ? t.first[i].second < x.second : t.first[i].second > x.second)) return false; if (t.first[i].second != x.second) m.push_back({x.first, t.first[i].second - x.second}); i++; }
    while (i < t.first.size()) m.push_back(t.first[i++]);
    Q c = t.second / lt.second; Poly mq; mq[m] = c; if (!plain(m)) return false;
    q = add(q, mq); size_t before = a.size(); a = add(a, mul(mq, D), -1);
    if (!a.empty() && !MLess()(t.first, a.begin()->first)) return false;
    (void)before;
  }
  return true;
}
static Poly cancel(Poly p) { // P * inv(P) = 1 where all terms share inv(P)
  for (int round = 0; round < 8; round++) {
    bool any = false; if (p.empty()) return p;
    for (auto& x : Mono(p.begin()->first)) if (atoms()[x.first].k == A_INV && x.second > 0) {
      bool all = true; for (auto& t : p) { bool h = false; for (auto& y : t.first) h |= y.first == x.first && y.second > 0; all &= h; }
      if (!all) continue;
      Poly num; for (auto& t : p) { Mono m; for (auto& y : t.first) { if (y.first == x.first) { if (y.second > 1) m.push_back({y.first, y.second - 1}); } else m.push_back(y); } num[m] = t.second; }
      Poly q; if (divide(num, Poly(atoms()[x.first].p), q)) { p = q; any = true; break; }
    }
    if (!any) break;
  }
  return p;
}
static Poly inv(const Poly& p0) {
  Poly p = cancel(reduce(cancel(p0))); if (p.empty()) throw Fail();
  if (p.size() == 1) { Mono m = p.begin()->first; for (auto& x : m) x.second = -x.second; Q c = 1 / p.begin()->second; return monoP(m, c); }
  Q lc = p.begin()->second; return scale(atomP(mk(A_INV, nullptr, scale(p, 1 / lc))), 1 / lc);
}
static bool sq(const Q& q, Q& r) {
  using boost::multiprecision::cpp_int; if (q < 0) return false;
  cpp_int n = numerator(q), d = denominator(q), a = boost::multiprecision::sqrt(n), b = boost::multiprecision::sqrt(d);
  if (a * a != n || b * b != d) return false; r = Q(a, b); return true;
}
static int sgn(const Poly& p); // 2 positive, 1 nonnegative, 0 unknown
static std::set<u64>& posVars() { static auto* s = new std::set<u64>(); return *s; }
static int sgnF(const Poly& p);
static int sgnAtom(int a) {
  Atom x = atoms()[a];
  switch (x.k) { case A_PI: return 2; case A_VAR: return posVars().count(x.e->k) ? 2 : 0; case A_SQRT: return sgnF(x.p) == 2 ? 2 : 1; case A_INV: { int s = sgnF(x.p); return s >= 1 ? 2 : s <= -1 ? -2 : 0; } case A_ABS: return 1; default: return 0; }
}
static int sgn(const Poly& p) {
  int best = p.empty() ? 1 : 0; bool strict = false;
  for (auto& t : p) { bool st = true, neg = t.second < 0; for (auto& x : t.first) { int s = sgnAtom(x.first); if (s == 2) continue; if (s == -2) { neg ^= x.second % 2 != 0; continue; } if (x.second % 2 == 0) { st = false; continue; } if (s == 0) return 0; st = false; } if (neg) return 0; strict |= st; }
  return p.empty() ? best : strict ? 2 : 1;
}
// facts about signs on this path: polynomial (leading coefficient 1) -> 2 positive, 1 nonnegative, -1, -2
static std::vector<std::pair<Poly, int>>& facts() { static auto* v = new std::vector<std::pair<Poly, int>>(); return *v; }
// multiply by positive atoms until no negative exponent of, and no inverse of, a term of known sign is left; s collects the sign
static Poly numer(Poly p, int& s) {
  for (int round = 0; round < 12 && !p.empty(); round++) {
    Mono up; Poly invp; bool any = false; std::map<int, int> mn, mx;
    for (auto& t : p) for (auto& x : t.first) { int& a = mn[x.first]; a = std::min(a, x.second); int& b = mx[x.first]; b = std::max(b, x.second); }
    for (auto& x : mn) if (x.second < 0 && (x.second % 2 == 0 || std::abs(sgnAtom(x.first)) == 2)) { if (x.second % 2 && sgnAtom(x.first) < 0) s = -s; up.push_back({x.first, -x.second}); any = true; }
    if (any) { Poly m; m[up] = 1; p = mul(p, m); continue; }
    for (auto& x : mx) if (x.second > 0 && atoms()[x.first].k == A_INV) { int sg = sgnAtom(x.first); if (x.second % 2 && std::abs(sg) != 2) continue;
      if (x.second % 2 && sg < 0) s = -s;
      Poly P = atoms()[x.first].p, r; std::vector<Poly> pw{cnst(1)}; for (int i = 0; i < x.second; i++) pw.push_back(mul(pw.back(), P));
      for (auto& t : p) { Mono m; int e = 0; for (auto& y : t.first) if (y.first == x.first) e = y.second; else m.push_back(y); Poly q; q[m] = t.second; r = add(r, mul(q, pw[x.second - e])); }
      p = r; any = true; break; }
    if (!any) break;
  }
  return p;
}
// common monomial factor with its sign taken out
static Poly content(Poly p, int& s) {
  if (p.empty()) return p;
  Mono c = p.begin()->first;
  for (auto& t : p) { Mono d; for (auto& x : c) for (auto& y : t.first) if (y.first == x.first && (x.second > 0) == (y.second > 0)) d.push_back({x.first, x.second > 0 ? std::min(x.second, y.second) : std::max(x.second, y.second)}); c = d; }
  Mono out; for (auto& x : c) { int sg = sgnAtom(x.first); if (std::abs(sg) == 2 || (x.second > 1 && sg >= 0)) { if (std::abs(sg) == 2) { if (sg < 0 && x.second % 2) s = -s; out.push_back({x.first, -x.second}); } } }
  if (out.empty()) return p;
  Poly m; m[out] = 1; return mul(p, m);
}
// p = root^2 exactly?
static bool polyRoot(const Poly& p, Poly& root) {
  Q r; root.clear(); if (p.size() < 3 || !sq(p.begin()->second, r)) return false;
  Mono m0; for (auto& x : p.begin()->first) { if (x.second % 2 || x.second < 0) return false; m0.push_back({x.first, x.second / 2}); }
  root[m0] = r; auto lt = *root.begin(); Poly rest;
  for (int it = 0; it < 60; it++) {
    rest = add(p, mul(root, root), -1); if (rest.empty()) return true;
    auto t = *rest.begin(); Mono im; for (auto& x : lt.first) im.push_back({x.first, -x.second}); Mono nm = mm(t.first, im);
    if (!plain(nm)) return false; for (auto& x : nm) if (x.second < 0) return false;
    if (!MLess()(lt.first, nm) || root.count(nm)) return false;
    root[nm] = t.second / (2 * lt.second); if (root.size() > p.size()) return false;
  }
  return false;
}
// equations holding on this path, used as rewrite rules for their leading terms
static std::vector<Poly>& eqs() { static auto* v = new std::vector<Poly>(); return *v; }
static Poly reduce(Poly p) {
  if (eqs().empty()) return p;
  Poly done;
  for (int it = 0; it < 5000 && !p.empty(); it++) {
    auto t = *p.begin(); bool hit = false;
    for (auto& E : eqs()) {
      auto& lt = *E.begin(); Mono il; for (auto& x : lt.first) il.push_back({x.first, -x.second}); Mono q = mm(t.first, il); bool ok = true;
      for (auto& x : lt.first) { bool f = false; for (auto& y : t.first) f |= y.first == x.first && y.second >= x.second; ok &= f; }
      if (!ok) continue;
      Poly mq; mq[q] = t.second / lt.second; p = add(p, mul(mq, E), -1); hit = true; break;
    }
    if (!hit) { done[t.first] = t.second; p.erase(p.begin()); }
  }
  return add(done, p);
}
// sign of a quadratic polynomial (atoms taken as independent reals): completes squares exactly
static int quadSign(const Poly& p) {
  std::vector<int> v; if (p.size() > 200) return 0;
  for (auto& t : p) { int d = 0; for (auto& x : t.first) { if (x.second < 0) return 0; d += x.second; v.push_back(x.first); } if (d > 2) return 0; }
  std::sort(v.begin(), v.end()); v.erase(std::unique(v.begin(), v.end()), v.end()); size_t n = v.size(); if (!n || n > 24) return 0;
  std::vector<std::vector<Q>> M(n + 1, std::vector<Q>(n + 1, Q(0)));
  for (auto& t : p) { std::vector<size_t> ix; for (auto& x : t.first) for (int k = 0; k < x.second; k++) ix.push_back(std::lower_bound(v.begin(), v.end(), x.first) - v.begin()); while (ix.size() < 2) ix.push_back(n); if (ix[0] == ix[1]) M[ix[0]][ix[0]] += t.second; else { M[ix[0]][ix[1]] += t.second / 2; M[ix[1]][ix[0]] += t.second / 2; } }
  int sg = 0; for (size_t i = 0; i < n; i++) if (M[i][i] != 0) { sg = M[i][i] > 0 ? 1 : -1; break; } if (!sg) return 0;
  for (size_t i = 0; i < n; i++) {
    Q d = M[i][i] * sg; if (d < 0) return 0;
    if (d == 0) { for (size_t j = i + 1; j <= n; j++) if (M[i][j] != 0) return 0; continue; }
    for (size_t j = i + 1; j <= n; j++) { if (M[i][j] == 0) continue; Q f = M[i][j] / M[i][i]; for (size_t k = i + 1; k <= n; k++) M[j][k] -= f * M[i][k]; }
  }
  Q c = M[n][n] * sg; return c > 0 ? 2 * sg : c == 0 ? sg : 0;
}
static int linSign(const Poly& p); // linear arithmetic over monomials, by the solver
static int sgnF(const Poly& p0) {
  static int depth = 0;
  int s0 = sgn(p0); if (s0) return s0; s0 = sgn(scale(p0, -1)); if (s0) return -s0;
  if (depth > 3) return 0;
  depth++; int res = 0;
  try {
    int s = 1; Poly p = content(reduce(numer(p0, s)), s);
    bool strict = true;
    for (int round = 0; round < 12; round++) {
      int t = sgn(p); if (!t) t = -sgn(scale(p, -1));
      if (t) { if (std::abs(t) == 1) strict = false; if (t < 0) s = -s; res = s * (strict ? 2 : 1); break; }
      { Poly root; if (polyRoot(p, root)) { int u = std::abs(sgnF(root)); res = u == 2 && strict ? 2 * s : s; break; } if (polyRoot(scale(p, -1), root)) { int u = std::abs(sgnF(root)); res = u == 2 && strict ? -2 * s : -s; break; } }
      { int u = quadSign(p); if (u) { if (std::abs(u) == 1) strict = false; if (u < 0) s = -s; res = s * (strict ? 2 : 1); break; } }
      bool any = false;
      for (auto& f : facts()) { Poly q; if (f.first.size() <= p.size() * 4 && divide(p, f.first, q)) { if (f.second < 0) s = -s; if (std::abs(f.second) == 1) strict = false; p = q; any = true; break; } }
      if (!any) {
        // p = c * fact + rest with rest of the same sign
        for (auto& f : facts()) for (int d = 1; d >= -1 && !res; d -= 2) {
          int fs = f.second * d > 0 ? 1 : -1; // sign of d * fact
          for (auto& t : f.first) { auto it = p.find(t.first); if (it == p.end()) continue; Q c = it->second / t.second * d; if (c <= 0) continue;
            Poly rest = add(p, f.first, -c * d); int rs = sgn(rest); if (!rs) rs = -sgn(scale(rest, -1)); if (rest.empty()) rs = 1;
            if (rest.empty() || (rs > 0) == (fs > 0)) if (rs || rest.empty()) { bool st = std::abs(f.second) == 2 || std::abs(rs) == 2; res = fs * s * (st && strict ? 2 : 1); break; } }
        }
        if (!res && depth <= 2 && p.size() <= 60) { // A + B with |A| > |B|, where A collects the terms with square roots
          Poly A, B; for (auto& t : p) { bool o = false; for (auto& x : t.first) o |= atoms()[x.first].k == A_SQRT && x.second % 2; (o ? A : B)[t.first] = t.second; }
          if (!A.empty() && !B.empty()) {
            int a = sgn(A); if (!a) a = -sgn(scale(A, -1)); int b = sgn(B); if (!b) b = -sgn(scale(B, -1));
            if (a || b) { int d = sgnF(add(mul(A, A), mul(B, B), -1)); if (a && d >= 1) res = (a > 0 ? 1 : -1) * s * (d == 2 && strict ? 2 : 1); else if (b && d <= -1) res = (b > 0 ? 1 : -1) * s * (d == -2 && strict ? 2 : 1); }
          }
        }
        if (!res && depth == 1) { int l = linSign(p); if (l) res = l * s * (strict || std::abs(l) == 1 ? 1 : 1); if (std::abs(l) == 2 && !strict) res = s * (l > 0 ? 1 : -1); }
        break;
      }
    }
  } catch (Fail) { depth--; throw; }
  depth--; return res;
}
static void addFact(Expr* a, Expr* b, bool strict); // a < b or a <= b
static Poly absP(const Poly& p) { { int s = sgnF(p); if (s >= 1) return p; if (s <= -1) return scale(p, -1); } if (sgn(p) >= 1) return p; Poly n = scale(p, -1); if (sgn(n) >= 1) return n; if (p.begin()->second < 0) return atomP(mk(A_ABS, nullptr, n)); return atomP(mk(A_ABS, nullptr, p)); }
// c = r^2 s with s an integer without small square factors
static void squareFree(const Q& c, Q& r, Q& s) {
  using boost::multiprecision::cpp_int; r = 1; s = c; if (c <= 0) return;
  cpp_int d = denominator(c), n = numerator(c) * d, k = 1;
  for (unsigned f = 2; f < 2000 && cpp_int(f) * f <= n; f++) while (n % (f * f) == 0) { n /= f * f; k *= f; }
  r = Q(k, d); s = Q(n);
}
static Poly sqrtP(const Poly& p0) {
  Poly p = cancel(p0); if (p.empty()) return p;
  Q r;
  if (!eqs().empty()) { // a perfect square modulo the path's equations?
    Poly q = p.size() == 1 ? p : cancel(reduce(p)); if (q.empty()) return q; bool done = q.size() == 1; if (done) p = q;
    if (!done) { Poly root; if (polyRoot(p, root)) return absP(root); }
    for (auto& E : eqs()) { if (done) break; for (auto& t : E) { auto it = q.find(t.first); if (it == q.end()) continue; Poly c = add(q, E, -it->second / t.second); bool ev = c.size() == 1 && sq(c.begin()->second, r); if (ev) for (auto& x : c.begin()->first) ev &= x.second % 2 == 0; if (ev) { p = c; done = true; break; } } }
    if (!done) p = q;
  }
  if (p.size() == 1) { // perfect squares of a single term, and factors known to be nonnegative
    Mono rest; bool okc = sq(p.begin()->second, r); Q c = 1; if (!okc) squareFree(p.begin()->second, r, c); Poly out = cnst(r);
    bool good = true; std::vector<Poly> mults;
    for (auto& x : p.begin()->first) {
      if (x.second % 2 == 0) mults.push_back(absP(monoP({{x.first, x.second / 2}}, 1)));
      else rest.push_back(x);
    }
    for (auto& x : mults) out = mul(out, x);
    if (rest.empty() && c == 1) return out;
    Poly rp; rp[rest] = c; if (good) return mul(out, atomP(mk(A_SQRT, nullptr, rp)));
  }
  { // even powers common to all terms
    Mono c = p.begin()->first;
    for (auto& t : p) { Mono d; for (auto& x : c) { int e = 0; for (auto& y : t.first) if (y.first == x.first) e = y.second; int m = std::min(x.second, e); if (m) d.push_back({x.first, m}); } for (auto& y : t.first) if (y.second < 0) { bool f = false; for (auto& x : d) f |= x.first == y.first; if (!f) d.push_back(y); } std::sort(d.begin(), d.end()); c = d; }
    Mono half, inv2; for (auto& x : c) { int h = x.second >= 0 ? x.second / 2 : -((1 - x.second) / 2); if (h) { half.push_back({x.first, h}); inv2.push_back({x.first, -2 * h}); } }
    if (!half.empty()) { Poly m, o = cnst(1); m[inv2] = 1; for (auto& x : half) o = mul(o, absP(monoP({x}, 1))); return mul(o, sqrtP(mul(p, m))); }
  }
  if (p.size() > 1) { // positive denominators out of the root
    std::map<int, int> mx; for (auto& t : p) for (auto& x : t.first) if (atoms()[x.first].k == A_INV && x.second > 0) { int& e = mx[x.first]; e = std::max(e, x.second); }
    for (auto& x : mx) if (sgnAtom(x.first) == 2) {
      Poly P = atoms()[x.first].p, n; std::vector<Poly> pw{cnst(1)}; for (int i = 0; i < x.second; i++) pw.push_back(mul(pw.back(), P));
      for (auto& t : p) { Mono m; int e = 0; for (auto& y : t.first) if (y.first == x.first) e = y.second; else m.push_back(y); Poly q; q[m] = t.second; n = add(n, mul(q, pw[x.second - e])); }
      Poly o = x.second % 2 ? inv(sqrtP(P)) : cnst(1); if (x.second > 1) o = mul(o, powp(atomP(x.first), x.second / 2));
      return mul(o, sqrtP(n));
    }
  }
  { Poly root; if (polyRoot(p, root)) return absP(root); }
  if (p.size() > 3) { // nonnegative factors met before
    size_t n = atoms().size();
    for (size_t i = 0; i < n; i++) if (atoms()[i].k == A_SQRT && atoms()[i].p.size() > 1 && atoms()[i].p.size() <= p.size() && !same(atoms()[i].p, p)) {
      Poly P = atoms()[i].p, q; bool fit = true; for (auto& x : P.begin()->first) { bool f = false; for (auto& y : p.begin()->first) f |= y.first == x.first && y.second >= x.second; fit &= f; }
      for (auto& x : std::prev(P.end())->first) { bool f = false; for (auto& y : std::prev(p.end())->first) f |= y.first == x.first && y.second >= x.second; fit &= f; }
      if (fit && divide(p, P, q) && sgnF(P) >= 1) return mul(atomP(i), sqrtP(q));
    }
  }
  Q lc = abs(p.begin()->second);
  Poly m = scale(p, 1 / lc); Poly f; if (sq(lc, r)) f = cnst(r); else { Q s; squareFree(lc, r, s); f = scale(atomP(mk(A_SQRT, nullptr, cnst(s))), r); }
  return mul(f, atomP(mk(A_SQRT, nullptr, m)));
}
static std::pair<Poly, Poly> cis(const Poly& p);
static std::pair<Poly, Poly> cmulp(const std::pair<Poly, Poly>& a, const std::pair<Poly, Poly>& b) { return {add(mul(a.first, b.first), mul(a.second, b.second), -1), add(mul(a.first, b.second), mul(a.second, b.first))}; }
// lt(P) inv(P) = 1 - (P - lt(P)) inv(P), until no term contains the left side: a canonical form for angles like pi a / (a + b)
static Poly fractions(Poly p) {
  for (int it = 0; it < 60; it++) {
    bool any = false;
    for (auto& t : p) { for (auto& x : t.first) if (atoms()[x.first].k == A_INV && x.second > 0) {
        Poly P = atoms()[x.first].p; auto lt = *P.begin(); Mono il{{x.first, -1}}; for (auto& y : lt.first) il = mm(il, Mono{{y.first, -y.second}});
        bool ok = true; for (auto& y : lt.first) { bool f = false; for (auto& z : t.first) f |= z.first == y.first && (y.second > 0 ? z.second >= y.second : z.second <= y.second); ok &= f; }
        if (!ok) continue;
        Poly cof; cof[mm(t.first, il)] = t.second / lt.second; // t = cof * lt * inv(P)
        Poly rest = P; rest.erase(rest.begin()); Poly self; self[t.first] = t.second;
        p = add(add(p, self, -1), add(cof, mul(mul(cof, rest), atomP(x.first)), -1)); any = true; break; }
      if (any) break; }
    if (!any) break;
  }
  return p;
}
static std::pair<Poly, Poly> cis(const Poly& p0) {
  std::pair<Poly, Poly> r{cnst(1), Poly()}; Poly rest, p = fractions(p0);
  for (auto& t : p) {
    if (t.first.size() == 1 && t.first[0].second == 1) {
      Atom a = atoms()[t.first[0].first]; Q c = t.second;
      if (a.k == A_PI && denominator(Q(c * 2)) == 1) {
        using boost::multiprecision::cpp_int; cpp_int k = numerator(Q(c * 2)) % 4; int n = ((int)k + 4) % 4;
        std::pair<Poly, Poly> q[4] = {{cnst(1), Poly()}, {Poly(), cnst(1)}, {cnst(-1), Poly()}, {Poly(), cnst(-1)}};
        r = cmulp(r, q[n]); continue;
      }
      if (a.k == A_UF && denominator(c) == 1 && abs(c) <= 6) {
        std::pair<Poly, Poly> b; bool ok = true; std::string n = a.nm;
        if (n == "atan2") { Poly ri = inv(sqrtP(add(mul(a.p, a.p), mul(a.q, a.q)))); b = {mul(a.q, ri), mul(a.p, ri)}; }
        else if (n == "acos") b = {a.p, sqrtP(add(cnst(1), mul(a.p, a.p), -1))};
        else if (n == "asin") b = {sqrtP(add(cnst(1), mul(a.p, a.p), -1)), a.p};
        else if (n == "atan") { Poly ri = inv(sqrtP(add(cnst(1), mul(a.p, a.p)))); b = {ri, mul(a.p, ri)}; }
        else ok = false;
        if (ok) { int k = (int)numerator(c); if (k < 0) { b.second = scale(b.second, -1); k = -k; } for (int i = 0; i < k; i++) r = cmulp(r, b); continue; }
      }
    }
    rest[t.first] = t.second;
  }
  // angle addition: one factor per term, as a multiple of a base angle met before where there is one
  for (auto& t : rest) {
    Q c = t.second; bool neg = c < 0; if (neg) c = -c;
    Poly base; base[t.first] = c; int mult = 1, ca = -1;
    for (size_t i = 0; i < atoms().size(); i++) if (atoms()[i].k == A_COS && atoms()[i].p.size() == 1 && atoms()[i].p.begin()->first == t.first) {
      Q k = c / atoms()[i].p.begin()->second; if (denominator(k) == 1 && k <= 6) { mult = (int)numerator(k); base = atoms()[i].p; ca = i; break; } }
    ca = mk(A_COS, nullptr, base); int sa = mk(A_SIN, nullptr, base);
    for (int i = 0; i < mult; i++) r = cmulp(r, {atomP(ca), scale(atomP(sa), neg ? -1 : 1)});
  }
  return r;
}
static bool isZero(Poly p) {
  for (int round = 0; round < 60; round++) {
    if (p.empty()) return true;
    // clear negative exponents, then one inverse at a time
    Mono neg; int ia = -1, ie = 0;
    for (auto& t : p) for (auto& x : t.first) {
      if (x.second < 0) { bool f = false; for (auto& n : neg) if (n.first == x.first) { n.second = std::max(n.second, -x.second); f = true; } if (!f) neg.push_back({x.first, -x.second}); }
      if (atoms()[x.first].k == A_INV && x.first >= ia) { if (x.first > ia) ie = 0; ia = x.first; ie = std::max(ie, x.second); }
    }
    if (!neg.empty()) { std::sort(neg.begin(), neg.end()); Poly m; m[neg] = 1; p = mul(p, m); continue; }
    if (ia < 0) { if (eqs().empty()) return false; Poly q = reduce(p); if (same(q, p)) return false; p = q; continue; }
    Poly P = atoms()[ia].p, r; std::vector<Poly> pw{cnst(1)}; for (int i = 0; i < ie; i++) pw.push_back(mul(pw.back(), P));
    std::vector<Poly> byE(ie + 1);
    for (auto& t : p) { Mono m; int e = 0; for (auto& x : t.first) if (x.first == ia) e = x.second; else m.push_back(x); byE[e][m] = t.second; }
    for (int e = 0; e <= ie; e++) r = add(r, mul(byE[e], pw[ie - e]));
    p = r;
  }
  return false;
}
static Q ratOf(double d, bool& pi) { // idealised value of a constant: multiples of pi, small fractions, else exact
  pi = false;
  if (d == 0) return 0;
  for (int den : {1, 2, 3, 4, 6, 8, 12}) { double k = d / M_PI * den, r = std::round(k); if (std::fabs(r) >= 1 && std::fabs(r) <= 48 && std::fabs(k - r) <= 4e-16 * std::fabs(r)) { pi = true; return Q((long)r, den); } }
  for (long den = 1; den <= 720; den++) { double k = d * den, r = std::round(k); if (std::fabs(r) < 1e12 && std::fabs(r) >= 1 && std::fabs(k - r) <= 2.3e-16 * std::fabs(r)) return Q((long)r, den); }
  int ex; double m = std::frexp(d, &ex); Q q((long long)std::ldexp(m, 53)); ex -= 53;
  boost::multiprecision::cpp_int two = 1; two <<= std::abs(ex); return ex >= 0 ? Q(q * two) : Q(q / two);
}
static std::unordered_map<Expr*, Poly>* memo = new std::unordered_map<Expr*, Poly>();
static Poly of(Expr* e) {
  auto it = memo->find(e); if (it != memo->end()) return it->second;
  tick(1);
  Poly r;
  switch (e->op) {
  case GS_CONST: { double d = W(e->ty) == 64 ? asD(e->k) : asF(e->k); if (!std::isfinite(d)) throw Fail(); bool pi; Q q = ratOf(d, pi); r = pi ? scale(atomP(mk(A_PI, nullptr)), q) : cnst(q); break; }
  case GS_VAR: r = atomP(mk(A_VAR, e)); break;
  case GS_FADD: r = add(of(e->a), of(e->b)); break;
  case GS_FSUB: r = add(of(e->a), of(e->b), -1); break;
  case GS_FMUL: r = mul(of(e->a), of(e->b)); break;
  case GS_FDIV: r = mul(of(e->a), inv(of(e->b))); break;
  case GS_FNEG: r = scale(of(e->a), -1); break;
  case GS_FPEXT: case GS_FPTRUNC: r = of(e->a); break;
  case GS_FSQRT: r = sqrtP(of(e->a)); break;
  case GS_FABS: { Poly p = of(e->a); r = p.empty() ? p : absP(p); break; }
  case GS_UF: {
    std::string n = e->name; Poly a = cancel(of(e->a)); 
    if (n == "cos") r = cis(a).first;
    else if (n == "sin") r = cis(a).second;
    else if (n == "tan") { auto c = cis(a); r = mul(c.second, inv(c.first)); }
    else if (n == "hypot") { Poly b = of(e->b); r = sqrtP(add(mul(a, a), mul(b, b))); }
    else r = atomP(mk(A_UF, nullptr, a, e->b ? cancel(of(e->b)) : Poly(), e->name, e->b != nullptr));
    break;
  }
  default: r = atomP(mk(A_OPQ, e)); break;
  }
  (*memo)[e] = r; return r;
}
static std::string show(const Poly& p, int d) {
  static const char* kn[] = {"v", "o", "sqrt", "inv", "uf", "pi", "sin", "cos", "abs"};
  std::string r; for (auto& t : p) { if (!r.empty()) r += " + "; r += t.second.str(); for (auto& x : t.first) { auto& a = atoms()[x.first]; r += std::string("*") + kn[a.k] + std::to_string(x.first); if (d > 0 && (a.k == A_SQRT || a.k == A_INV || a.k == A_ABS)) r += "{" + show(Poly(a.p), d - 1) + "}"; if (x.second != 1) r += "^" + std::to_string(x.second); } }
  return r.empty() ? "0" : r;
}
// |P| where the sign of P has become known since
static Poly refine(const Poly& p) {
  std::map<int, int> sg; bool any = false;
  for (auto& t : p) for (auto& x : t.first) if (atoms()[x.first].k == A_ABS && !sg.count(x.first)) { int s = sgnF(Poly(atoms()[x.first].p)); sg[x.first] = s; any |= s != 0; }
  if (!any) return p;
  Poly r;
  for (auto& t : p) { Mono m; Poly f = cnst(t.second); for (auto& x : t.first) { int s = sg.count(x.first) ? sg[x.first] : 0; if (!s) m.push_back(x); else { Poly b = s > 0 ? atoms()[x.first].p : scale(atoms()[x.first].p, -1); f = mul(f, x.second > 0 ? powp(b, x.second) : powp(inv(b), -x.second)); } } Poly q; q[m] = 1; r = add(r, mul(q, f)); }
  return r;
}
// p == q identically?
static bool equal(Expr* p, Expr* q) {
  static long B = getenv("GS_NF") ? atol(getenv("GS_NF")) : 400000; g_budget = B;
  try { bool z = isZero(refine(add(of(p), of(q), -1))); if (!z && getenv("GS_NFSHOW")) if (FILE* ff = fopen(getenv("GS_NFSHOW"), "a")) fprintf(ff, "[%d] NF A=%s\nNF B=%s\n", getpid(), show(of(p), 2).c_str(), show(of(q), 2).c_str()), fclose(ff); return z; } catch (Fail) { if (getenv("GS_NF")) fprintf(stderr, "nf fail %ld\n", g_budget); return false; }
}
// sign of a - b: 2 positive, 1 nonnegative, -1 nonpositive, -2 negative, 3 zero, 0 unknown
static void dbg(const char* w, const Poly& p, int x);
static int signOf(Expr* a, Expr* b) {
  g_budget = 60000;
  try {
    Poly d = refine(add(of(a), of(b), -1)); if (d.empty()) return 3;
    int s = 1; if (!eqs().empty() && reduce(numer(d, s)).empty()) return 3;
    s = sgnF(d); if (s == 2 || s == -2) { dbg("sign", d, s); return s; }
    try { if (isZero(d)) return 3; } catch (Fail) {}
    if (s) return s;
    dbg("undecided sign", d, s);
  } catch (Fail) { if (getenv("GS_NFSHOW")) dbg("sign: budget", Poly(), 0); }
  return 0;
}
static void addEq(Poly e) {
  dbg("eq", e, 0);
  int s = 1; e = content(numer(e, s), s); e = reduce(e); if (e.empty() || eqs().size() > 12) return;
  for (auto& t : e) for (auto& x : t.first) if (x.second < 0) return;
  memo->clear(); // so that sqrt and inv of reduced terms are formed anew
  // lead with the largest monomial; earlier rules are reduced by it
  std::vector<Poly> old = eqs(); eqs().clear(); eqs().push_back(e);
  std::vector<Poly> r; for (auto& o : old) { Poly q = reduce(o); if (!q.empty()) r.push_back(q); } r.push_back(e); eqs() = r;
  size_t n = facts().size(); for (size_t i = 0; i < n; i++) { auto f = facts()[i]; Poly q = reduce(f.first); if (same(q, f.first) || q.empty()) continue; Q lc = q.begin()->second; facts().push_back({scale(q, 1 / lc), lc < 0 ? -f.second : f.second}); }
}
static std::string show(const Poly& p, int d);
static void dbg(const char* w, const Poly& p, int x) { if (getenv("GS_NFSHOW")) if (FILE* ff = fopen(getenv("GS_NFSHOW"), "a")) fprintf(ff, "[%d] %s %d %s\n", getpid(), w, x, show(p, 1).c_str()), fclose(ff); }
static void addEqE(Expr* a, Expr* b) { g_budget = 60000; try { addEq(add(of(a), of(b), -1)); } catch (Fail) {} }
static void addFact(Expr* a, Expr* b, bool strict) {
  g_budget = 60000;
  try {
    Poly d = add(of(b), of(a), -1); int s = 1; d = content(numer(d, s), s); if (d.empty() || sgn(d) >= (strict ? 2 : 1)) return;
    Q lc = d.begin()->second; if (lc < 0) s = -s; d = scale(d, 1 / lc);
    if (d.size() == 1 && d.begin()->first.size() == 1 && d.begin()->first[0].second == 1 && s > 0 && strict && atoms()[d.begin()->first[0].first].k == A_VAR) { posVars().insert(atoms()[d.begin()->first[0].first].e->k); return; }
    if (!strict) { // a nonnegative quantity that is at most zero
      int sg = sgnF(d); Poly e; if (sg * s == -2) return; if (sg * s == -1) { Poly root; e = polyRoot(d, root) || polyRoot(scale(d, -1), root) ? root : d; addEq(e); return; } }
    for (auto& f : facts()) if (same(f.first, d)) { if (strict && std::abs(f.second) == 1) f.second = 2 * s; return; }
    dbg("fact", d, strict ? 2 * s : s);
    facts().push_back({d, strict ? 2 * s : s});
    for (auto& a : atoms()) if (a.k == A_ABS) { memo->clear(); break; }
    { Poly q = reduce(d); if (!same(q, d) && !q.empty()) { Q l2 = q.begin()->second; facts().push_back({scale(q, 1 / l2), (l2 < 0 ? -1 : 1) * (strict ? 2 * s : s)}); } }
  } catch (Fail) {}
}
// syntactically a sum of squares
static bool sos(Expr* e, int depth = 0) {
  if (depth > 40) return false;
  switch (e->op) {
  case GS_CONST: return asD(e->k) >= 0;
  case GS_FMUL: return e->a == e->b || (sos(e->a, depth + 1) && sos(e->b, depth + 1));
  case GS_FADD: return sos(e->a, depth + 1) && sos(e->b, depth + 1);
  case GS_FSQRT: case GS_FABS: return true;
  case GS_FDIV: return sos(e->a, depth + 1) && sos(e->b, depth + 1);
  default: return false;
  }
}
}
