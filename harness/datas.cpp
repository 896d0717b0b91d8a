// Attached data containers (MeshData): round trips, arithmetic, defaults, copies and moves, lifetimes.
#include "mut_common.h"
typedef uint64_t U;
template <class E, class T> using MD = geometrycentral::MeshData<E, T>;
template <class T> using EV = Eigen::Matrix<T, Eigen::Dynamic, 1>;
static U symv(const char* base, size_t i) { char nm[24]; snprintf(nm, sizeof nm, "%s%zu", base, i); return gs_u64(nm); }
template <class E> std::vector<E> els(ManifoldSurfaceMesh& m) { std::vector<E> r; for (E e : geometrycentral::iterateElements<E>(&m)) r.push_back(e); return r; }
template <class E> std::vector<U> fillSym(MD<E, U>& d, const std::vector<E>& es, const char* nm) { std::vector<U> v; for (size_t i = 0; i < es.size(); i++) { v.push_back(symv(nm, i)); d[es[i]] = v[i]; } return v; }
template <class E> bool eq(const MD<E, U>& d, const std::vector<E>& es, const std::vector<U>& v) { U bad = 0; for (size_t i = 0; i < es.size(); i++) bad |= d[es[i]] ^ v[i]; return bad == 0; }
static std::unique_ptr<ManifoldSurfaceMesh> base() {
  static const size_t M[] = {0, 1, 5, 11, 9}; auto m = catMesh(M[gs_choose("mesh", gs_tier() ? 5 : 3)]);
  size_t p = gs_choose("pre", 3); if (p == 0) return m;
  Vertex v = m->insertVertex(m->face(0)); m->insertVertexAlongEdge(m->face(0).halfedge().edge()); m->removeVertex(v); if (p == 2) for (Edge e : m->edges()) if (!e.isBoundary()) { m->removeEdge(e); break; }
  return m;
}
static void grow_(ManifoldSurfaceMesh& m) { size_t n = m.nFaces(); for (int k = 0; k < 3; k++) for (Face f : els<Face>(m)) { if (m.nFaces() > 3 * n + 6) break; if (f.degree() == 3) m.insertVertex(f); } m.insertVertexAlongEdge(els<Edge>(m)[0]); }
// ---- vector round trips
template <class E> void vec() {
  auto m = base(); auto es = els<E>(*m); size_t n = geometrycentral::nElements<E>(m.get());
  gs_assert(es.size() == n, "element iteration yields nElements elements");
  MD<E, U> d(*m, 7); auto v = fillSym(d, es, "x");
  EV<U> w = d.toVector(); gs_assert((size_t)w.rows() == n, "toVector() has one entry per element");
  U bad = 0; for (size_t i = 0; i < n; i++) bad |= w(i) ^ v[i]; gs_assert(!bad, "toVector() lists values in element order");
  EV<U> y(n); std::vector<U> z; for (size_t i = 0; i < n; i++) { z.push_back(symv("y", i)); y(i) = z[i]; }
  d.fromVector(y); gs_assert(eq(d, es, z), "fromVector() assigns values in element order");
  MD<E, U> c(*m, y); gs_assert(eq(c, es, z), "construction from a vector");
  if (m->isCompressed()) for (size_t i = 0; i < n; i++) { size_t k = geometrycentral::dataIndexOfElement(m.get(), es[i]); gs_assert(c[k] == z[i], "access by index on a compressed mesh"); }
  for (int dn : {-1, 1}) { if ((int)n + dn < 0) continue; EV<U> b(n + dn); b.setConstant(1); bool th = false; try { d.fromVector(b); } catch (const std::exception&) { th = true; } gs_assert(th, "fromVector() rejects a vector of the wrong size"); }
  gs_assert(eq(d, es, z), "a rejected fromVector() changes nothing");
  // indexers: a subset of the elements in a rotated order
  MD<E, size_t> ix(*m, geometrycentral::INVALID_IND); size_t r = n ? gs_choose("rot", std::min<size_t>(n, 3)) : 0, skip = gs_choose("skip", 3), k = 0; std::vector<size_t> in;
  for (size_t i = 0; i < n; i++) if (skip == 0 || i % (skip + 1) == 0) in.push_back(i);
  for (size_t i : in) { ix[es[i]] = (k + r) % in.size(); k++; }
  EV<U> s = d.toVector(ix); gs_assert((size_t)s.rows() == in.size(), "toVector(indexer) has one entry per indexed element");
  bad = 0; for (size_t i : in) bad |= s(ix[es[i]]) ^ z[i]; gs_assert(!bad, "toVector(indexer) places values by index");
  EV<U> t(in.size()); std::vector<U> q = z; for (size_t i = 0; i < in.size(); i++) t(i) = symv("t", i);
  for (size_t i : in) q[i] = t(ix[es[i]]);
  d.fromVector(t, ix); gs_assert(eq(d, es, q), "fromVector(indexer) assigns exactly the indexed elements");
  MD<E, U> e(*m, t, ix); for (size_t i = 0; i < n; i++) gs_assert(e[es[i]] == (ix[es[i]] == geometrycentral::INVALID_IND ? 0 : t(ix[es[i]])), "construction from a vector and an indexer");
  gs_assert(d.getMesh() == m.get() && d.getDefault() == 7, "getMesh(), getDefault()");
  U f = symv("f", 0); d.fill(f); bad = 0; for (E x : es) bad |= d[x] ^ f; gs_assert(!bad, "fill() sets every element");
  gs_cover("round trip");
}
#define KINDS(F) switch (gs_choose("kind", 6)) { case 0: F<Vertex>(); break; case 1: F<Halfedge>(); break; case 2: F<Corner>(); break; case 3: F<Edge>(); break; case 4: F<Face>(); break; default: F<BoundaryLoop>(); }
GS_HARNESS(vectors) { KINDS(vec) }
// ---- arithmetic
template <class E> void arith() {
  auto m = base(); auto es = els<E>(*m); size_t n = es.size();
  MD<E, U> a(*m), b(*m); auto x = fillSym(a, es, "x"), y = fillSym(b, es, "y"); U s = symv("s", 0);
  const MD<E, U>&ca = a, &cb = b;
#define BIN(OP, GUARD)                                                                                                 \
  {                                                                                                                    \
    auto r1 = ca OP cb; auto r2 = ca OP s; auto r3 = s OP cb; bool ok = true;                                          \
    for (size_t i = 0; i < n; i++) ok = ok & (r1[es[i]] == (x[i] OP y[i])) & (r2[es[i]] == (x[i] OP s)) & (r3[es[i]] == (s OP y[i])); \
    gs_assert(ok, "operator " #OP " works element by element");                                                        \
    gs_assert(r1.getMesh() == m.get(), "the result is defined on the same mesh");                                      \
  }
#define CMP(OP)                                                                                                        \
  {                                                                                                                    \
    MD<E, U> c = a; c OP## = b; MD<E, U> d = a; d OP## = s; bool ok = true;                                            \
    for (size_t i = 0; i < n; i++) ok = ok & (c[es[i]] == (x[i] OP y[i])) & (d[es[i]] == (x[i] OP s));                  \
    gs_assert(ok, "operator " #OP "= updates element by element");                                                     \
  }
  switch (gs_choose("op", 8)) {
  case 0: BIN(+, 0) CMP(+) break;
  case 1: BIN(-, 0) CMP(-) break;
  case 2: BIN(*, 0) CMP(*) break;
  case 3: BIN(&, 0) CMP(&) BIN(|, 0) CMP(|) BIN(^, 0) CMP(^) break;
  case 4: { gs_assume(s < 64); for (U v : y) gs_assume(v < 64); for (auto& d : a.raw()) { (void)d; }
      { auto r1 = ca << cb; auto r2 = ca << s; bool ok = true; for (size_t i = 0; i < n; i++) ok = ok & (r1[es[i]] == (x[i] << y[i])) & (r2[es[i]] == (x[i] << s)); gs_assert(ok, "operator << works element by element"); } CMP(<<)
      { auto r1 = ca >> cb; auto r2 = ca >> s; bool ok = true; for (size_t i = 0; i < n; i++) ok = ok & (r1[es[i]] == (x[i] >> y[i])) & (r2[es[i]] == (x[i] >> s)); gs_assert(ok, "operator >> works element by element"); } CMP(>>) break; }
  case 5: for (size_t i = 2; i < n; i++) { x[i] = i % 2; y[i] = i / 2 % 2; a[es[i]] = x[i]; b[es[i]] = y[i]; } BIN(&&, 0) BIN(||, 0) break; // branches: two symbolic elements
  case 6: { auto r = -ca; auto q = ~ca; auto p = +ca; auto z = !ca; bool ok = true; for (size_t i = 0; i < n; i++) ok = ok & (r[es[i]] == (U)-x[i]) & (q[es[i]] == ~x[i]) & (p[es[i]] == x[i]) & (z[es[i]] == !x[i]); gs_assert(ok, "unary operators work element by element"); break; }
  case 7: { // small values, so that the division is decided quickly
      b.raw().setConstant(3); a.raw().setConstant(1); U w = s | 1; std::vector<U> u;
      for (size_t i = 0; i < n; i++) { b[es[i]] = (y[i] & 15) | 1; a[es[i]] = x[i] & 255; }
      auto r = ca / cb; auto q = ca % cb; auto r2 = ca / (w & 15); MD<E, U> c = a, d = a; c /= b; d %= b; bool ok = true;
      for (size_t i = 0; i < n; i++) { U p = x[i] & 255, v = (y[i] & 15) | 1; ok = ok & (r[es[i]] == p / v) & (q[es[i]] == p % v) & (r2[es[i]] == p / (w & 15)) & (c[es[i]] == p / v) & (d[es[i]] == p % v); }
      gs_assert(ok, "operators / and % work element by element"); break; }
  }
  auto m2 = m->copy(); MD<E, U> o(*m2, 1), nul; int th = 0;
  try { auto r = ca + o; } catch (const std::exception&) { th++; } try { auto r = ca + nul; } catch (const std::exception&) { th++; } try { a -= o; } catch (const std::exception&) { th++; }
  gs_assert(th == 3, "combining containers of different meshes is rejected");
  gs_cover("arithmetic");
}
GS_HARNESS(arithmetic) { KINDS(arith) }
// ---- defaults under growth
template <class E> void dflt() {
  auto m = base(); auto es = els<E>(*m); U d0 = symv("d", 0), d1 = symv("d", 1);
  MD<E, U> a(*m, d0); U bad = 0; for (E e : es) bad |= a[e] ^ d0; gs_assert(!bad, "a new container holds its default value everywhere");
  auto v = fillSym(a, es, "x"); MD<E, U> z(*m); for (E e : es) bad |= z[e]; gs_assert(!bad, "a container without a default holds zeros");
  bool set = gs_choose("set", 2); U d = set ? d1 : d0; if (set) a.setDefault(d1);
  gs_assert(a.getDefault() == d, "setDefault()/getDefault()"); gs_assert(eq(a, es, v), "setDefault() leaves existing elements alone");
  if (gs_choose("fill", 2)) { U f = symv("f", 0); a.fill(f); for (auto& q : v) q = f; gs_assert(eq(a, es, v), "fill()"); }
  if (gs_choose("loop", 2)) { for (Edge e : els<Edge>(*m)) { int nb = 0; for (Vertex w : e.adjacentVertices()) nb += w.isBoundary(); if (!e.isBoundary() && nb < 2) { m->separateEdge(e); break; } } }
  grow_(*m);
  std::set<E> old(es.begin(), es.end()); size_t fr = 0;
  for (E e : els<E>(*m)) if (!old.count(e)) { fr++; gs_assert(a[e] == d, "an element created later holds the container's current default value"); gs_assert(z[e] == 0, "an element created later holds zero without a default"); }
  gs_assert(eq(a, es, v), "growing the mesh keeps the values of existing elements");
  gs_cover(fr ? "new elements" : "no new elements of this kind");
}
GS_HARNESS(defaults) { KINDS(dflt) }
// ---- copies, moves, lifetimes
template <class E> void life() {
  auto m = base(); auto m2 = catMesh(3); auto es = els<E>(*m);
  std::unique_ptr<MD<E, U>> a(new MD<E, U>(*m, 5)); auto v = fillSym(*a, es, "x");
  std::unique_ptr<MD<E, U>> b; bool srcKeeps = true; size_t how = gs_choose("how", 9);
  switch (how) {
  case 0: b.reset(new MD<E, U>(*a)); break;
  case 1: b.reset(new MD<E, U>()); *b = *a; break;
  case 2: b.reset(new MD<E, U>(*m, 9)); *b = *a; break;
  case 3: b.reset(new MD<E, U>(*m2, 9)); *b = *a; break;
  case 4: b.reset(new MD<E, U>(std::move(*a))); srcKeeps = false; break;
  case 5: b.reset(new MD<E, U>()); *b = std::move(*a); srcKeeps = false; break;
  case 6: b.reset(new MD<E, U>(*m2, 9)); *b = std::move(*a); srcKeeps = false; break;
  case 7: { std::vector<MD<E, U>> w; for (int i = 0; i < 3; i++) { w.push_back(*a); } b.reset(new MD<E, U>(w[2])); gs_assert(eq(w[0], es, v) && eq(w[1], es, v), "containers in a growing vector keep their values"); grow_(*m); m->compress(); break; }
  case 8: b.reset(new MD<E, U>(*a)); { MD<E, U>& r = *b; r = *b; } break;
  }
  gs_assert(b->getDefault() == 5 && b->getMesh() == m.get(), "a copied or moved container has the mesh and default of its source");
  if (how == 7) { gs_cover("vector of containers"); return; }
  gs_assert(eq(*b, es, v), "a copied or moved container has the values of its source");
  // independence
  U nv = symv("n", 0); auto v2 = v;
  if (srcKeeps && !es.empty()) { (*a)[es[0]] = nv; v2[0] = nv; gs_assert(eq(*b, es, v) && eq(*a, es, v2), "a copy is independent of its source"); }
  size_t what = gs_choose("then", 4);
  if (what == 0) a.reset();                 // source destroyed first
  if (what == 1 && srcKeeps) a->clear();
  if (what == 1 && srcKeeps) gs_assert(a->getMesh() == nullptr && a->size() == 0, "clear() detaches the container");
  // track through growth and compression by attached ids
  MD<E, U> id(*m, 0); for (size_t i = 0; i < es.size(); i++) id[es[i]] = i + 1;
  grow_(*m); m->compress(); size_t k = 0;
  for (E e : els<E>(*m)) if (id[e]) { k++; gs_assert((*b)[e] == v[id[e] - 1], "after growth and compress() the container still holds each element's value"); if (srcKeeps && what >= 2) gs_assert((*a)[e] == v2[id[e] - 1], "the source too"); } else gs_assert((*b)[e] == 5, "new elements hold the default");
  gs_assert(k == es.size() || (std::is_same<E, Edge>::value) || (std::is_same<E, Halfedge>::value) || (std::is_same<E, Corner>::value), "surviving elements");
  if (what == 2) { *a = *b; U bad = 0; for (E e : els<E>(*m)) bad |= (*a)[e] ^ (*b)[e]; gs_assert(!bad, "a moved-from or used container can be assigned again"); m2.reset(); }
  if (what == 3) { // containers outlive the mesh
    MD<E, U> c(*b); m.reset(); gs_assert(b->getMesh() == nullptr && c.getMesh() == nullptr && b->size() == 0, "containers know when their mesh is gone"); MD<E, U> q(c); c = *b; c = MD<E, U>(); }
  gs_cover(srcKeeps ? "copied" : "moved");
}
GS_HARNESS(lifetimes) { KINDS(life) }
// ---- reinterpretTo
template <class E> void rein() {
  auto m = base(); auto es = els<E>(*m); MD<E, U> a(*m, 5); auto v = fillSym(a, es, "x");
  std::unique_ptr<ManifoldSurfaceMesh> t; size_t how = gs_choose("to", 3);
  if (how == 0) t = m->copy(); else if (how == 1) { t = m->copy(); t->compress(); } else { t.reset(new ManifoldSurfaceMesh(m->getFaceVertexList())); Vertex x = t->insertVertex(t->face(0)); t->removeVertex(x); }
  if (geometrycentral::nElements<E>(t.get()) != es.size()) { gs_cover("different counts"); return; }
  MD<E, U> b = a.reinterpretTo(*t); auto et = els<E>(*t);
  gs_assert(b.getMesh() == t.get() && b.getDefault() == 5, "reinterpretTo() is defined on the target mesh with the same default");
  gs_assert(eq(b, et, v), "reinterpretTo() gives the i-th element of the target the value of the i-th element of the source"); gs_assert(eq(a, es, v), "reinterpretTo() leaves the source alone");
  std::set<E> old(et.begin(), et.end()); grow_(*t);
  for (E e : els<E>(*t)) if (!old.count(e)) gs_assert(b[e] == 5, "after reinterpretTo() new elements of the target hold the default");
  gs_assert(eq(b, et, v), "after reinterpretTo() growth keeps values");
  gs_cover("reinterpreted");
}
GS_HARNESS(reinterpret) { KINDS(rein) }
