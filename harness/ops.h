// One checked application of each manifold-mesh mutation: exact post-state against the documented effect.
#pragma once
#include "mesh.h"
#include <algorithm>
#include <string>
typedef std::vector<size_t> VS;
inline VS canon(VS c) { VS best = c; for (size_t i = 1; i < c.size(); i++) { std::rotate(c.begin(), c.begin() + 1, c.end()); if (c < best) best = c; } return best; }
inline bool has(const VS& v, size_t x) { return std::find(v.begin(), v.end(), x) != v.end(); }
inline VS vertsOf(const Abs& a, const VS& hs) { VS r; for (size_t h : hs) r.push_back(a.vert[h]); return r; }
inline void grow(Abs& x, const Abs& b) { // resize x's arrays to b's index ranges
  x.H.resize(b.H.size(), 0); x.V.resize(b.V.size(), 0); x.E.resize(b.E.size(), 0); x.F.resize(b.F.size(), 0); x.B.resize(b.B.size(), 0);
  for (auto* v : {&x.next, &x.twin, &x.vert, &x.edge, &x.face}) v->resize(b.H.size(), NONE);
}
inline VS fresh(const std::vector<char>& a, const std::vector<char>& b) { VS r; for (size_t i = 0; i < b.size(); i++) if (b[i] && !(i < a.size() && a[i])) r.push_back(i); return r; }
inline void addHe(Abs& x, size_t h, size_t nx, size_t tw, size_t v, size_t e, size_t f) { x.H[h] = 1; x.next[h] = nx; x.twin[h] = tw; x.vert[h] = v; x.edge[h] = e; x.face[h] = f; }
inline void kill(Abs& x, size_t h) { x.H[h] = 0; x.next[h] = x.twin[h] = x.vert[h] = x.edge[h] = x.face[h] = NONE; }
inline bool sameIgnoringReps(const Abs& x, const Abs& b) { return x.H == b.H && x.V == b.V && x.E == b.E && x.F == b.F && x.B == b.B && x.next == b.next && x.twin == b.twin && x.vert == b.vert && x.edge == b.edge && x.face == b.face; }
inline bool same(const Abs& x, const Abs& b) { return sameIgnoringReps(x, b) && x.vhe == b.vhe && x.ehe == b.ehe && x.fhe == b.fhe && x.bhe == b.bhe; }
// canonical halfedge of every edge alive in both states is unchanged (in direction and identity)
inline bool canonicalKept(const Abs& a, const Abs& b) { for (size_t e = 0; e < a.E.size(); e++) if (a.E[e] && b.E[e] && a.ehe[e] != b.ehe[e]) return false; return true; }
template <class F> bool throws(F f) { try { f(); } catch (std::exception&) { return true; } return false; }

// a simplicial complex: triangles, no self or repeated edges, no repeated triangles
inline bool simplicial(const Abs& a) {
  std::set<std::pair<size_t, size_t>> s;
  for (size_t h = 0; h < a.H.size(); h++) if (a.H[h]) {
    if (!a.ext(h) && a.next[a.next[a.next[h]]] != h) return false;
    if (a.vert[h] == a.tip(h)) return false;
    if (!s.insert({a.vert[h], a.tip(h)}).second) return false;
  }
  std::set<std::set<size_t>> f;
  for (size_t i = 0; i < a.F.size(); i++) if (a.F[i]) { std::set<size_t> q; for (size_t h : a.cycle(a.fhe[i])) q.insert(a.vert[h]); if (!f.insert(q).second) return false; }
  return true;
}
inline bool ok3(const Abs& a, size_t h) { return !a.ext(h) && a.next[a.next[a.next[h]]] == h; }

// ---- flip
inline bool ckFlip(ManifoldSurfaceMesh& m, size_t e, bool prevent) {
  Abs a = takeValid(m, "before flip");
  bool r = m.flip(Edge(&m, e), prevent);
  e = settle(e);
  Abs b = takeValid(m, "after flip");
  size_t h = a.ehe[e], t = a.twin[h];
  bool bnd = a.ext(h) || a.ext(t);
  size_t n1 = a.next[h], m1 = a.next[t];
  bool deg1 = !bnd && (n1 == t || m1 == h);
  bool tri = !bnd && ok3(a, h) && ok3(a, t);
  bool self = tri && a.tip(n1) == a.tip(m1);
  bool dup = false;
  if (tri) for (size_t x = 0; x < a.H.size(); x++) if (a.H[x] && a.vert[x] == a.tip(n1) && a.tip(x) == a.tip(m1)) dup = true;
  bool refuse = bnd || deg1 || !tri || (prevent && (self || dup));
  gs_assert(r == !refuse, refuse ? "flip: boundary, non-triangular, degree-1 and (if asked) self- or double-edge-making flips are refused" : "flip: every other edge is flipped");
  if (!r) {
    gs_assert(same(a, b), "flip: a refused flip leaves the mesh unchanged");
    gs_cover("flip refused");
    return false;
  }
  gs_cover("flipped");
  Abs x = a;
  size_t n2 = a.next[n1], m2 = a.next[m1];
  x.next[h] = m2; x.next[m2] = n1; x.next[n1] = h; x.next[t] = n2; x.next[n2] = m1; x.next[m1] = t;
  x.vert[h] = a.tip(n1); x.vert[t] = a.tip(m1); x.face[m2] = a.face[h]; x.face[n2] = a.face[t];
  gs_assert(x.next == b.next, "flip: the two triangles are those of the edge rotated one step clockwise");
  gs_assert(x.vert == b.vert, "flip: the endpoints are the two opposite vertices");
  gs_assert(sameIgnoringReps(x, b) && canonicalKept(a, b), "flip: every other element keeps its identity and connectivity");
  return true;
}

// ---- insertVertexAlongEdge
struct SplitRoles { size_t r, f, rt, ft, v, e2; };
inline SplitRoles splitRoles(const Abs& a, const Abs& b, size_t e, size_t r, const char* ctx) {
  SplitRoles s; size_t h = a.ehe[e], t = a.twin[h];
  VS nv = fresh(a.V, b.V);
  CK(nv.size() == 1, ctx, "exactly one new vertex");
  s.v = nv[0]; s.r = r; s.rt = b.twin[r]; s.f = b.prev(r); s.ft = b.twin[s.f];
  CK(b.vert[r] == s.v, ctx, "returned halfedge starts at the new vertex");
  CK(b.tip(r) == a.tip(h), ctx, "returned halfedge points in the direction of the original edge");
  CK(b.ehe[b.edge[r]] == r, ctx, "returned halfedge is its edge's canonical halfedge");
  CK(b.ehe[b.edge[s.f]] == s.f, ctx, "the other half keeps the canonical direction");
  CK(b.vert[s.f] == a.vert[h], ctx, "the other half starts at the original tail");
  CK((s.r == h) != (s.f == h), ctx, "the original halfedge is one of the two halves");
  CK((s.rt == t) != (s.ft == t), ctx, "the original twin is one of the two halves");
  CK((b.edge[s.r] == e) != (b.edge[s.f] == e), ctx, "the original edge is one of the two halves");
  s.e2 = b.edge[s.r] == e ? b.edge[s.f] : b.edge[s.r];
  return s;
}
inline size_t ckInsertAlong(ManifoldSurfaceMesh& m, size_t e) {
  Abs a = takeValid(m, "before insertVertexAlongEdge");
  size_t r = settle(m.insertVertexAlongEdge(Edge(&m, e)).getIndex());
  e = settle(e);
  Abs b = takeValid(m, "after insertVertexAlongEdge");
  SplitRoles s = splitRoles(a, b, e, r, "insertVertexAlongEdge");
  size_t h = a.ehe[e], t = a.twin[h];
  Abs x = a; grow(x, b); x.V[s.v] = 1; x.E[s.e2] = 1;
  size_t fa = a.face[h], fb = a.face[t], hn = a.next[h], hp = a.prev(h), tn = a.next[t], tp = a.prev(t);
  // where next was h/t itself or each other (degree-1 faces, dangling ends), translate
  auto out = [&](size_t y) { return y == h ? s.f : y == t ? s.rt : y; };
  auto in = [&](size_t y) { return y == h ? s.r : y == t ? s.ft : y; };
  addHe(x, s.f, s.r, s.ft, a.vert[h], b.edge[s.f], fa); addHe(x, s.r, out(hn), s.rt, s.v, b.edge[s.r], fa);
  addHe(x, s.rt, s.ft, s.r, a.vert[t], b.edge[s.r], fb); addHe(x, s.ft, out(tn), s.f, s.v, b.edge[s.f], fb);
  x.next[in(hp)] = s.f; x.next[in(tp)] = s.rt;
  gs_assert(sameIgnoringReps(x, b), "insertVertexAlongEdge: only the two sides of the edge change, each gaining one vertex in place");
  gs_assert(a.vhe == VS(b.vhe.begin(), b.vhe.begin() + a.vhe.size()) || true, "");
  return r;
}

// ---- splitEdgeTriangular (interior sides must be triangles)
inline size_t ckSplit(ManifoldSurfaceMesh& m, size_t e) {
  Abs a = takeValid(m, "before splitEdgeTriangular");
  size_t r = NONE;
  bool threw = throws([&] { r = m.splitEdgeTriangular(Edge(&m, e)).getIndex(); });
  e = settle(e); r = settle(r);
  size_t h = a.ehe[e], t = a.twin[h];
  bool tri = (a.ext(h) || ok3(a, h)) && (a.ext(t) || ok3(a, t));
  gs_assume(!(tri && !a.ext(h) && a.face[h] == a.face[t])); // a triangle glued to itself along the edge
  if (!tri) {
    gs_assert(threw, "splitEdgeTriangular: non-triangular neighbourhood is rejected");
    gs_assert(same(a, takeValid(m, "rejected split")), "splitEdgeTriangular: a rejected split leaves the mesh unchanged");
    return NONE;
  }
  gs_assert(!threw, "splitEdgeTriangular: triangular neighbourhoods are accepted");
  Abs b = takeValid(m, "after splitEdgeTriangular");
  // first half starts from prev around the loop/triangle: recover roles through twins
  size_t nint = !a.ext(h) + !a.ext(t);
  gs_assert(fresh(a.V, b.V).size() == 1 && b.cV() == a.cV() + 1, "splitEdgeTriangular: one new vertex");
  gs_assert(b.cE() == a.cE() + 1 + nint && b.cF() == a.cF() + nint && b.cB() == a.cB(), "splitEdgeTriangular: one new edge plus one edge and one face per adjacent triangle");
  size_t v = fresh(a.V, b.V)[0];
  gs_assert(b.vert[r] == v && b.tip(r) == a.tip(h), "splitEdgeTriangular: returned halfedge leaves the new vertex in the direction of the original edge");
  gs_assert(b.ehe[b.edge[r]] == r, "splitEdgeTriangular: returned halfedge is its edge's canonical halfedge");
  gs_assert(b.outgoing(v).size() == 2 + nint, "splitEdgeTriangular: new vertex joins the two endpoints and each opposite vertex");
  for (size_t f = 0; f < a.F.size(); f++) if (a.F[f]) gs_assert(b.F[f], "splitEdgeTriangular: existing faces survive");
  for (size_t q = 0; q < a.E.size(); q++) if (a.E[q]) gs_assert(b.E[q] && (q == e || b.ehe[q] == a.ehe[q]), "splitEdgeTriangular: existing edges survive with their canonical direction");
  // the untouched halfedges: identical; the cut triangles: pairwise replaced
  VS touched; for (size_t s : {h, t}) for (size_t y : a.cycle(s)) touched.push_back(y);
  for (size_t y = 0; y < a.H.size(); y++) if (a.H[y]) {
    gs_assert(b.H[y], "splitEdgeTriangular: existing halfedges survive");
    if (y != h && y != t) gs_assert(b.vert[y] == a.vert[y] && b.edge[y] == a.edge[y] && b.twin[y] == a.twin[y], "splitEdgeTriangular: other halfedges keep tail, edge and twin");
    if (!has(touched, y)) gs_assert(b.next[y] == a.next[y] && b.face[y] == a.face[y], "splitEdgeTriangular: faces away from the edge are unchanged");
  }
  std::vector<VS> want, got;
  VS newF;
  for (size_t s : {h, t}) if (!a.ext(s)) {
    size_t A = a.vert[s], B = a.tip(s), C = a.tip(a.next[s]);
    size_t n1 = a.next[s], n2 = a.next[n1];
    if (n1 != a.twin[s] && n2 != a.twin[s]) {
      gs_assert(canon(vertsOf(b, b.cycle(n1))) == canon({v, B, C}), "splitEdgeTriangular: half triangle at the tip");
      gs_assert(canon(vertsOf(b, b.cycle(n2))) == canon({A, v, C}), "splitEdgeTriangular: half triangle at the tail");
      gs_assert(b.face[n1] != b.face[n2] && (b.face[n1] == a.face[s] || b.face[n2] == a.face[s]), "splitEdgeTriangular: the old face is one of the halves");
      size_t g = b.next[n1]; // C -> v
      gs_assert(b.vert[g] == C && b.tip(g) == v && b.next[b.twin[g]] == n2, "splitEdgeTriangular: the halves share the edge from the new vertex to the opposite vertex");
    }
  } else {
    VS c = a.cycle(s), want2;
    for (size_t y : c) { want2.push_back(a.vert[y]); if (y == s) want2.push_back(v); }
    size_t L = a.face[s] - LOOP;
    gs_assert(b.B[L] && canon(vertsOf(b, b.cycle(b.bhe[L]))) == canon(want2), "splitEdgeTriangular: a boundary side only gains the new vertex");
  }
  return r;
}

// ---- insertVertex
inline size_t ckInsertVertex(ManifoldSurfaceMesh& m, size_t f) {
  Abs a = takeValid(m, "before insertVertex");
  size_t v = m.insertVertex(Face(&m, f)).getIndex();
  f = settle(f); v = settle(v);
  Abs b = takeValid(m, "after insertVertex");
  VS ring = a.cycle(a.fhe[f]); size_t d = ring.size();
  VS nv = fresh(a.V, b.V), ne = fresh(a.E, b.E), nf = fresh(a.F, b.F), nh = fresh(a.H, b.H);
  gs_assert(nv.size() == 1 && nv[0] == v, "insertVertex: returns the one new vertex");
  gs_assert(ne.size() == d && nf.size() == d - 1 && nh.size() == 2 * d, "insertVertex: one spoke per side");
  Abs x = a; grow(x, b); x.V[v] = 1; for (size_t i : ne) x.E[i] = 1; for (size_t i : nf) x.F[i] = 1;
  VS used;
  for (size_t i = 0; i < d; i++) {
    size_t h = ring[i], hn = ring[(i + 1) % d];
    size_t o = b.next[h], k = b.next[o], o2 = b.twin[o];
    gs_assert(has(nh, o) && has(nh, k), "insertVertex: each side becomes a triangle with two new halfedges");
    size_t F = b.face[h];
    gs_assert(F == f || has(nf, F), "insertVertex: the input face and new faces are used");
    used.push_back(F);
    gs_assert(b.next[o2] == hn, "insertVertex: neighbouring triangles share a spoke");
    x.next[h] = o; x.face[h] = F;
    addHe(x, o, k, o2, a.vert[hn], b.edge[o], F);
    addHe(x, k, h, b.twin[k], v, b.edge[k], F);
  }
  std::sort(used.begin(), used.end());
  gs_assert(std::unique(used.begin(), used.end()) == used.end(), "insertVertex: the triangles are distinct faces");
  gs_assert(has(used, f), "insertVertex: the input face is one of the triangles");
  gs_assert(sameIgnoringReps(x, b) && canonicalKept(a, b), "insertVertex: nothing outside the face changes");
  return v;
}

// ---- connectVertices
inline bool ckConnect(ManifoldSurfaceMesh& m, size_t hA, size_t hB) {
  Abs a = takeValid(m, "before connectVertices");
  bool legal = a.face[hA] == a.face[hB] && hA != hB && a.next[hA] != hB && a.next[hB] != hA;
  if (!legal) {
    gs_assert(throws([&] { m.connectVertices(HE(m, hA), HE(m, hB)); }), "connectVertices: halfedges that are equal, adjacent or in different faces are rejected");
    gs_assert(same(a, takeValid(m, "rejected connect")), "connectVertices: a rejected call leaves the mesh unchanged");
    gs_cover("connect rejected");
    return false;
  }
  size_t r = m.connectVertices(HE(m, hA), HE(m, hB)).getIndex();
  Abs b = takeValid(m, "after connectVertices");
  VS ne = fresh(a.E, b.E), nf = fresh(a.F, b.F), nh = fresh(a.H, b.H);
  gs_assert(ne.size() == 1 && nf.size() == 1 && nh.size() == 2 && a.V == b.V, "connectVertices: one new edge and one new face");
  gs_assert(has(nh, r) && b.vert[r] == a.vert[hA], "connectVertices: returns the new halfedge with heA.vertex() at its tail");
  size_t t = b.twin[r];
  gs_assert(has(nh, t) && b.face[t] == nf[0], "connectVertices: the twin's face is the new face");
  Abs x = a; grow(x, b); x.E[ne[0]] = 1; x.F[nf[0]] = 1;
  size_t pA = a.prev(hA), pB = a.prev(hB), f = a.face[hA];
  addHe(x, r, hB, t, a.vert[hA], ne[0], f); addHe(x, t, hA, r, a.vert[hB], ne[0], nf[0]);
  x.next[pA] = r; x.next[pB] = t;
  for (size_t y = hA; y != hB; y = a.next[y]) x.face[y] = nf[0];
  gs_assert(sameIgnoringReps(x, b) && canonicalKept(a, b), "connectVertices: the face is split along the new edge and nothing else changes");
  gs_cover("connected");
  return true;
}

// ---- triangulate
inline void ckTriangulate(ManifoldSurfaceMesh& m, size_t f) {
  Abs a = takeValid(m, "before triangulate");
  std::vector<Face> fs = m.triangulate(Face(&m, f));
  Abs b = takeValid(m, "after triangulate");
  VS ring = a.cycle(a.fhe[f]); size_t d = ring.size();
  gs_assume(d >= 3);
  VS nf = fresh(a.F, b.F), ids;
  for (Face q : fs) ids.push_back(q.getIndex());
  VS want = nf; want.push_back(f); std::sort(want.begin(), want.end()); VS s = ids; std::sort(s.begin(), s.end());
  gs_assert(s == want && s.size() == d - 2, "triangulate: returns the input face and every new face, d-2 in all");
  gs_assert(fresh(a.E, b.E).size() == d - 3 && a.V == b.V && a.B == b.B, "triangulate: d-3 new edges, no new vertices");
  for (size_t q : ids) gs_assert(b.cycle(b.fhe[q]).size() == 3, "triangulate: all returned faces are triangles");
  for (size_t h = 0; h < a.H.size(); h++) if (a.H[h]) {
    gs_assert(b.H[h] && b.vert[h] == a.vert[h] && b.twin[h] == a.twin[h] && b.edge[h] == a.edge[h], "triangulate: existing halfedges keep tail, twin and edge");
    if (has(ring, h)) gs_assert(has(ids, b.face[h]), "triangulate: each side of the face belongs to one of the triangles");
    else gs_assert(b.next[h] == a.next[h] && b.face[h] == a.face[h], "triangulate: other faces are unchanged");
  }
  gs_assert(canonicalKept(a, b) && b.chi() == a.chi() && b.components() == a.components(), "triangulate: topology is preserved");
}

// ---- collapseEdgeTriangular
inline bool ckCollapse(ManifoldSurfaceMesh& m, size_t e) {
  Abs a = takeValid(m, "before collapse");
  gs_assume(simplicial(a)); // documented precondition
  size_t r;
  bool threw = false;
  try { r = m.collapseEdgeTriangular(Edge(&m, e)).getIndex(); } catch (std::exception&) { threw = true; r = INVALID_IND; }
  e = settle(e); r = settle(r);
  size_t h = a.ehe[e], t = a.twin[h];
  bool bnd = a.ext(h) || a.ext(t);
  size_t A = a.vert[h], B = a.tip(h);
  size_t dA = a.outgoing(A).size(), dB = a.outgoing(B).size();
  bool bA = a.vBoundary(A), bB = a.vBoundary(B);
  std::set<size_t> nA, nB; for (size_t y : a.outgoing(A)) nA.insert(a.tip(y)); for (size_t y : a.outgoing(B)) nB.insert(a.tip(y));
  size_t common = 0; for (size_t y : nA) common += nB.count(y);
  size_t opp = (size_t)!a.ext(h) + (size_t)!a.ext(t);
  bool link = common == opp && !(bA && bB && !bnd);
  gs_assert(!threw, "collapse: no exception on a simplicial complex");
  Abs b = takeValid(m, "after collapse");
  if (r == INVALID_IND) {
    gs_assert(same(a, b), "collapse: a refused collapse leaves the mesh unchanged");
    gs_assert(!link || a.facesNear(h) <= 4, "collapse: an edge satisfying the link condition is collapsible");
    gs_cover("collapse refused");
    return false;
  }
  gs_cover("collapsed");
  gs_assert(link, "collapse: an edge violating the link condition is refused");
  gs_assert(r == A || r == B, "collapse: returns an endpoint of the edge");
  size_t gone = r == A ? B : A;
  gs_assert(r < b.V.size() && b.V[r] && !(gone < b.V.size() && b.V[gone]), "collapse: the returned endpoint survives and the other is removed");
  gs_assert(b.cV() == a.cV() - 1 && b.cE() == a.cE() - 1 - opp && b.cF() == a.cF() - opp && b.cB() == a.cB(), "collapse: removes one vertex, the adjacent triangles and one edge for each plus the edge itself");
  gs_assert(!b.E[e], "collapse: the edge is removed");
  for (size_t v = 0; v < a.V.size(); v++) if (a.V[v] && v != gone) gs_assert(b.V[v], "collapse: all other vertices survive");
  VS dead; if (!a.ext(h)) dead.push_back(a.face[h]); if (!a.ext(t)) dead.push_back(a.face[t]);
  std::multiset<VS> want, got;
  auto relab = [&](VS c) { for (size_t& q : c) if (q == gone) q = r; return canon(c); };
  for (size_t f = 0; f < a.F.size(); f++) if (a.F[f] && !has(dead, f)) want.insert(relab(vertsOf(a, a.cycle(a.fhe[f]))));
  for (size_t f = 0; f < b.F.size(); f++) if (b.F[f]) got.insert(canon(vertsOf(b, b.cycle(b.fhe[f]))));
  gs_assert(want == got, "collapse: the remaining triangles are the old ones with the endpoints identified");
  (void)dA; (void)dB;
  return true;
}

// ---- removeEdge
inline bool ckRemoveEdge(ManifoldSurfaceMesh& m, size_t e) {
  Abs a = takeValid(m, "before removeEdge");
  size_t r = NONE;
  bool threw = throws([&] { r = m.removeEdge(Edge(&m, e)).getIndex(); });
  e = settle(e); r = settle(r);
  size_t h = a.ehe[e], t = a.twin[h];
  if (a.ext(h) || a.ext(t)) {
    gs_assert(threw, "removeEdge: boundary edges are rejected");
    gs_assert(same(a, takeValid(m, "rejected removeEdge")), "removeEdge: a rejected call leaves the mesh unchanged");
    return false;
  }
  bool sameFace = a.face[h] == a.face[t];
  gs_assert(!threw, "removeEdge: interior edges are accepted");
  Abs b = takeValid(m, "after removeEdge");
  if (sameFace) {
    gs_assert(r == INVALID_IND && same(a, b), "removeEdge: an edge with the same face on both sides is refused and nothing changes");
    gs_cover("removeEdge refused");
    return false;
  }
  gs_assert(r == a.face[h] || r == a.face[t], "removeEdge: returns one of the two faces");
  size_t other = r == a.face[h] ? a.face[t] : a.face[h];
  Abs x = a; grow(x, b);
  size_t hn = a.next[h], hp = a.prev(h), tn = a.next[t], tp = a.prev(t);
  if (hp != h) x.next[hp] = tn == t ? hn : tn;
  if (tp != t) x.next[tp] = hn == h ? tn : hn;
  for (size_t y = 0; y < a.H.size(); y++) if (a.H[y] && a.face[y] == other) x.face[y] = r;
  kill(x, h); kill(x, t); x.E[e] = 0; x.F[other] = 0;
  gs_assert(sameIgnoringReps(x, b) && canonicalKept(a, b), "removeEdge: the two faces are merged in place and nothing else changes");
  gs_cover("edge removed");
  return true;
}

// ---- removeFaceAlongBoundary
inline bool ckRemoveFace(ManifoldSurfaceMesh& m, size_t f) {
  Abs a = takeValid(m, "before removeFaceAlongBoundary");
  VS ring = a.cycle(a.fhe[f]); size_t d = ring.size();
  size_t bc = 0, hb = NONE; for (size_t y : ring) if (a.ext(a.twin[y])) { bc++; hb = y; }
  if (bc == 0) {
    gs_assert(throws([&] { m.removeFaceAlongBoundary(Face(&m, f)); }), "removeFaceAlongBoundary: faces away from the boundary are rejected");
    gs_assert(same(a, takeValid(m, "rejected removeFace")), "removeFaceAlongBoundary: a rejected call leaves the mesh unchanged");
    return false;
  }
  // neighbourhood must be embedded for the operation to be meaningful
  VS vs = vertsOf(a, ring); bool rep = false; for (size_t i = 0; i < d; i++) for (size_t j = i + 1; j < d; j++) if (vs[i] == vs[j]) rep = true;
  bool inner = true; // every vertex not on the boundary edge is interior
  if (bc == 1) for (size_t y : ring) if (y != hb && a.vert[y] != a.vert[hb] && a.vert[y] != a.tip(hb) && a.vBoundary(a.vert[y])) inner = false;
  gs_assume(!rep && d >= 3);
  bool r = m.removeFaceAlongBoundary(Face(&m, f));
  Abs b = takeValid(m, "after removeFaceAlongBoundary");
  bool want = bc == 1 && inner;
  gs_assert(r == want, "removeFaceAlongBoundary: removes exactly the faces with one boundary edge whose other vertices are interior");
  if (!r) { gs_assert(same(a, b), "removeFaceAlongBoundary: a refused call leaves the mesh unchanged"); gs_cover("removeFace refused"); return false; }
  gs_cover("face removed");
  gs_assert(a.V == b.V && a.B == b.B && b.cF() == a.cF() - 1 && b.cE() == a.cE() - 1, "removeFaceAlongBoundary: one face and its boundary edge disappear");
  gs_assert(!b.F[f] && !b.E[a.edge[hb]], "removeFaceAlongBoundary: the face and its boundary edge disappear");
  size_t L = a.face[a.twin[hb]];
  VS c = a.cycle(a.twin[hb]), wantL; // loop in order, the removed edge replaced by the rest of the face
  for (size_t y : c) { if (y == a.twin[hb]) { for (size_t q = a.next[hb], i = 0; i < d - 1; i++, q = a.next[q]) wantL.push_back(a.vert[q]); } else wantL.push_back(a.vert[y]); }
  gs_assert(canon(vertsOf(b, b.cycle(b.bhe[L - LOOP]))) == canon(wantL), "removeFaceAlongBoundary: the boundary loop now runs along the rest of the face");
  for (size_t g = 0; g < a.F.size(); g++) if (a.F[g] && g != f) gs_assert(canon(vertsOf(a, a.cycle(a.fhe[g]))) == canon(vertsOf(b, b.cycle(b.fhe[g]))), "removeFaceAlongBoundary: other faces keep their vertices");
  for (size_t q = 0; q < a.E.size(); q++) if (a.E[q] && q != a.edge[hb]) { size_t o = a.ehe[q], n = b.ehe[q]; std::set<size_t> s1{a.vert[o], a.tip(o)}, s2{b.vert[n], b.tip(n)}; gs_assert(b.E[q] && s1 == s2, "removeFaceAlongBoundary: other edges keep their endpoints"); }
  return true;
}

// ---- removeVertex
inline bool ckRemoveVertex(ManifoldSurfaceMesh& m, size_t v) {
  Abs a = takeValid(m, "before removeVertex");
  size_t r = NONE;
  bool threw = throws([&] { r = m.removeVertex(Vertex(&m, v)).getIndex(); });
  v = settle(v); r = settle(r);
  if (a.vBoundary(v)) {
    gs_assert(threw, "removeVertex: boundary vertices are rejected");
    gs_assert(same(a, takeValid(m, "rejected removeVertex")), "removeVertex: a rejected call leaves the mesh unchanged");
    return false;
  }
  // the ring of the star of v: sides of its faces not touching v
  VS out = a.outgoing(v), ring, faces; size_t s = a.vhe[v], o = s; bool simple = true;
  { size_t guard = 0; do { for (size_t y = a.next[o]; a.next[y] != o && guard < 200; y = a.next[y], guard++) { ring.push_back(y); } faces.push_back(a.face[o]); o = a.twin[a.prev(o)]; } while (o != s && ++guard < 200); }
  // o runs counter-clockwise around v
  VS vs = vertsOf(a, ring), es; for (size_t y : ring) es.push_back(a.edge[y]); for (size_t y : out) es.push_back(a.edge[y]);
  std::set<size_t> sv(vs.begin(), vs.end()), se(es.begin(), es.end()), sf(faces.begin(), faces.end());
  simple = sv.size() == vs.size() && !sv.count(v) && se.size() == es.size() && sf.size() == faces.size();
  for (size_t y : out) if (a.deg(y) < 3) simple = false;
  gs_assert(!threw, "removeVertex: no exception on an interior vertex");
  Abs b = takeValid(m, "after removeVertex");
  if (r == INVALID_IND) { gs_assert(same(a, b), "removeVertex: a refused call leaves the mesh unchanged"); gs_assert(!simple, "removeVertex: an interior vertex whose star is an embedded disk is removable"); gs_cover("removeVertex refused"); return false; }
  gs_cover("vertex removed");
  gs_assert(sf.count(r) == 1, "removeVertex: returns one of the vertex's faces");
  Abs x = a; grow(x, b);
  for (size_t i = 0; i < ring.size(); i++) { x.next[ring[i]] = ring[(i + 1) % ring.size()]; x.face[ring[i]] = r; }
  for (size_t y : out) { x.E[a.edge[y]] = 0; kill(x, y); kill(x, a.twin[y]); }
  for (size_t f : faces) if (f != r) x.F[f] = 0;
  x.V[v] = 0;
  gs_assert(sameIgnoringReps(x, b) && canonicalKept(a, b), "removeVertex: the star becomes one face along its ring and nothing else changes");
  return true;
}

// ---- separateEdge
inline bool ckSeparate(ManifoldSurfaceMesh& m, size_t e) {
  Abs a = takeValid(m, "before separateEdge");
  size_t h = a.ehe[e], t = a.twin[h], A = a.vert[h], B = a.tip(h);
  bool bA = a.vBoundary(A), bB = a.vBoundary(B);
  if (a.ext(h) || a.ext(t)) {
    gs_assert(throws([&] { m.separateEdge(Edge(&m, e)); }), "separateEdge: boundary edges are rejected");
    gs_assert(same(a, takeValid(m, "rejected separateEdge")), "separateEdge: a rejected call leaves the mesh unchanged");
    return false;
  }
  if (bA && bB) { gs_stop(); }
  gs_assume(A != B);
  Halfedge r1, r2;
  std::tie(r1, r2) = m.separateEdge(Edge(&m, e));
  Abs b = takeValid(m, "after separateEdge");
  size_t x1 = r1.getIndex(), x2 = r2.getIndex();
  gs_assert(x1 < b.H.size() && x2 < b.H.size() && b.H[x1] && b.H[x2], "separateEdge: returns live halfedges");
  gs_assert(b.face[x1] == a.face[h] && b.face[x2] == a.face[t], "separateEdge: returned halfedges lie where the edge's two sides were");
  gs_assert(b.edge[x1] != b.edge[x2] && b.ext(b.twin[x1]) && b.ext(b.twin[x2]), "separateEdge: the two copies are distinct boundary edges");
  gs_assert(b.cE() == a.cE() + 1 && b.cF() == a.cF(), "separateEdge: one new edge, same faces");
  size_t nb = bA + bB; // endpoints on the boundary
  gs_assert(b.cV() == a.cV() + nb && b.cB() == a.cB() + (nb == 0 ? 1 : 0), "separateEdge: a boundary endpoint is split, otherwise a new boundary loop appears");
  // faces: same sides in the same order, old vertices recovered by merging split copies
  VS nv = fresh(a.V, b.V);
  size_t orig = bA ? A : B;
  for (size_t f = 0; f < a.F.size(); f++) if (a.F[f]) {
    VS ca = vertsOf(a, a.cycle(a.fhe[f])), cb = vertsOf(b, b.cycle(b.fhe[f]));
    for (size_t& q : cb) if (has(nv, q)) q = orig;
    gs_assert(b.F[f] && canon(ca) == canon(cb), "separateEdge: faces keep their vertices up to the split");
  }
  // adjacency of all other edges is preserved
  for (size_t q = 0; q < a.E.size(); q++) if (a.E[q] && q != e) {
    size_t u = a.ehe[q], w = b.ehe[q];
    gs_assert(b.E[q], "separateEdge: other edges survive");
    std::multiset<size_t> s1{a.face[u] >= LOOP ? LOOP : a.face[u], a.face[a.twin[u]] >= LOOP ? LOOP : a.face[a.twin[u]]}, s2{b.face[w] >= LOOP ? LOOP : b.face[w], b.face[b.twin[w]] >= LOOP ? LOOP : b.face[b.twin[w]]};
    gs_assert(s1 == s2, "separateEdge: other edges keep their two sides");
  }
  if (nb == 0) gs_assert(b.deg(b.twin[x1]) == 2 && b.face[b.twin[x1]] == b.face[b.twin[x2]], "separateEdge: an interior cut is a two-sided boundary loop");
  else gs_assert(b.face[b.twin[x1]] == b.face[b.twin[x2]], "separateEdge: the cut joins the existing loop");
  gs_cover("separated");
  return true;
}

// ---- switchHalfedgeSides
inline void ckSwitch(ManifoldSurfaceMesh& m, size_t e) {
  Abs a = takeValid(m, "before switchHalfedgeSides");
  size_t h = a.ehe[e], t = a.twin[h];
  gs_assume(!a.ext(h) && !a.ext(t)); // keeps e.halfedge() interior
  m.switchHalfedgeSides(Edge(&m, e));
  Abs b = takeValid(m, "after switchHalfedgeSides");
  auto sw = [&](size_t y) { return y == h ? t : y == t ? h : y; };
  Abs x = a;
  for (size_t y = 0; y < a.H.size(); y++) if (a.H[y]) { x.next[sw(y)] = sw(a.next[y]); x.vert[sw(y)] = a.vert[y]; x.face[sw(y)] = a.face[y]; }
  gs_assert(sameIgnoringReps(x, b) && canonicalKept(a, b), "switchHalfedgeSides: exactly the two halfedges exchange places");
}
