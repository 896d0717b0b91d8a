#include "gmesh.h"
static void both(const Polys& P) {
  Reading r = readPolys(P);
  std::unique_ptr<SurfaceMesh> m;
  try { m.reset(new SurfaceMesh(P)); } catch (const std::exception&) {}
  if (!r.degOk || !r.dense) { gs_assert(!m, "general: faces of degree < 3 and unreferenced vertices are rejected"); gs_cover("rejected"); return; }
  if (r.selfEdge) return; // unspecified
  gs_assert(!!m, "general: every other polygon list is accepted");
  GAbs a = gtakeValid(*m, "general mesh");
  gs_assert(m->nVertices() == r.nv && m->nFaces() == P.size() && m->nEdges() == r.ne && m->nHalfedges() == r.ncorner && m->isCompressed(), "general: element counts match the input");
  std::map<std::pair<size_t, size_t>, size_t> eOf;
  for (size_t f = 0; f < P.size(); f++) {
    L c = a.cyc(a.fhe[f]); gs_assert(c.size() == P[f].size(), "general: face degree matches the input");
    for (size_t j = 0; j < c.size(); j++) {
      gs_assert(a.vert[c[j]] == P[f][j], "general: face lists its input vertices in order");
      auto k = up(P[f][j], P[f][(j + 1) % c.size()]);
      if (!eOf.count(k)) eOf[k] = a.edge[c[j]];
      gs_assert(eOf[k] == a.edge[c[j]], "general: sides joining the same two vertices share one edge");
    }
  }
  gs_assert(m->getFaceVertexList() == P, "general: getFaceVertexList() returns the input");
  gckQueries(*m, a, "general mesh");
  gs_assert(m->isManifold() == (r.edgeManifold && r.vertexManifold), "general: isManifold() exactly for manifold input");
  gs_assert(m->nConnectedComponents() == r.comps, "general: nConnectedComponents()");
  bool good = r.edgeManifold && r.vertexManifold && r.oriented;
  std::unique_ptr<ManifoldSurfaceMesh> q;
  try { q = m->toManifoldMesh(); } catch (const std::exception&) {}
  gs_assert(!!q == good, "general: toManifoldMesh() succeeds exactly on manifold oriented meshes");
  if (q) {
    Abs b = takeValid(*q, "toManifoldMesh");
    gs_assert(q->getFaceVertexList() == P && q->nEdges() == r.ne && q->nExteriorHalfedges() == r.nBdyEdges, "general: toManifoldMesh() has the same faces and gluing");
    gs_cover("converted to manifold");
  } else gs_cover(r.edgeManifold ? "edge manifold only" : "non-manifold edge");
  std::unique_ptr<SurfaceMesh> k = m->copy();
  gs_assert(k->getFaceVertexList() == P && !k->usesImplicitTwin(), "general: copy() has the same faces");
  gtakeValid(*k, "copy");
}
GS_HARNESS(tri3) { both(growPolys({3, 3, 3}, true)); }
GS_HARNESS(mixed) { std::vector<std::vector<int>> D = {{3, 4}, {4, 3}, {5, 3}, {4, 4}}; both(growPolys(D[gs_choose("shape", gs_tier() ? 4 : 2)], true)); }
GS_HARNESS(repeat) { if (gs_tier()) both(growPolys({6}, false)); else both(growPolys({5}, false)); }
GS_HARNESS(repeat2) { std::vector<std::vector<int>> D = {{4, 3}, {5, 3}}; both(growPolys(D[gs_tier() ? 1 : 0], false)); }
GS_HARNESS(any) { std::vector<std::vector<int>> D = {{3}, {3, 2}, {2}, {3, 0}, {3, 1}, {3, 3}}; size_t k = gs_choose("shape", gs_tier() ? 6 : 5); both(anyPolys(D[k], k == 0 ? 5 : 4)); }
GS_HARNESS(fan) {
  size_t n = 2 + gs_choose("n", gs_tier() ? 4 : 3); Polys P;
  for (size_t i = 0; i < n; i++) { size_t o = gs_choose("order", 3); std::vector<size_t> f{0, i + 1, i + 1 == n && gs_choose("close", 2) ? 1 : i + 2}; if (i && gs_choose("turn", 2)) std::swap(f[1], f[2]); std::rotate(f.begin(), f.begin() + o, f.end()); P.push_back(f); }
  both(P);
}
// several faces around one edge, further faces on the outside
GS_HARNESS(book) {
  Polys P; size_t n = 3 + gs_choose("pages", 2);
  for (size_t i = 0; i < n; i++) { std::vector<size_t> f{0, 1, 2 + i}; if (i && gs_choose("turn", 2)) std::swap(f[0], f[1]); P.push_back(f); }
  if (gs_choose("extra", 2)) { std::vector<size_t> o; std::vector<size_t> f; for (int j = 0; j < 3; j++) { o.clear(); for (size_t v = 0; v < n + 2; v++) { bool u = false; for (size_t w : f) u |= w == v; if (!u) o.push_back(v); } f.push_back(pick("x", o)); } P.push_back(f); }
  both(P);
}
GS_HARNESS(tri4) { if (gs_tier()) both(growPolys({3, 3, 3, 3}, true, 2)); else both(growPolys({3, 3, 3}, true, 2)); }
