#include "poly.h"
// Everything a constructed manifold mesh must say about its input.
static void ckBuilt(ManifoldSurfaceMesh& m, const Polys& P, const Reading& r) {
  Abs a = takeValid(m, "constructed");
  gs_assert(m.nVertices() == r.nv && m.nFaces() == P.size() && m.nEdges() == r.ne && m.nCorners() == r.ncorner, "construct: element counts match the input");
  gs_assert(m.nExteriorHalfedges() == r.nBdyEdges, "construct: one exterior halfedge per boundary edge");
  gs_assert(m.isCompressed() && a.H.size() == m.nHalfedges() && a.V.size() == r.nv, "construct: a new mesh is compressed");
  for (size_t f = 0; f < P.size(); f++) {
    size_t h = a.fhe[f];
    gs_assert(a.deg(h) == P[f].size(), "construct: face degree matches the input");
    for (size_t j = 0; j < P[f].size(); j++, h = a.next[h]) {
      gs_assert(a.face[h] == f && a.vert[h] == P[f][j], "construct: face lists its input vertices in order from its first halfedge");
      auto& u = r.uses.at(up(P[f][j], P[f][(j + 1) % P[f].size()]));
      gs_assert(a.ext(a.twin[h]) == (u.size() == 1), "construct: a side is on the boundary exactly if no other face uses it");
      if (u.size() == 2) {
        auto o = u[0] == std::make_pair(f, j) ? u[1] : u[0];
        size_t t = a.fhe[o.first]; for (size_t k = 0; k < o.second; k++) t = a.next[t];
        gs_assert(a.twin[h] == t, "construct: the twin of a side is the opposite side of the other face using it");
      }
    }
  }
  for (size_t v = 0; v < r.nv; v++) gs_assert(Vertex(&m, v).isBoundary() == (bool)r.vBdy[v], "construct: vertex is on the boundary exactly if on a boundary side");
  Polys L = m.getFaceVertexList();
  gs_assert(L == P, "construct: getFaceVertexList() returns the input");
  bool tri = true; for (auto& p : P) tri = tri && p.size() == 3;
  gs_assert(m.isTriangular() == tri, "construct: isTriangular()");
  gs_assert(m.hasBoundary() == (r.nBdyEdges > 0), "construct: hasBoundary()");
  gs_assert(m.nConnectedComponents() == r.comps, "construct: nConnectedComponents()");
  int chi = (int)r.nv - (int)r.ne + (int)P.size() + (int)m.nBoundaryLoops(); // boundary loops count as (filled) faces
  gs_assert(m.eulerCharacteristic() == chi, "construct: eulerCharacteristic()");
  if (r.comps == 1) gs_assert(2 - 2 * m.genus() == chi, "construct: genus() of a connected surface satisfies Euler's formula");
  size_t ni = 0; for (char b : r.vBdy) ni += !b;
  gs_assert(m.nInteriorVertices() == ni, "construct: nInteriorVertices()");
  gs_assert(m.isManifold() && m.isEdgeManifold() && m.isOriented(), "construct: manifold, edge manifold, oriented");
  gs_cover(r.nBdyEdges ? "accepted with boundary" : "accepted closed");
}
static void both(const Polys& P) {
  Reading r = readPolys(P);
  bool good = r.degOk && r.dense && !r.selfEdge && r.directedUnique && r.edgeManifold && r.vertexManifold;
  std::unique_ptr<ManifoldSurfaceMesh> m;
  try { m.reset(new ManifoldSurfaceMesh(P)); } catch (const std::exception&) {}
  if (!good) { gs_assert(!m, "construct: a polygon list that is not a manifold oriented surface is rejected"); gs_cover("rejected"); return; }
  gs_assert(!!m, "construct: a manifold oriented polygon list is accepted");
  ckBuilt(*m, P, r);
}
GS_HARNESS(tri3) { both(growPolys({3, 3, 3}, true)); }
GS_HARNESS(mixed) { std::vector<std::vector<int>> D = {{3, 4}, {4, 3}, {5, 3}, {4, 4}}; both(growPolys(D[gs_choose("shape", gs_tier() ? 4 : 2)], true)); }
GS_HARNESS(repeat) { if (gs_tier()) both(growPolys({6}, false)); else both(growPolys({5}, false)); } // one polygon, vertices may repeat
GS_HARNESS(repeat2) { std::vector<std::vector<int>> D = {{4, 3}, {5, 3}}; both(growPolys(D[gs_tier() ? 1 : 0], false)); }
GS_HARNESS(any) { std::vector<std::vector<int>> D = {{3}, {3, 2}, {2}, {3, 0}, {3, 1}, {3, 3}}; size_t k = gs_choose("shape", gs_tier() ? 6 : 5); both(anyPolys(D[k], k == 0 ? 5 : 4)); }
// fans around a vertex, closing up or not: larger valence, vertex 0 in every face
GS_HARNESS(fan) {
  size_t n = 2 + gs_choose("n", gs_tier() ? 4 : 3); Polys P;
  for (size_t i = 0; i < n; i++) { size_t o = gs_choose("order", 3); std::vector<size_t> f{0, i + 1, i + 1 == n && gs_choose("close", 2) ? 1 : i + 2}; if (i && gs_choose("turn", 2)) std::swap(f[1], f[2]); std::rotate(f.begin(), f.begin() + o, f.end()); P.push_back(f); }
  both(P);
}
// four triangles that pairwise share edges (closed or nearly closed)
GS_HARNESS(tri4) { if (gs_tier()) both(growPolys({3, 3, 3, 3}, true, 2)); else { Polys P = growPolys({3, 3}, true, 2); Polys Q; gs_assume(P[1] == std::vector<size_t>({0, 3, 1}) || P[1] == std::vector<size_t>({0, 1, 3}));
    for (int k = 0; k < 2; k++) { std::vector<size_t> f; for (int j = 0; j < 3; j++) { std::vector<size_t> o; for (size_t v = 0; v < 5; v++) { bool u = false; for (size_t w : f) u |= v == w; if (!u) o.push_back(v); } f.push_back(pick(k ? "q" : "p", o)); } P.push_back(f); }
    both(P); } }
// explicit twins: any oriented gluing, including ones no vertex-based list can express
static void twins(const std::vector<int>& degs) {
  size_t n = 0; for (int d : degs) n += d;
  std::vector<int> mate = symGluing(n);
  Glue g = makeGlue(degs, mate);
  std::unique_ptr<ManifoldSurfaceMesh> m;
  try { m.reset(new ManifoldSurfaceMesh(g.polys, g.twins)); } catch (const std::exception&) {}
  if (!g.ok) { gs_assert(!m, "twins: a self-edge is rejected"); gs_cover("rejected"); return; }
  gs_assert(!!m, "twins: every oriented gluing without self-edges is accepted");
  Abs a = takeValid(*m, "constructed from twins");
  std::vector<size_t> he;
  for (size_t f = 0; f < degs.size(); f++) {
    size_t h = a.fhe[f]; gs_assert(a.deg(h) == (size_t)degs[f], "twins: face degree matches the input");
    for (int j = 0; j < degs[f]; j++, h = a.next[h]) { gs_assert(a.vert[h] == g.polys[f][j], "twins: face lists its input vertices in order"); he.push_back(h); }
  }
  size_t ne = 0, nb = 0;
  for (size_t i = 0; i < n; i++) {
    if (mate[i] < 0) { nb++; ne++; gs_assert(a.ext(a.twin[he[i]]), "twins: unmatched sides are on the boundary"); }
    else { if ((size_t)mate[i] > i) ne++; gs_assert(a.twin[he[i]] == he[mate[i]], "twins: matched sides are twins"); }
  }
  gs_assert(m->nEdges() == ne && m->nExteriorHalfedges() == nb && m->nFaces() == degs.size(), "twins: element counts match the input");
  gs_assert(m->getFaceVertexList() == g.polys, "twins: getFaceVertexList() returns the input");
  gs_assert(m->nConnectedComponents() == a.components(), "twins: nConnectedComponents()");
  if (a.components() == 1) gs_assert(2 - 2 * m->genus() == a.chi() + (int)m->nBoundaryLoops(), "twins: genus() satisfies Euler's formula");
  gs_cover(nb ? "gluing with boundary" : "closed gluing");
}
GS_HARNESS(twins) { std::vector<std::vector<int>> D = {{3, 3}, {3, 4}, {4, 4}, {3, 3, 3}}; twins(D[gs_choose("shape", gs_tier() ? 4 : 2)]); }
// matrix input means the same as the list
GS_HARNESS(matrix) {
  Polys P = growPolys({3, 3}, true);
  Eigen::Matrix<size_t, Eigen::Dynamic, Eigen::Dynamic> F(2, 3); for (int i = 0; i < 2; i++) for (int j = 0; j < 3; j++) F(i, j) = P[i][j];
  Reading r = readPolys(P);
  std::unique_ptr<ManifoldSurfaceMesh> m; try { m.reset(new ManifoldSurfaceMesh(F)); } catch (const std::exception&) {}
  bool good = r.directedUnique && r.vertexManifold;
  gs_assert(!!m == good, "matrix: accepted exactly if the list would be");
  if (m) {
    ckBuilt(*m, P, r);
    auto G = m->getFaceVertexMatrix<size_t>();
    gs_assert(G.rows() == 2 && G.cols() == 3, "matrix: getFaceVertexMatrix() shape");
    for (int i = 0; i < 2; i++) for (int j = 0; j < 3; j++) gs_assert(G(i, j) == P[i][j], "matrix: getFaceVertexMatrix() returns the input");
  }
}
