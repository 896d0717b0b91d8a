#pragma once
#include "ops.h"
// pre: 0 as constructed; 1 with deleted slots; 2 with deleted slots and spare capacity; 3 a face replaced by a fan around
// a new vertex (last face: low-degree interior vertices next to the boundary); 4 as 2, then compressed
static void pre(ManifoldSurfaceMesh& m) {
  size_t p = gs_choose("pre", gs_tier() ? 5 : 4);
  if (p == 0) return;
  if (p == 3) { m.insertVertex(m.face(m.nFaces() - 1)); return; }
  Vertex v = m.insertVertex(m.face(0));
  if (p >= 2) { m.insertVertexAlongEdge(m.face(0).halfedge().edge()); }
  m.removeVertex(v);
  if (p == 4) m.compress();
}
template <class F> static void overCat(F f) { auto m = catMesh(gs_choose("mesh", catalogue().size())); pre(*m); f(*m); }
template <class F> static void overGlue(F f) {
  // symbolic gluings: two triangles, triangle+quad, two quads (quick); three triangles and a pentagon+triangle (thorough)
  static const std::vector<std::vector<int>> D = {{3, 3}, {3, 4}, {4, 4}, {3, 3, 3}, {5, 3}};
  auto m = gluedMesh(D[gs_choose("shape", gs_tier() ? 5 : 2)]); f(*m);
}
static VS liveE(ManifoldSurfaceMesh& m) { VS r; for (size_t i = 0; i < m.edgeIndexSize(); i++) if (!Edge(&m, i).isDead()) r.push_back(i); return r; }
static VS liveF(ManifoldSurfaceMesh& m) { VS r; for (size_t i = 0; i < m.faceIndexSize(); i++) if (!Face(&m, i).isDead()) r.push_back(i); return r; }
static VS liveV(ManifoldSurfaceMesh& m) { VS r; for (size_t i = 0; i < m.vertexIndexSize(); i++) if (!Vertex(&m, i).isDead()) r.push_back(i); return r; }
static VS liveH(ManifoldSurfaceMesh& m) { VS r; for (size_t i = 0; i < m.halfedgeIndexSize(); i++) if (!Halfedge(&m, i).isDead() && Halfedge(&m, i).isInterior()) r.push_back(i); return r; }
#define DEF(n, F)                                                                                                      \
  GS_HARNESS(cat_##n) { overCat(F); }                                                                                  \
  GS_HARNESS(glue_##n) { overGlue(F); }
