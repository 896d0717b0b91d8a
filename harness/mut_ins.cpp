#include "mut_common.h"
DEF(insertAlong, [](ManifoldSurfaceMesh& m) { ckInsertAlong(m, sym("edge", liveE(m))); })
DEF(split, [](ManifoldSurfaceMesh& m) { ckSplit(m, pick("edge", liveE(m))); })
DEF(insertVertex, [](ManifoldSurfaceMesh& m) { ckInsertVertex(m, sym("face", liveF(m))); })
DEF(connect, [](ManifoldSurfaceMesh& m) {
  size_t a = pick("heA", liveH(m));
  VS o; size_t y = a; do { o.push_back(y); y = HE(m, y).next().getIndex(); } while (y != a);
  VS out; for (size_t h : liveH(m)) if (!has(o, h)) out.push_back(h);
  if (!out.empty()) o.push_back(out[a % out.size()]); // and one halfedge of another face
  ckConnect(m, a, pick("heB", o)); })
DEF(triangulate, [](ManifoldSurfaceMesh& m) { ckTriangulate(m, pick("face", liveF(m))); })
