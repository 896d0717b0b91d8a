// Copies are identical and independent; so are geometries.
#include "gedits.h"
#include "track.h"
#include "geometrycentral/surface/vertex_position_geometry.h"
#include "geometrycentral/surface/edge_length_geometry.h"
#include <cstring>
using geometrycentral::Vector3;
static void sameCounts(SurfaceMesh& x, SurfaceMesh& y) {
  gs_assert(x.nVertices() == y.nVertices() && x.nHalfedges() == y.nHalfedges() && x.nEdges() == y.nEdges() && x.nFaces() == y.nFaces() && x.nBoundaryLoops() == y.nBoundaryLoops() && x.nInteriorHalfedges() == y.nInteriorHalfedges() && x.nCorners() == y.nCorners() && x.isCompressed() == y.isCompressed(), "copy: same counts and flags");
  gs_assert(x.usesImplicitTwin() == y.usesImplicitTwin(), "copy: same kind of mesh");
}
static void someOp(ManifoldSurfaceMesh& m, const char* nm) {
  char b[16]; snprintf(b, sizeof b, "%s_el", nm);
  op(m, gs_choose(nm, NOPS), gs_tier() ? 3 : 1, b);
}
static void both(ManifoldSurfaceMesh& m0, std::unique_ptr<ManifoldSurfaceMesh> own) {
  std::unique_ptr<ManifoldSurfaceMesh> c; ManifoldSurfaceMesh* m = &m0; std::unique_ptr<SurfaceMesh> sc;
  Track t(*m); Abs a0 = takeValid(*m, "original"); t.sync(a0, "original");
  if (gs_choose("via", 2)) { sc = m->copyToSurfaceMesh(); ManifoldSurfaceMesh* p = dynamic_cast<ManifoldSurfaceMesh*>(sc.get()); gs_assert(p, "copyToSurfaceMesh() of a manifold mesh is a manifold mesh"); sc.release(); c.reset(p); }
  else c = m->copy();
  Abs c0 = takeValid(*c, "copy"); gs_assert(same(a0, c0), "copy: every element, index and relation is the same"); sameCounts(*m, *c);
  gs_assert(same(a0, take(*m, "original")), "copy: the original is untouched");
  size_t mode = gs_choose("edit", 3);
  if (mode == 0) { // edit the original
    someOp(*m, "op"); if (gs_choose("compress", 2)) m->compress();
    gs_assert(same(c0, takeValid(*c, "copy after editing the original")), "copy: editing the original leaves the copy alone"); gs_cover("original edited");
  } else if (mode == 1) { // edit the copy; containers of the original must not notice
    someOp(*c, "op"); if (gs_choose("compress", 2)) c->compress();
    Abs a1 = takeValid(*m, "original after editing the copy"); gs_assert(same(a0, a1), "copy: editing the copy leaves the original alone"); t.sync(a1, "original after editing the copy"); gs_cover("copy edited");
  } else if (own) { // the copy outlives the original
    own.reset(); someOp(*c, "op"); c->compress(); takeValid(*c, "copy after the original is gone"); gs_cover("original destroyed");
  }
}
GS_HARNESS(manifold) { static const VS M{0, 1, 2, 5, 7, 9, 13, 10}; auto m = catMesh(M[gs_choose("mesh", gs_tier() ? M.size() : 6)]); pre(*m); ManifoldSurfaceMesh& r = *m;
  // containers registered on the original live in `both`, so only hand over ownership when nothing tracks it
  if (gs_choose("outlive", 2)) { Abs a = takeValid(r, "original"); auto c = r.copy(); m.reset(); Abs b = takeValid(*c, "copy after the original is gone"); gs_assert(same(a, b), "copy: survives the original"); someOp(*c, "op"); c->compress(); takeValid(*c, "copy after the original is gone"); gs_cover("original destroyed"); }
  else both(r, nullptr); }
static bool gsame(const GAbs& a, const GAbs& b) { return a.H == b.H && a.V == b.V && a.E == b.E && a.F == b.F && a.next == b.next && a.sib == b.sib && a.vert == b.vert && a.edge == b.edge && a.face == b.face && a.on == b.on && a.in == b.in && a.ori == b.ori && a.vhe == b.vhe && a.ehe == b.ehe && a.fhe == b.fhe; }
GS_HARNESS(general) {
  std::unique_ptr<SurfaceMesh> m(new SurfaceMesh(zoo()[gs_choose("mesh", zoo().size())]));
  if (gs_choose("pre", 2)) { m->duplicateFace(m->face(0)); m->separateNonmanifoldEdges(); }
  GAbs a = gtakeValid(*m, "original"); auto c = m->copy(); GAbs b = gtakeValid(*c, "copy");
  gs_assert(gsame(a, b), "copy: every element, index and relation is the same"); sameCounts(*m, *c);
  size_t mode = gs_choose("edit", 3), k = gs_choose("op", 8);
  if (mode == 0) { gop(*m, k, gs_tier() ? 3 : 1, "el"); gs_assert(gsame(b, gtakeValid(*c, "copy after editing the original")), "copy: editing the original leaves the copy alone"); gs_cover("original edited"); }
  else if (mode == 1) { GTrack t(*m); t.sync(a); gop(*c, k, gs_tier() ? 3 : 1, "el"); GAbs x = gtakeValid(*m, "original after editing the copy"); gs_assert(gsame(a, x), "copy: editing the copy leaves the original alone"); t.sync(x); gs_cover("copy edited"); }
  else { m.reset(); gop(*c, k, gs_tier() ? 3 : 1, "el"); c->compress(); gtakeValid(*c, "copy after the original is gone"); gs_cover("original destroyed"); }
}
static uint64_t bits(double d) { uint64_t u; memcpy(&u, &d, 8); return u; }
static double symd(const char* b, size_t i) { char nm[16]; snprintf(nm, sizeof nm, "%s%zu", b, i); return gs_double(nm, 0.5 + i); }
GS_HARNESS(geometry) {
  static const VS M{1, 3, 5}; auto m = catMesh(M[gs_choose("mesh", 3)]); pre(*m);
  gcs::VertexData<Vector3> p(*m); std::vector<Vector3> x; size_t i = 0;
  for (Vertex v : m->vertices()) { Vector3 q{symd("x", i), symd("y", i), symd("z", i)}; i++; p[v] = q; x.push_back(q); }
  auto eqp = [&](gcs::VertexData<Vector3>& d, SurfaceMesh& mm) { size_t k = 0; uint64_t bad = 0; for (Vertex v : mm.vertices()) { for (int c = 0; c < 3; c++) bad |= bits(d[v][c]) ^ bits(x[k][c]); k++; } return bad == 0 && k == x.size(); };
  gcs::VertexPositionGeometry g(*m, p); gs_assert(eqp(g.vertexPositions, *m) && eqp(g.inputVertexPositions, *m), "geometry holds the given positions");
  p[m->vertices().begin().operator*()] = Vector3{9, 9, 9}; gs_assert(eqp(g.vertexPositions, *m), "geometry does not alias the input");
  std::unique_ptr<gcs::VertexPositionGeometry> h; std::unique_ptr<ManifoldSurfaceMesh> m2; bool other = gs_choose("other", 2);
  if (other) { m2 = m->copy(); h = g.reinterpretTo(*m2); } else h = g.copy();
  SurfaceMesh& mm = other ? (SurfaceMesh&)*m2 : (SurfaceMesh&)*m;
  gs_assert(&h->mesh == &mm && eqp(h->vertexPositions, mm) && eqp(h->inputVertexPositions, mm), "copied geometry holds the same positions on the target mesh");
  Vector3 nv{symd("n", 0), symd("n", 1), symd("n", 2)};
  if (gs_choose("which", 2)) { g.vertexPositions[*m->vertices().begin()] = nv; gs_assert(eqp(h->vertexPositions, mm), "changing the original geometry leaves the copy alone"); }
  else { h->inputVertexPositions[*mm.vertices().begin()] = nv; gs_assert(eqp(g.vertexPositions, *m), "changing the copy leaves the original geometry alone"); gs_assert(bits(h->vertexPositions[*mm.vertices().begin()].x) == bits(nv.x), "input positions and positions are the same buffer"); }
  h->purgeQuantities(); h->refreshQuantities(); h->unrequireVertexPositions(); h->purgeQuantities(); h->refreshQuantities();
  gs_assert(bits(h->vertexPositions[*++mm.vertices().begin()].y) == bits(x[1].y), "positions are never cleared");
  gs_cover("geometry");
}
GS_HARNESS(lengths) {
  static const VS M{1, 3, 5}; auto m = catMesh(M[gs_choose("mesh", 2)]); pre(*m);
  gcs::EdgeData<double> p(*m); std::vector<double> x; for (Edge e : m->edges()) { x.push_back(symd("l", x.size())); p[e] = x.back(); }
  auto eql = [&](gcs::EdgeData<double>& d, SurfaceMesh& mm) { size_t k = 0; uint64_t bad = 0; for (Edge v : mm.edges()) bad |= bits(d[v]) ^ bits(x[k++]); return bad == 0 && k == x.size(); };
  gcs::EdgeLengthGeometry g(*m, p); std::unique_ptr<ManifoldSurfaceMesh> m2; std::unique_ptr<gcs::EdgeLengthGeometry> h;
  gs_assert(eql(g.edgeLengths, *m) && eql(g.inputEdgeLengths, *m), "geometry holds the given lengths");
  bool other = gs_choose("other", 2); if (other) { m2 = m->copy(); h = g.reinterpretTo(*m2); } else h = g.copy(); SurfaceMesh& mm = other ? (SurfaceMesh&)*m2 : (SurfaceMesh&)*m;
  gs_assert(eql(h->edgeLengths, mm), "copied geometry holds the same lengths");
  g.inputEdgeLengths[*m->edges().begin()] = symd("n", 0); gs_assert(eql(h->inputEdgeLengths, mm), "changing the original leaves the copy alone");
  gs_cover("lengths");
}
