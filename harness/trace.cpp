// Geodesic tracing: straight lines in the plane, unfolded paths and round trips on cones.
#include "itri.h"
#include "geometrycentral/surface/trace_geodesic.h"
static Vector2 unitv(Vector2 v) { return v / v.norm(); }
struct Plane {
  Flat& F; IntrinsicGeometryInterface& g; Plane(Flat& f) : F(f), g(*f.g) { g.requireHalfedgeVectorsInVertex(); g.requireVertexAngleSums(); }
  Vector2 P(Vertex v) { return F.p[v.getIndex()]; }
  Vector2 axis(const SurfacePoint& p) { Halfedge h = p.type == SurfacePointType::Edge ? p.edge.halfedge() : p.type == SurfacePointType::Face ? p.face.halfedge() : p.vertex.halfedge(); return unitv(P(h.tipVertex()) - P(h.tailVertex())); }
  Vector2 toLocal(const SurfacePoint& p, Vector2 d) { // d is a concrete direction
    Vector2 a = axis(p), r{dot(a, d), cross(a, d)}; if (p.type == SurfacePointType::Vertex && p.vertex.isBoundary()) { double t = std::atan2(r.y, r.x), s = PI / g.vertexAngleSums[p.vertex], n = r.norm(); return Vector2{std::cos(t * s), std::sin(t * s)} * n; } return r; }
  Vector2 toGlobal(const SurfacePoint& p, Vector2 d) { Vector2 a = axis(p); return {a.x * d.x - a.y * d.y, a.y * d.x + a.x * d.y}; }
  bool inwards(Vertex v, Vector2 d) { if (!v.isBoundary()) return true; Halfedge h = v.halfedge(); Vector2 a = P(h.tipVertex()) - P(v), b = P(v) - P(h.twin().next().tipVertex()); return cross(a, d) > 1e-3 && cross(b, d) > 1e-3; }
};
static Vector2 direction(double scale = 1) { static const Vector2 D[] = {{.8125, .5}, {-.4375, 1.25}, {-1.0625, -.3125}, {.1875, -.9375}, {2.25, .21875}, {-.15625, 2.5}, {-2.125, .9375}, {.34375, -.265625}}; return scale * D[gs_choose("dir", gs_tier() ? 8 : 5)]; }
// follows the segment from the given place through the plane: sorted inner edges crossed, and the boundary crossing if any
struct Expect { std::vector<std::pair<double, Edge>> cross; bool out = false; double len = 1; };
static Expect follow(Plane& L, Vector2 a, Vector2 d, const SurfacePoint& start, const EdgeData<bool>* barrier, size_t maxCross) {
  Expect x; std::vector<std::pair<double, Edge>> hits;
  for (Edge e : L.F.m->edges()) {
    if (start.type == SurfacePointType::Edge && start.edge == e) continue; if (start.type == SurfacePointType::Vertex && (e.firstVertex() == start.vertex || e.secondVertex() == start.vertex)) continue;
    Vector2 u = L.P(e.halfedge().tailVertex()), w = L.P(e.halfedge().tipVertex()); double s1 = cross(d, u - a), s2 = cross(d, w - a); // sides of the line
    gs_assume((s1 > 1. / 128) | (s1 < -1. / 128)); gs_assume((s2 > 1. / 128) | (s2 < -1. / 128));
    if ((s1 > 0) == (s2 > 0)) continue; double den = cross(d, w - u), t = cross(u - a, w - u) / den; gs_assume((t > 1. / 128) | (t < -1. / 128)); gs_assume((t > 1 + 1. / 128) | (t < 1 - 1. / 128)); // away from ends
    if (t > 0 && t < 1) hits.push_back({t, e});
  }
  for (size_t i = 0; i < hits.size(); i++) for (size_t j = i + 1; j < hits.size(); j++) if (hits[j].first < hits[i].first) std::swap(hits[i], hits[j]);
  for (auto& h : hits) { x.cross.push_back(h); if (h.second.isBoundary() || (barrier && (*barrier)[h.second])) { x.out = true; x.len = h.first; return x; } if (x.cross.size() > maxCross) { x.len = h.first; return x; } }
  return x;
}
static void run(Plane& L, SurfacePoint s, Vector2 d, bool bary, const EdgeData<bool>* barrier = nullptr, size_t maxIters = INVALID_IND) {
  Vector2 a = L.F.at(s); Expect x = follow(L, a, d, s, barrier, maxIters == INVALID_IND ? 1000 : maxIters);
  TraceOptions o; o.includePath = true; o.barrierEdges = const_cast<EdgeData<bool>*>(barrier); o.maxIters = maxIters; o.errorOnProblem = true;
  TraceGeodesicResult r; Vector2 v = L.toLocal(s, d);
  if (!bary) r = traceGeodesic(L.g, s, v, o);
  else { Vector2 q[3]; size_t k = 0; for (Vertex w : s.face.adjacentVertices()) q[k++] = L.P(w); double A = cross(q[1] - q[0], q[2] - q[0]); Vector3 b{0, cross(d, q[2] - q[0]) / A, cross(q[1] - q[0], d) / A}; b.x = -b.y - b.z; r = traceGeodesic(L.g, s.face, s.faceCoords, b, o); }
  bool cut = !x.out && maxIters != INVALID_IND && x.cross.size() > maxIters; double D = d.norm();
  gs_assert(r.hasPath && r.pathPoints.size() == x.cross.size() + (x.out || cut ? 1 : 2), "a trace visits exactly the edges the straight path crosses");
  near2(L.F.at(r.pathPoints[0]), a, "a traced path begins at its start");
  for (size_t i = 0; i < x.cross.size(); i++) { SurfacePoint& p = r.pathPoints[i + 1]; gs_assert(p.type == SurfacePointType::Edge && p.edge == x.cross[i].second, "a trace crosses edges in order"); near2(L.F.at(p), a + x.cross[i].first * d, "crossings lie on the straight path"); }
  near2(L.F.at(r.endPoint), a + x.len * d, "a trace ends where the straight path does"); gs_assert(r.endPoint.type == r.pathPoints.back().type, "the last point of the path is the end point"); near2(L.F.at(r.pathPoints.back()), L.F.at(r.endPoint), "the last point of the path is the end point");
  gs_assert(r.hitBoundary == x.out, "hitBoundary tells whether the trace was stopped early"); gs_assert(r.endPoint.type == (x.out || cut ? SurfacePointType::Edge : SurfacePointType::Face), "traces end in a face, or on the edge that stopped them");
  near(r.length, x.len * D, "the reported length is the distance travelled"); near2(L.toGlobal(r.endPoint, r.endingDir), d / D, "endingDir is the unit direction of arrival, in the tangent space of the end point");
}
static SurfacePoint facePoint(ManifoldSurfaceMesh& m, size_t n, bool both) { size_t i = gs_choose("face", std::min(n, m.nFaces())); double a = gs_double("a", .25), b = both ? gs_double("b", .3125) : .3125; gs_assume(a > .03125); gs_assume(b > .03125); gs_assume(a + b < .96875); return SurfacePoint(m.face(i), Vector3{a, b, 1 - a - b}); }
static SurfacePoint edgePoint(ManifoldSurfaceMesh& m, size_t n) { double s = gs_double("t", .375); gs_assume(s > .03125); gs_assume(s < .96875); return SurfacePoint(m.edge(gs_choose("edge", std::min(n, m.nEdges()))), s); }
static size_t input() { return gs_choose("input", gs_tier() ? 4 : 3); }
GS_HARNESS(tface) { gs_mode_real(); Flat F(input()); Plane L(F); bool b = gs_choose("barycentric", 2); run(L, facePoint(*F.m, gs_tier() ? 8 : 3, false), direction(gs_tier() ? 1 : .625), b); }
GS_HARNESS(tedge) { gs_mode_real(); Flat F(input()); Plane L(F); SurfacePoint s = edgePoint(*F.m, gs_tier() ? 16 : 10); Vector2 d = direction(gs_tier() ? 1 : .625); if (s.edge.isBoundary()) { Vector2 a = L.axis(s); if (cross(a, d) < 1e-3) gs_stop(); } else { double c = cross(L.axis(s), d); if (c < 1e-3 && c > -1e-3) gs_stop(); } run(L, s, d, false); }
GS_HARNESS(tvert) { gs_mode_real(); Flat F(input()); Plane L(F); Vertex v = F.m->vertex(gs_choose("v", F.m->nVertices())); Vector2 d = direction(); static const double S[] = {1, .375, 1.6875, .0625}; d *= S[gs_choose("scale", 4)]; if (!L.inwards(v, d)) gs_stop(); for (Vertex w : v.adjacentVertices()) { double c = cross(unitv(L.P(w) - L.P(v)), d); if (c < 1e-3 && c > -1e-3) gs_stop(); } run(L, SurfacePoint(v), d, false); }
GS_HARNESS(tstop) { // barriers and iteration limits
  gs_mode_real(); Flat F(1 + gs_choose("input", 2)); Plane L(F); EdgeData<bool> b(*F.m, false); bool lim = gs_choose("limit", 2); size_t k = INVALID_IND; if (lim) k = gs_choose("iters", 3); else b[F.m->edge(gs_choose("barrier", F.m->nEdges()))] = true;
  run(L, facePoint(*F.m, gs_tier() ? 8 : 1, false), direction(gs_tier() ? 1 : .625), false, lim ? nullptr : &b, k);
}
GS_HARNESS(tzero) { // nothing to do, or nowhere to go
  gs_mode_real(); Flat F(gs_choose("input", 2)); Plane L(F); TraceOptions o; o.includePath = true; SurfacePoint s; switch (gs_choose("kind", 4)) { case 0: s = facePoint(*F.m, 5, true); break; case 1: s = edgePoint(*F.m, 10); break; case 2: s = SurfacePoint(F.m->vertex(gs_choose("v", F.m->nVertices()))); break;
  case 3: { s = edgePoint(*F.m, 10); if (!s.edge.isBoundary()) gs_stop(); Vector2 d = direction(); Vector2 v = L.toLocal(s, d); if (v.y >= 0) v.y = -v.y - .0625; TraceGeodesicResult r = traceGeodesic(L.g, s, v, o); near2(L.F.at(r.endPoint), L.F.at(s), "a trace that leaves the surface at once stays where it is"); near(r.length, 0, "a trace that leaves the surface at once has length zero"); gs_assert(r.hitBoundary, "a trace that leaves the surface at once hits the boundary"); return; } }
  TraceGeodesicResult r = traceGeodesic(L.g, s, Vector2{0, 0}, o); gs_assert(r.endPoint.type == s.type, "a trace of length zero ends where it starts"); near2(L.F.at(r.endPoint), L.F.at(s), "a trace of length zero ends where it starts"); near(r.length, 0, "a trace of length zero has length zero"); gs_assert(!r.hitBoundary, "a trace of length zero does not hit the boundary");
  if (s.type == SurfacePointType::Face) { r = traceGeodesic(L.g, s.face, s.faceCoords, Vector3{0, 0, 0}, o); near2(L.F.at(r.endPoint), L.F.at(s), "a trace of length zero ends where it starts"); near(r.length, 0, "a trace of length zero has length zero"); }
}
GS_HARNESS(tcone) { // on curved surfaces: going back along the arriving direction returns to the start
  gs_mode_real(); size_t kind = gs_choose("mesh", gs_tier() ? 3 : 2); static const size_t M[] = {2, 3, 4}; auto mp = catMesh(M[kind]); if (!mp) gs_stop(); ManifoldSurfaceMesh& m = *mp; EdgeData<double> l(m); size_t k = 0; for (Edge e : m.edges()) l[e] = 1. + .0625 * (k++ % 4); EdgeLengthGeometry g(m, l);
  static const Vector3 B[] = {{.28125, .34375, .375}, {.578125, .203125, .21875}, {.09375, .1875, .71875}}; SurfacePoint s(m.face(gs_choose("face", m.nFaces())), B[gs_choose("where", 3)]); Vector2 d = direction(); TraceOptions o; o.includePath = true; o.errorOnProblem = true; TraceGeodesicResult r = traceGeodesic(g, s, d, o); if (r.hitBoundary) gs_stop(); near(r.length, d.norm(), "the whole length is traced");
  for (size_t i = 1; i + 1 < r.pathPoints.size(); i++) { double t = r.pathPoints[i].tEdge; if (t < 1. / 512 || t > 511. / 512) gs_stop(); } for (int i = 0; i < 3; i++) if (r.endPoint.faceCoords[i] < 1. / 512) gs_stop();
  TraceGeodesicResult q = traceGeodesic(g, r.endPoint, -r.endingDir * d.norm(), o); gs_assert(q.endPoint.type == SurfacePointType::Face && q.endPoint.face == s.face, "tracing back returns to the start"); for (int i = 0; i < 3; i++) near(q.endPoint.faceCoords[i], s.faceCoords[i], "tracing back returns to the start"); near2(q.endingDir, -d / d.norm(), "tracing back arrives against the original direction");
  gs_assert(q.pathPoints.size() == r.pathPoints.size(), "tracing back crosses the same edges"); for (size_t i = 1; i + 1 < q.pathPoints.size(); i++) { SurfacePoint& x = r.pathPoints[r.pathPoints.size() - 1 - i]; gs_assert(x.edge == q.pathPoints[i].edge, "tracing back crosses the same edges"); near(x.tEdge, q.pathPoints[i].tEdge, "tracing back crosses the same edges"); }
}
