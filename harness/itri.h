#pragma once
// Intrinsic triangulations of flat, convex input: every edge is a straight segment, so lengths, crossings, traces and the
// common subdivision can be compared with plane geometry.
#include "geo.h"
#include "geometrycentral/surface/common_subdivision.h"
#include "geometrycentral/surface/intrinsic_triangulation.h"
#include "geometrycentral/surface/mutation_manager.h"
typedef IntrinsicTriangulation IT;
static void near(double a, double b, const char* w) { double d = a - b; gs_assert((d < 1e-6) & (d > -1e-6), w); }
static void near2(Vector2 a, Vector2 b, const char* w) { near(a.x, b.x, w); near(a.y, b.y, w); }
struct Flat {
  std::unique_ptr<ManifoldSurfaceMesh> m; std::unique_ptr<VertexPositionGeometry> g; std::vector<Vector2> p;
  Flat(size_t kind) {
    static const Polys P[] = {{{0, 1, 2}, {0, 2, 3}}, {{0, 1, 2}, {0, 2, 3}, {0, 3, 4}, {0, 4, 5}, {0, 5, 1}}, {{0, 1, 4}, {0, 4, 3}, {1, 2, 5}, {1, 5, 4}, {3, 4, 7}, {3, 7, 6}, {4, 5, 8}, {4, 8, 7}}, {{0, 1, 2}, {0, 2, 3}, {0, 3, 4}, {0, 4, 5}}};
    static const std::vector<Vector2> X[] = {{{0, 0}, {2, .25}, {2.25, 1.5}, {.25, 1.75}}, {{.125, .25}, {2, 0}, {.75, 2}, {-1.5, 1.25}, {-1.25, -1.5}, {1, -1.75}},
                                             {{-.125, 0}, {1, -.25}, {2.125, 0}, {-.25, 1.125}, {1.0625, .875}, {2.25, 1}, {0, 2}, {1, 2.25}, {2, 2.125}}, {{0, 0}, {2, -.25}, {2.75, .75}, {2.25, 2}, {1, 2.5}, {-.25, 1.75}}};
    m.reset(new ManifoldSurfaceMesh(P[kind])); g.reset(new VertexPositionGeometry(*m)); p = X[kind];
    for (Vertex v : m->vertices()) g->inputVertexPositions[v] = {p[v.getIndex()].x, p[v.getIndex()].y, 0};
  }
  Vector2 at(const SurfacePoint& q) const { // place of a point on the input
    switch (q.type) {
    case SurfacePointType::Vertex: return p[q.vertex.getIndex()];
    case SurfacePointType::Edge: return (1 - q.tEdge) * p[q.edge.halfedge().tailVertex().getIndex()] + q.tEdge * p[q.edge.halfedge().tipVertex().getIndex()];
    default: { Vector2 r{0, 0}; size_t k = 0; for (Vertex v : q.face.adjacentVertices()) r += q.faceCoords[k++] * p[v.getIndex()]; return r; }
    }
  }
};
static double orient(Vector2 a, Vector2 b, Vector2 c) { return cross(b - a, c - a); }
static const double EPS = 1e-7;
static int sgn(double x) { return x > EPS ? 1 : x < -EPS ? -1 : 0; }
// 1: the open segments cross properly, 2: the first lies inside the second, 0 otherwise
static int meet(Vector2 a, Vector2 b, Vector2 c, Vector2 d) {
  int s1 = sgn(orient(a, b, c)), s2 = sgn(orient(a, b, d)), s3 = sgn(orient(c, d, a)), s4 = sgn(orient(c, d, b));
  if (!s3 && !s4) { double t = dot(a + b - 2. * c, d - c) / (2 * (d - c).norm2()); return t > 0 && t < 1 ? 2 : 0; }
  return s1 * s2 < 0 && s3 * s4 < 0 ? 1 : 0;
}
struct Tri {
  Flat& F; IT& t; ManifoldSurfaceMesh& m;
  Tri(Flat& f, IT& t_) : F(f), t(t_), m(*t_.intrinsicMesh) {}
  Vector2 pos(Vertex v) { return F.at(t.vertexLocations[v]); }
  Vector2 at(const SurfacePoint& q) { // place of a point on the intrinsic mesh
    switch (q.type) {
    case SurfacePointType::Vertex: return pos(q.vertex);
    case SurfacePointType::Edge: return (1 - q.tEdge) * pos(q.edge.halfedge().tailVertex()) + q.tEdge * pos(q.edge.halfedge().tipVertex());
    default: { Vector2 r{0, 0}; size_t k = 0; for (Vertex v : q.face.adjacentVertices()) r += q.faceCoords[k++] * pos(v); return r; }
    }
  }
  Vector2 ip(size_t i) { return F.p[i]; }
  void check() {
    Abs a = take(m, "intrinsic mesh"); checkValid(m, a, "intrinsic mesh");
    for (Edge e : m.edges()) near(t.edgeLengths[e], (pos(e.halfedge().tailVertex()) - pos(e.halfedge().tipVertex())).norm(), "intrinsic edge lengths are the straight distances between the vertices' locations");
    for (Face f : m.faces()) { Vector2 q[3]; size_t k = 0; for (Vertex v : f.adjacentVertices()) q[k++] = pos(v); gs_assert(orient(q[0], q[1], q[2]) > -EPS, "intrinsic faces keep their orientation");
      double ar = std::abs(cross(t.halfedgeVectorsInFace[f.halfedge()], t.halfedgeVectorsInFace[f.halfedge().next()])) / 2; near(ar, orient(q[0], q[1], q[2]) / 2, "face bases are up to date"); }
    for (Vertex v : F.m->vertices()) { gs_assert(t.vertexLocations[m.vertex(v.getIndex())] == SurfacePoint(v), "input vertices stay where they are"); }
    for (Edge e : m.edges()) gs_assert(t.checkEdgeOriginal(e) == onInput(e), "checkEdgeOriginal recognises edges along the input");
    for (Corner c : m.corners()) { Vertex v = c.vertex(); Vector2 u = pos(c.halfedge().tipVertex()) - pos(v), w = pos(c.halfedge().next().tipVertex()) - pos(v); near(t.getCornerAngle(c), std::atan2(cross(u, w), dot(u, w)), "corner angles are up to date"); }
    vertexVectors();
  }
  void vertexVectors() { for (Vertex v : m.vertices()) { double scale = 1, sum = 0; Vector2 o = pos(v); auto turn = [&](Vector2 u, Vector2 w) { double a = std::atan2(cross(u, w), dot(u, w)); return a < -1e-9 ? a + 2 * PI : a; };
      if (v.isBoundary()) { for (Halfedge h : v.outgoingHalfedges()) if (h.isInterior()) sum += turn(pos(h.tipVertex()) - o, pos(h.next().tipVertex()) - o); scale = PI / sum; }
      near(t.vertexAngleSums[v], v.isBoundary() ? sum : 2 * PI, "vertex angle sums are up to date");
      Halfedge h0 = v.halfedge(); Vector2 d0 = pos(h0.tipVertex()) - o, b0 = t.halfedgeVectorsInVertex[h0];
      for (Halfedge h : v.outgoingHalfedges()) { Vector2 d = pos(h.tipVertex()) - o, b = t.halfedgeVectorsInVertex[h]; near(b.norm(), d.norm(), "halfedge vectors in vertices have the edge's length"); double a = turn(d0, d) * scale, len = b0.norm() * b.norm(); near(dot(b0, b) / len, std::cos(a), "halfedge vectors in vertices have the rescaled angles"); near(cross(b0, b) / len, std::sin(a), "halfedge vectors in vertices have the rescaled angles"); } } }
  bool onInput(Edge e) { for (Edge i : F.m->edges()) if (meet(pos(e.halfedge().tailVertex()), pos(e.halfedge().tipVertex()), ip(i.halfedge().tailVertex().getIndex()), ip(i.halfedge().tipVertex().getIndex())) == 2) return true; return false; }
  size_t crossings(Edge e) { size_t n = 0; for (Edge i : F.m->edges()) n += meet(pos(e.halfedge().tailVertex()), pos(e.halfedge().tipVertex()), ip(i.halfedge().tailVertex().getIndex()), ip(i.halfedge().tipVertex().getIndex())) == 1; return n; }
  // points of the intrinsic mesh met by an input edge: crossings and vertices strictly inside
  size_t stops(Edge i) { size_t n = 0; Vector2 c = ip(i.halfedge().tailVertex().getIndex()), d = ip(i.halfedge().tipVertex().getIndex()); for (Edge e : m.edges()) n += meet(pos(e.halfedge().tailVertex()), pos(e.halfedge().tipVertex()), c, d) == 1;
    for (Vertex v : m.vertices()) { Vector2 x = pos(v); if (!sgn(orient(c, d, x))) { double s = dot(x - c, d - c) / (d - c).norm2(); n += s > EPS && s < 1 - EPS; } } return n; }
  void straight(const std::vector<Vector2>& w, Vector2 a, Vector2 b, const char* what) {
    gs_assert(w.size() >= 2, what); near2(w.front(), a, what); near2(w.back(), b, what); double last = -1;
    for (auto& x : w) { near(cross(b - a, x - a), 0, what); double s = dot(x - a, b - a) / (b - a).norm2(); gs_assert(s > last - 1e-9, what); gs_assert(last < 0 || s > last + 1e-9, what); last = s; }
  }
  void traceInput() { for (Edge i : F.m->edges()) for (Halfedge h : i.adjacentHalfedges()) {
      auto tr = t.traceInputHalfedgeAlongIntrinsic(h); std::vector<Vector2> w; for (auto& q : tr) w.push_back(at(q));
      straight(w, ip(h.tailVertex().getIndex()), ip(h.tipVertex().getIndex()), "input edges trace straight lines over the intrinsic mesh"); gs_assert(tr.size() == stops(i) + 2, "input edges meet exactly the intrinsic edges and vertices they cross"); } }
  void traceIntrinsic() { for (Edge e : m.edges()) for (Halfedge h : e.adjacentHalfedges()) {
      auto tr = t.traceIntrinsicHalfedgeAlongInput(h); std::vector<Vector2> w; for (auto& q : tr) w.push_back(F.at(q));
      straight(w, pos(h.tailVertex()), pos(h.tipVertex()), "intrinsic edges trace straight lines over the input"); gs_assert(tr.size() == crossings(e) + 2, "intrinsic edges meet exactly the input edges they cross"); } }
  void subdivision() {
    CommonSubdivision& cs = t.getCommonSubdivision(); double area = 0;
    auto two = [&](const CommonSubdivisionPoint& q) { near2(F.at(q.posA), at(q.posB), "a common subdivision point has the same place on both meshes"); };
    for (auto& q : cs.subdivisionPoints) if (q.intersectionType != CSIntersectionType::EDGE_PARALLEL) two(q);
    for (Edge i : F.m->edges()) { std::vector<Vector2> w; bool par = false; for (auto* q : cs.pointsAlongA[i]) { gs_assert(q != nullptr, "common subdivision paths are complete"); if (q->intersectionType == CSIntersectionType::EDGE_PARALLEL) par = true; else w.push_back(F.at(q->posA)); }
      straight(w, ip(i.halfedge().tailVertex().getIndex()), ip(i.halfedge().tipVertex().getIndex()), "points along an input edge are ordered from its tail to its tip"); gs_assert(w.size() == stops(i) + 2, "points along an input edge are its crossings and vertices"); (void)par; }
    for (Edge e : m.edges()) { std::vector<Vector2> w; bool par = false; for (auto* q : cs.pointsAlongB[e]) { gs_assert(q != nullptr, "common subdivision paths are complete"); if (q->intersectionType == CSIntersectionType::EDGE_PARALLEL) par = true; else w.push_back(at(q->posB)); }
      straight(w, pos(e.halfedge().tailVertex()), pos(e.halfedge().tipVertex()), "points along an intrinsic edge are ordered from its tail to its tip"); gs_assert(w.size() == crossings(e) + 2 && par == onInput(e), "points along an intrinsic edge are its crossings"); gs_assert(cs.intersectionsB(e) == crossings(e), "intersectionsB counts crossings"); }
    size_t nV, nE, nF; std::tie(nV, nE, nF) = cs.elementCounts(); gs_assert(nV == cs.nVertices() && nE == cs.nEdges() && nF == cs.nFaces(), "element counts agree");
    bool tri = gs_choose("triangulate", 2); cs.constructMesh(tri); ManifoldSurfaceMesh& c = *cs.mesh; checkValid(c, take(c, "common subdivision"), "common subdivision");
    gs_assert(c.nVertices() == nV && (tri || (c.nEdges() == nE && c.nFaces() == nF)), "element counts are those of the mesh");
    size_t wantV = m.nVertices(); for (Edge e : m.edges()) wantV += crossings(e); gs_assert(nV == wantV, "the common subdivision has the intrinsic vertices and all crossings");
    VertexData<Vector2> X(c); for (Vertex v : c.vertices()) { two(*cs.sourcePoints[v]); X[v] = F.at(cs.sourcePoints[v]->posA); }
    for (Face f : c.faces()) { std::vector<Vector2> q; for (Vertex v : f.adjacentVertices()) q.push_back(X[v]); gs_assert(!tri || q.size() == 3, "triangulated"); double s = 0; Vector2 mid{0, 0}; for (size_t k = 0; k < q.size(); k++) { s += cross(q[k], q[(k + 1) % q.size()]) / 2; mid += q[k] / (double)q.size(); } gs_assert(s > 0, "common subdivision faces keep their orientation"); area += s;
      Face fa = cs.sourceFaceA[f], fb = cs.sourceFaceB[f]; Vector2 A[3], B[3]; size_t k = 0; for (Vertex v : fa.adjacentVertices()) A[k++] = ip(v.getIndex()); k = 0; for (Vertex v : fb.adjacentVertices()) B[k++] = pos(v);
      for (int j = 0; j < 3; j++) gs_assert(orient(A[j], A[(j + 1) % 3], mid) > 0 && orient(B[j], B[(j + 1) % 3], mid) > 0, "every piece knows the faces it comes from"); }
    double whole = 0; for (Face f : F.m->faces()) { Vector2 A[3]; size_t k = 0; for (Vertex v : f.adjacentVertices()) A[k++] = ip(v.getIndex()); whole += orient(A[0], A[1], A[2]) / 2; } near(area, whole, "the pieces cover the surface");
    VertexData<double> u(*F.m), w(m); for (Vertex v : F.m->vertices()) u[v] = 3 * ip(v.getIndex()).x - ip(v.getIndex()).y; for (Vertex v : m.vertices()) w[v] = 3 * pos(v).x - pos(v).y;
    auto a = cs.interpolateAcrossA(u), b = cs.interpolateAcrossB(w); auto MA = cs.interpolationMatrixA(), MB = cs.interpolationMatrixB();
    gs_assert((size_t)MA.rows() == nV && (size_t)MB.rows() == nV && (size_t)MA.cols() == F.m->nVertices() && (size_t)MB.cols() == m.nVertices(), "interpolation matrices have one row per vertex of the common subdivision");
    size_t r = 0; for (Vertex v : c.vertices()) { double want = 3 * X[v].x - X[v].y, sa = 0, sb = 0; near(a[v], want, "linear functions are interpolated exactly from the input"); near(b[v], want, "linear functions are interpolated exactly from the intrinsic mesh");
      for (Vertex q : F.m->vertices()) sa += MA.coeff(r, q.getIndex()) * u[q]; for (Vertex q : m.vertices()) sb += MB.coeff(r, q.getIndex()) * w[q]; near(sa, want, "interpolation matrices interpolate"); near(sb, want, "interpolation matrices interpolate"); r++; }
    EdgeData<double> la(*F.m), lb = t.edgeLengths; for (Edge i : F.m->edges()) la[i] = (ip(i.halfedge().tailVertex().getIndex()) - ip(i.halfedge().tipVertex().getIndex())).norm();
    auto qa = cs.interpolateEdgeLengthsA(la), qb = cs.interpolateEdgeLengthsB(lb); for (Edge e : c.edges()) { double d = (X[e.halfedge().tailVertex()] - X[e.halfedge().tipVertex()]).norm(); near(qa[e], d, "edge lengths of the common subdivision follow from the input's"); near(qb[e], d, "edge lengths of the common subdivision follow from the intrinsic ones"); }
    FaceData<size_t> ia(*F.m), ib(m); size_t k = 0; for (Face f : F.m->faces()) ia[f] = k++; for (Face f : m.faces()) ib[f] = k++; auto ja = cs.copyFromA(ia), jb = cs.copyFromB(ib); for (Face f : c.faces()) gs_assert(ja[f] == ia[cs.sourceFaceA[f]] && jb[f] == ib[cs.sourceFaceB[f]], "face data is copied from the parent face");
  }
};
static bool canFlip(Tri& T, Edge e) { if (e.isBoundary()) return false; Halfedge h = e.halfedge(), o = h.twin(); Vector2 a = T.pos(h.tailVertex()), b = T.pos(h.tipVertex()), c = T.pos(h.next().tipVertex()), d = T.pos(o.next().tipVertex()); return orient(c, d, b) > EPS && orient(d, c, a) > EPS; }
static void flipOne(Tri& T, Edge e) {
  bool can = canFlip(T, e); Halfedge h = e.halfedge(); std::set<size_t> opp; if (can) opp = {h.next().tipVertex().getIndex(), h.twin().next().tipVertex().getIndex()};
  size_t calls = 0; auto it = T.t.edgeFlipCallbackList.insert(T.t.edgeFlipCallbackList.end(), [&](Edge x) { gs_assert(x == e, "flip callbacks name the edge"); calls++; });
  bool did = T.t.flipEdgeIfPossible(e); T.t.edgeFlipCallbackList.erase(it);
  gs_assert(did == can, "an edge is flipped exactly when its two triangles form a strictly convex quadrilateral"); gs_assert(calls == (did ? 1 : 0), "flip callbacks fire once per flip");
  if (did) gs_assert((opp == std::set<size_t>{e.halfedge().tailVertex().getIndex(), e.halfedge().tipVertex().getIndex()}), "a flip joins the opposite vertices");
}
static SurfacePoint somewhere(ManifoldSurfaceMesh& m, bool face, size_t nEl, bool fixedBary) {
  if (face) { size_t i = gs_choose("face", std::min(nEl, m.nFaces())); double a = gs_double("a", .25), b = fixedBary ? .3125 : gs_double("b", .3125); gs_assume(a > .03125); gs_assume(b > .03125); gs_assume(a + b < .96875); return SurfacePoint(m.face(i), Vector3{a, b, 1 - a - b}); }
  double s = gs_double("t", .375); gs_assume(s > .03125); gs_assume(s < .96875); return SurfacePoint(m.edge(gs_choose("edge", m.nEdges())), s);
}
static void presets(Tri& T, size_t n) { // a few starting triangulations
  static const size_t W[][2] = {{0, 0}, {1, 3}, {3, 1}, {2, 4}, {4, 6}, {0, 1}}; size_t k = gs_choose("start", n);
  if (k) for (size_t i : W[k - 1]) if (i < T.m.nEdges()) T.t.flipEdgeIfPossible(T.m.edge(i));
}
static void generic(Tri& T, const SurfacePoint& q) { // a symbolic point stays away from the input's edges
  Vector2 x = T.at(q); for (Edge i : T.F.m->edges()) { double s = orient(T.ip(i.halfedge().tailVertex().getIndex()), T.ip(i.halfedge().tipVertex().getIndex()), x); gs_assume((s > 1. / 64) | (s < -1. / 64)); }
}
// sequences with insertions at a few places (chosen, not free: the square roots of later lengths are beyond the solver)
static SurfacePoint chosen(ManifoldSurfaceMesh& m, const char* tag, bool small) {
  static const double T[] = {.34375, .71875, .53125}; static const Vector3 B[] = {{.28125, .34375, .375}, {.578125, .203125, .21875}, {.09375, .1875, .71875}}; char c[12]; snprintf(c, 12, "in face%s", tag);
  bool face = gs_choose(c, 2); snprintf(c, 12, "where%s", tag); size_t w = gs_choose(c, small ? 1 : gs_tier() ? 3 : 2); snprintf(c, 12, "el%s", tag);
  return face ? SurfacePoint(m.face(gs_choose(c, m.nFaces())), B[w]) : SurfacePoint(m.edge(gs_choose(c, m.nEdges())), T[w]);
}
static Vertex insertOne(Tri& T, const SurfacePoint& q) {
  Vector2 x = T.at(q); size_t nV = T.m.nVertices(), calls = 0; auto i1 = T.t.faceInsertionCallbackList.insert(T.t.faceInsertionCallbackList.end(), [&](Face, Vertex) { calls++; }); auto i2 = T.t.edgeSplitCallbackList.insert(T.t.edgeSplitCallbackList.end(), [&](Edge, Halfedge, Halfedge) { calls++; });
  Vertex v = T.t.insertVertex(q); gs_assert(v != Vertex() && T.m.nVertices() == nV + 1 && calls == 1, "insertVertex adds one vertex and reports it"); near2(T.pos(v), x, "inserted vertices lie where they were asked for"); T.t.faceInsertionCallbackList.erase(i1); T.t.edgeSplitCallbackList.erase(i2); return v;
}
// Delaunay refinement of fixed input: a choice of marked edges, thresholds and limits
template <class Check> static void refining(Tri& T, size_t marks, Check&& chk, bool exact = true) {
  IT& t = T.t; EdgeData<bool> mk(T.m, false); std::vector<std::pair<Vector2, Vector2>> kept; size_t mm = gs_choose("marked", marks + 1);
  if (mm) { size_t k = 0; for (Edge e : T.m.edges()) if (!e.isBoundary()) { k++; if (k == mm || (mm == marks && k == 2)) { mk[e] = true; kept.push_back({T.pos(e.halfedge().tailVertex()), T.pos(e.halfedge().tipVertex())}); } } t.setMarkedEdges(mk); }
  auto fixed = [&](Edge e) { return e.isBoundary() || (mm && t.markedEdges[e]); };
  auto delaunay = [&]() { gs_assert(t.isDelaunay(), "the triangulation becomes Delaunay"); for (Edge e : T.m.edges()) if (!fixed(e)) { double s = 0; for (Halfedge h : e.adjacentHalfedges()) { Vector2 x = T.pos(h.next().tipVertex()), u = T.pos(h.tailVertex()) - x, w = T.pos(h.tipVertex()) - x; s += dot(u, w) / std::abs(cross(u, w)); } gs_assert(s > -1e-5, "the triangulation becomes Delaunay"); } };
  auto marked = [&]() { for (auto& s : kept) { double len = 0; for (Edge e : T.m.edges()) if (t.markedEdges[e] && meet(T.pos(e.halfedge().tailVertex()), T.pos(e.halfedge().tipVertex()), s.first, s.second) == 2) len += (T.pos(e.halfedge().tailVertex()) - T.pos(e.halfedge().tipVertex())).norm(); near(len, (s.second - s.first).norm(), "marked edges stay, possibly split, and stay marked"); }
    size_t n = 0; for (Edge e : T.m.edges()) if (mm && t.markedEdges[e]) { n++; bool on = false; for (auto& s : kept) on = on || meet(T.pos(e.halfedge().tailVertex()), T.pos(e.halfedge().tipVertex()), s.first, s.second) == 2; gs_assert(on, "only pieces of marked edges are marked"); } };
  size_t how = gs_choose("then", 3);
  if (how == 0) { t.flipToDelaunay(); chk(); delaunay(); marked(); for (auto& s : kept) { bool f = false; for (Edge e : T.m.edges()) if (t.markedEdges[e]) f = f || ((T.pos(e.halfedge().tailVertex()) - s.first).norm() < 1e-9 && (T.pos(e.halfedge().tipVertex()) - s.second).norm() < 1e-9) || ((T.pos(e.halfedge().tailVertex()) - s.second).norm() < 1e-9 && (T.pos(e.halfedge().tipVertex()) - s.first).norm() < 1e-9); gs_assert(f, "marked edges are not flipped"); } }
  else {
    static const double AN[] = {25, 20, 28.5}, RA[] = {1e300, .6875, .4375}; static const size_t MX[] = {(size_t)-1, 0, 1, 3, 7}; double an = AN[gs_choose("angle", gs_tier() ? 3 : 2)], ra = RA[gs_choose("radius", 3)]; size_t mx = MX[gs_choose("limit", gs_tier() ? 5 : 4)], ins = 0, gone = T.m.nVertices();
    auto i1 = t.faceInsertionCallbackList.insert(t.faceInsertionCallbackList.end(), [&](Face, Vertex) { ins++; }); auto i2 = t.edgeSplitCallbackList.insert(t.edgeSplitCallbackList.begin(), [&](Edge, Halfedge a, Halfedge b) { ins++; gs_assert(a.vertex() == b.vertex(), "split callbacks name the halfedges from the new vertex"); near((T.pos(a.tipVertex()) - T.pos(a.vertex())).norm(), (T.pos(b.tipVertex()) - T.pos(b.vertex())).norm(), "refinement splits edges in the middle"); });
    auto i3 = t.edgeFlipCallbackList.insert(t.edgeFlipCallbackList.end(), [&](Edge e) { gs_assert(!fixed(e), "fixed edges are not flipped"); });
    std::vector<double> ang; size_t nf = t.faceInsertionCallbackList.size(), ns = t.edgeSplitCallbackList.size(), nl = t.edgeFlipCallbackList.size();
    auto bad = [&](Face f) { double ar = 0; for (Halfedge h : f.adjacentHalfedges()) ar += cross(T.pos(h.tailVertex()), T.pos(h.tipVertex())) / 2; return ar > ra / 2; };
    if (how == 1) t.delaunayRefine(an, ra, mx); else t.delaunayRefine(bad, mx);
    gs_assert(t.faceInsertionCallbackList.size() == nf && t.edgeSplitCallbackList.size() == ns && t.edgeFlipCallbackList.size() == nl, "refinement leaves no callbacks behind");
    t.faceInsertionCallbackList.erase(i1); t.edgeSplitCallbackList.erase(i2); t.edgeFlipCallbackList.erase(i3); gs_assert(mx == (size_t)-1 || ins <= mx, "no more vertices are inserted than asked for"); (void)gone;
    chk(); delaunay(); marked();
    if (mx == (size_t)-1 || ins < mx) for (Face f : T.m.faces()) {
      if (how == 2) { gs_assert(!bad(f), "refinement continues until no face needs it"); continue; }
      double l[3], al[3]; size_t k = 0; bool free[3]; for (Halfedge h : f.adjacentHalfedges()) { Vector2 v = T.pos(h.vertex()), u = T.pos(h.tipVertex()) - v, w = T.pos(h.next().tipVertex()) - v; l[k] = u.norm(); al[k] = std::atan2(cross(u, w), dot(u, w)); free[k] = !(fixed(h.edge()) && fixed(h.next().next().edge())); k++; }
      size_t sharp = 0; for (Halfedge h : f.adjacentHalfedges()) { double s = 0; Halfedge c = h; auto ang3 = [&](Halfedge x) { Vector2 v = T.pos(x.vertex()), u = T.pos(x.tipVertex()) - v, w = T.pos(x.next().tipVertex()) - v; return std::atan2(cross(u, w), dot(u, w)); };
        while (!fixed(c.edge())) { c = c.twin().next(); if (c == h) break; } Halfedge c0 = c; do { s += ang3(c); c = c.next().next(); if (fixed(c.edge())) break; c = c.twin(); } while (c != c0); sharp += s < PI / 3; }
      if (sharp == 1) continue; // a sharp corner of the input: refinement would not end
      bool small = false; for (Face p : T.F.m->faces()) { Vector2 A[3]; k = 0; for (Vertex v : p.adjacentVertices()) A[k++] = T.ip(v.getIndex()); bool in = true; for (Vertex v : f.adjacentVertices()) for (int j = 0; j < 3; j++) in = in && sgn(orient(A[j], A[(j + 1) % 3], T.pos(v))) >= 0; if (in) for (Vertex v : p.adjacentVertices()) { double s = 0; for (Halfedge h : v.outgoingHalfedges()) if (h.isInterior()) { Vector2 o = T.ip(v.getIndex()), u = T.ip(h.tipVertex().getIndex()) - o, w = T.ip(h.next().tipVertex().getIndex()) - o; s += std::atan2(cross(u, w), dot(u, w)); } small = small || s < PI / 3; } }
      if (small) continue;
      double R = l[0] / (2 * std::sin(al[2])); gs_assert(R < ra * (1 + 1e-6), "refinement ends with all circumradii below the threshold"); for (k = 0; k < 3; k++) gs_assert(!free[k] || al[k] * 180 / PI > an - 1e-4, "refinement ends with all angles above the threshold, except between fixed edges"); }
  }
  double mn = 400; for (Corner c : T.m.corners()) { Vertex v = c.vertex(); Vector2 u = T.pos(c.halfedge().tipVertex()) - T.pos(v), w = T.pos(c.halfedge().next().tipVertex()) - T.pos(v); mn = std::min(mn, std::atan2(cross(u, w), dot(u, w)) * 180 / PI); } near(t.minAngleDegrees(), mn, "minAngleDegrees is the smallest angle"); near(t.minAngleDegreesAtValidFaces(0), mn, "without exceptions all faces count");
  for (Vertex v : T.m.vertices()) if (!exact && v.getIndex() >= T.F.p.size()) for (Edge i : T.F.m->edges()) if (!sgn(orient(T.ip(i.halfedge().tailVertex().getIndex()), T.ip(i.halfedge().tipVertex().getIndex()), T.pos(v)))) return; // on which side it lies is not certain
  static const double S[] = {80.5, 110.5, 200.5}; for (double lim : S) { auto sum = [&](Vertex v, bool in) { double s = 0; for (Halfedge h : v.outgoingHalfedges()) if (h.isInterior()) { auto X = [&](Vertex q) { return in ? T.ip(q.getIndex()) : T.pos(q); }; Vector2 o = X(v), u = X(h.tipVertex()) - o, w = X(h.next().tipVertex()) - o; s += std::atan2(cross(u, w), dot(u, w)); } return s * 180 / PI; };
  mn = 10 * 180 / PI; for (Face f : T.m.faces()) { bool ok = true; for (Vertex v : f.adjacentVertices()) ok = ok && sum(v, false) >= lim;
    Vector2 q[3]; size_t k = 0; for (Vertex v : f.adjacentVertices()) q[k++] = T.pos(v); for (Face p : T.F.m->faces()) { Vector2 A[3]; k = 0; for (Vertex v : p.adjacentVertices()) A[k++] = T.ip(v.getIndex()); bool in = true; for (int j = 0; j < 3; j++) for (int i = 0; i < 3; i++) in = in && sgn(orient(A[j], A[(j + 1) % 3], q[i])) >= 0; if (in) for (Vertex v : p.adjacentVertices()) ok = ok && sum(v, true) >= lim; }
    if (ok) { double e[3]; for (int j = 0; j < 3; j++) { Vector2 u = q[(j + 1) % 3] - q[j], w = q[(j + 2) % 3] - q[j]; e[j] = std::atan2(cross(u, w), dot(u, w)) * 180 / PI; } for (double x : e) mn = std::min(mn, x); } }
  near(t.minAngleDegreesAtValidFaces(lim), mn, "minAngleDegreesAtValidFaces is the smallest angle of the faces it describes"); }
}
