// Triangle-triangle intersection and mesh intersections, exact reals over layouts with one to three symbolic coordinates.
#include "geo.h"
#include "geometrycentral/surface/intersection.h"
#include "geometrycentral/utilities/elementary_geometry.h"
typedef std::array<Vector3, 3> T3;
static double vol(Vector3 a, Vector3 b, Vector3 c, Vector3 d) { return dot(cross(b - a, c - a), d - a); }
// closed segment pq against closed triangle t, not both end points in its plane; evaluated without branching
static bool stabs(Vector3 p, Vector3 q, const T3& t) {
  double s = vol(t[0], t[1], t[2], p), r = vol(t[0], t[1], t[2], q), a = vol(p, q, t[0], t[1]), b = vol(p, q, t[1], t[2]), c = vol(p, q, t[2], t[0]);
  bool cross = (s * r <= 0) & !((s == 0) & (r == 0));
  return cross & (((a >= 0) & (b >= 0) & (c >= 0)) | ((a <= 0) & (b <= 0) & (c <= 0)));
}
static bool meets(const T3& p, const T3& q) { bool r = false; for (int i = 0; i < 3; i++) r = r | stabs(p[i], p[(i + 1) % 3], q) | stabs(q[i], q[(i + 1) % 3], p); return r; }
static double side1(Vector3 x, const T3& t, int i) { Vector3 n = cross(t[1] - t[0], t[2] - t[0]); return dot(n, cross(t[(i + 1) % 3] - t[i], x - t[i])); }
static double slack() { return gs_is_symbolic_run() ? 0. : 1e-6; }
static void onTriangle(Vector3 x, const T3& t, const char* w) { EQ(dot(cross(t[1] - t[0], t[2] - t[0]), x - t[0]), 0., w); for (int i = 0; i < 3; i++) gs_assert(side1(x, t, i) >= -slack(), w); }
static bool onSide(Vector3 x, const T3& t) { bool r = false; for (int i = 0; i < 3; i++) { double v = side1(x, t, i); r = r | ((v <= slack()) & (v >= -slack())); } return r; }
static bool far(double v) { return (v == 0) | (v >= 1e-6) | (v <= -1e-6); } // the code treats plane values below 1e-10 as zero
static void check(const T3& p, const T3& q, bool ends) {
  for (int i = 0; i < 3; i++) { gs_assume(far(vol(p[0], p[1], p[2], q[i]))); gs_assume(far(vol(q[0], q[1], q[2], p[i]))); }
  Vector3 n = cross(cross(p[1] - p[0], p[2] - p[0]), cross(q[1] - q[0], q[2] - q[0])); gs_assume(norm2(n) > 0); // not parallel
  auto r = triTriIntersection(p[0], p[1], p[2], q[0], q[1], q[2]);
  gs_assert(r.intersect == meets(p, q), "triangles are reported to intersect exactly when they share a point");
  gs_assert(!r.coplanar, "triangles in different planes are not reported coplanar");
  if (r.intersect && ends) {
    onTriangle(r.xA, p, "the segment of intersection lies on the first triangle"); onTriangle(r.xB, p, "the segment of intersection lies on the first triangle"); onTriangle(r.xA, q, "the segment of intersection lies on the second triangle"); onTriangle(r.xB, q, "the segment of intersection lies on the second triangle");
    gs_assert(onSide(r.xA, p) | onSide(r.xA, q), "the segment of intersection ends on a side of one of the triangles"); gs_assert(onSide(r.xB, p) | onSide(r.xB, q), "the segment of intersection ends on a side of one of the triangles");
    // Whole: a segment shorter than the overlap would leave a side's piercing point outside it
    Vector3 d = r.xB - r.xA;
    for (int k = 0; k < 6; k++) { const T3 &s = k < 3 ? p : q, &t = k < 3 ? q : p; int i = k % 3; Vector3 a = s[i], b = s[(i + 1) % 3]; double u = vol(t[0], t[1], t[2], a), v = vol(t[0], t[1], t[2], b);
      bool hit = stabs(a, b, t); Vector3 xs = a * v - b * u; double den = v - u; // piercing point xs / den
      double lo = dot(xs - r.xA * den, d) * den, hi = dot(r.xB * den - xs, d) * den, eps = -slack(); gs_assert(!hit | ((lo >= eps) & (hi >= eps)), "the segment of intersection contains every piercing point"); }
  }
}
static double num(const char* n, double d) { double s = gs_double(n, d); gs_assume((s >= -10) & (s <= 10)); return s; }
static const T3 P0{{{0, 0, 0}, {8, 0, 0}, {0, 8, 0}}};
//{{{0, 0, 0}, {6, 0, 0}, {0, 6, 0}}};
static T3 rot(const T3& t, int k) { return {{t[k % 3], t[(k + 1) % 3], t[(k + 2) % 3]}}; }
static T3 perm(const T3& t, int a) { T3 r = t; for (auto& x : r) x = Vector3{x[a % 3], x[(a + 1) % 3], x[(a + 2) % 3]}; return r; }
// one vertex of q moves; k: which vertex order, axis permutation
static void moving(int k, int axis, int which, bool ends) {
  gs_mode_real();
  Vector3 a{1, 1, -2}, b{2, 3, 6}, c{3, -1, 2}; double s = num("s", 1.5), t = num("t", 1.25);
  if (which == 0) a = {s, t, -2}; if (which == 1) b = {s, 3, t}; if (which == 2) { a.x = s; a.y = s; b.z = t; } if (which == 3) { a.z = s; b.z = t; }
  T3 q{{a, b, c}}; T3 p = perm(rot(P0, k / 3), axis); check(p, perm(rot(q, k), axis), ends);
}
#define MV(n, k, x, w) GS_HARNESS(n) { moving(k, x, w, w < 2 || gs_tier()); }
MV(move_ab0, 0, 0, 0) MV(move_ab1, 1, 1, 0) MV(move_ab2, 5, 2, 0) MV(move_bc0, 0, 0, 1) MV(move_bc1, 4, 1, 1) MV(move_bc2, 8, 2, 1) MV(move_diag0, 0, 0, 2) MV(move_diag1, 7, 1, 2) MV(move_z0, 0, 0, 3) MV(move_z1, 1, 1, 3) MV(move_z2, 5, 2, 3)
// the crossing cases: q translated rigidly
static void slide(int k, int axis, Vector3 d) { gs_mode_real(); double s = num("s", 1); T3 q{{{1, 1, -2}, {2, 3, 6}, {3, -1, 2}}}; for (auto& x : q) x = x + d * s; check(perm(rot(P0, k / 3), axis), perm(rot(q, k), axis), true); }
#define SL(n, k, x, ...) GS_HARNESS(n) { slide(k, x, Vector3{__VA_ARGS__}); }
SL(slide_x, 0, 0, 1, 0, 0) SL(slide_y, 1, 1, 0, 1, 0) SL(slide_z, 2, 2, 0, 0, 1) SL(slide_xy, 3, 0, 1, 1, 0) SL(slide_xyz, 4, 1, 1, -1, 2) SL(slide_yz, 5, 2, 0, 2, -1)
// touching: a vertex of q in the plane of p
GS_HARNESS(touch) { gs_mode_real(); double s = gs_double("s", 1), t = gs_double("t", 1); T3 q{{{s, t, 0}, {2, 3, 4}, {3, -1, 3}}}; check(P0, q, true); }
GS_HARNESS(touchedge) { gs_mode_real(); double s = gs_double("s", 1), t = gs_double("t", 1); T3 q{{{s, 1, 0}, {2, 3, 4}, {t, 2, 0}}}; gs_assume(s != t); check(P0, q, true); }
GS_HARNESS(parallel) { gs_mode_real(); double s = gs_double("s", 1), x = gs_double("x", 1), y = gs_double("y", 1); gs_assume((s >= 1e-6) | (s <= -1e-6)); T3 q{{{x, y, s}, {x + 4, y + 1, s}, {x + 1, y + 5, s}}}; auto r = triTriIntersection(P0[0], P0[1], P0[2], q[0], q[1], q[2]); gs_assert(!r.intersect, "triangles in distinct parallel planes do not intersect"); }
// coplanar: separating axes in the plane
static bool sep(const T3& p, const T3& q) { bool r = false; for (int i = 0; i < 3; i++) { Vector3 e = p[(i + 1) % 3] - p[i]; bool all = true; for (int j = 0; j < 3; j++) all = all & (e.x * (q[j].y - p[i].y) - e.y * (q[j].x - p[i].x) < 0); r = r | all; } return r; }
static void flat(int k, int axis, int which) {
  gs_mode_real(); double s = gs_double("s", 1.5), t = gs_double("t", 1.25); T3 q{{{1, 1, 0}, {5, 2, 0}, {2, 6, 0}}};
  if (which == 0) for (auto& x : q) x = x + Vector3{s, t, 0}; if (which == 1) { q[0].x = s; q[0].y = t; gs_assume(cross(q[1] - q[0], q[2] - q[0]).z > 0); } if (which == 2) for (auto& x : q) x = Vector3{3, 4, 0} - x * s, gs_assume(s > 0);
  gs_assume(!sep(P0, q) | sep(P0, q)); bool disjoint = sep(P0, q) | sep(q, P0);
  T3 a = perm(P0, axis), b = perm(q, axis); auto r = triTriIntersection(a[0], a[1], a[2], b[k % 3], b[(k + 1) % 3], b[(k + 2) % 3]);
  gs_assert(r.intersect == !disjoint, "coplanar triangles intersect exactly when no side separates them"); gs_assert(r.intersect ? r.coplanar : true, "coplanar triangles are reported coplanar");
}
#define FL(n, k, x, w) GS_HARNESS(n) { flat(k, x, w); }
FL(flat_move0, 0, 0, 0) FL(flat_move1, 1, 1, 0) FL(flat_move2, 2, 2, 0) FL(flat_vertex, 0, 0, 1) FL(flat_scale, 1, 1, 2)
// -------------------------------------------------------------- meshes
static VertexPositionGeometry* geom(SurfaceMesh& m, std::vector<Vector3> p) { VertexData<Vector3> d(m); size_t k = 0; for (Vertex v : m.vertices()) d[v] = p[k++]; return new VertexPositionGeometry(m, d); }
static T3 corners(VertexPositionGeometry& g, Face f) { Halfedge h = f.halfedge(); return {{g.inputVertexPositions[h.vertex()], g.inputVertexPositions[h.next().vertex()], g.inputVertexPositions[h.next().next().vertex()]}}; }
static void compare(SurfaceIntersectionResult& r, std::vector<TriTriIntersectionResult3D> want) {
  bool any = false; size_t n = 0;
  for (auto& w : want) if (w.intersect) { any = true; if (w.coplanar) continue; gs_assert(r.points.size() >= 2 * n + 2 && r.edges.size() > n, "one segment per intersecting pair of triangles"); size_t a = r.edges[n][0], b = r.edges[n][1]; gs_assert(a < r.points.size() && b < r.points.size() && a != b, "segments refer to points"); eq3(r.points[a], w.xA, "segment end points are the triangles' intersection"); eq3(r.points[b], w.xB, "segment end points are the triangles' intersection"); n++; }
  gs_assert(r.hasIntersections == any, "hasIntersections holds exactly if some pair of triangles intersects"); gs_assert(r.points.size() == 2 * n && r.edges.size() == n, "one segment per intersecting pair of triangles");
}
static void two(bool holes) {
  gs_mode_real(); double s = gs_double("s", 1);
  std::unique_ptr<SurfaceMesh> m = holes ? geoMesh(100) : geoMesh(1), m2(new ManifoldSurfaceMesh({{0, 1, 2}, {2, 1, 3}}));
  std::unique_ptr<VertexPositionGeometry> g(geom(*m, {{0, 0, 0}, {6, 0, 0}, {0, 6, 0}, {6, 6, 1}, {8, 3, 2}})), h(geom(*m2, {{1 + s, 1, -2}, {2 + s, 3, 4}, {3 + s, -1, 3}, {2 + s, 2, 5}}));
  std::vector<TriTriIntersectionResult3D> want; for (Face f : m->faces()) for (Face k : m2->faces()) { T3 a = corners(*g, f), b = corners(*h, k); want.push_back(triTriIntersection(a[0], a[1], a[2], b[0], b[1], b[2])); }
  auto r = intersections(*g, *h); compare(r, want);
}
GS_HARNESS(mesh_two) { two(false); } GS_HARNESS(mesh_twoholes) { two(true); }
GS_HARNESS(mesh_self) { // two triangles apart plus one crossing both, and neighbours sharing vertices (never reported)
  gs_mode_real(); double s = gs_double("s", 1); ManifoldSurfaceMesh m({{0, 1, 2}, {2, 1, 3}, {4, 5, 6}, {5, 4, 7}}); std::unique_ptr<VertexPositionGeometry> g(geom(m, {{0, 0, 0}, {6, 0, 0}, {0, 6, 0}, {6, 6, 1}, {1, 1 + s, -2}, {2, 3 + s, 4}, {3, s - 1, 3}, {5, 2 + s, 1}}));
  std::vector<TriTriIntersectionResult3D> want; for (Face f : m.faces()) for (Face k : m.faces()) { if (k.getIndex() >= f.getIndex()) continue; bool share = false; for (Vertex a : f.adjacentVertices()) for (Vertex b : k.adjacentVertices()) share |= a == b; if (share) continue; T3 a = corners(*g, f), b = corners(*g, k); want.push_back(triTriIntersection(a[0], a[1], a[2], b[0], b[1], b[2])); }
  auto r = selfIntersections(*g); compare(r, want);
}
static bool refused(SurfaceMesh& a, std::vector<Vector3> p, SurfaceMesh& b, std::vector<Vector3> q) { std::unique_ptr<VertexPositionGeometry> g(geom(a, p)), h(geom(b, q)); try { intersections(*g, *h); } catch (const std::exception&) { return true; } return false; }
GS_HARNESS(mesh_quad) { ManifoldSurfaceMesh t({{0, 1, 2}}), q({{0, 1, 2, 3}}); std::vector<Vector3> p{{0, 0, 0}, {1, 0, 0}, {1, 1, 0}, {0, 1, 0}}; gs_assert(refused(t, p, q, p), "meshes with other polygons are refused"); gs_assert(refused(q, p, t, p), "meshes with other polygons are refused"); gs_assert(!refused(t, p, t, p), "triangle meshes are accepted"); }
