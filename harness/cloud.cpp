// Point clouds: neighbourhoods, frames, local Delaunay triangulations, transport and operators.
#include "geo.h"
#include "geometrycentral/pointcloud/local_triangulation.h"
#include "geometrycentral/pointcloud/neighborhoods.h"
#include "geometrycentral/pointcloud/point_cloud.h"
#include "geometrycentral/pointcloud/point_position_frame_geometry.h"
#include "geometrycentral/pointcloud/point_position_geometry.h"
#include "geometrycentral/pointcloud/point_position_normal_geometry.h"
using namespace geometrycentral::pointcloud;
static void near(double a, double b, const char* w) { double d = a - b; gs_assert((d < 1e-6) & (d > -1e-6), w); }
static void near3(Vector3 a, Vector3 b, const char* w) { near(a.x, b.x, w); near(a.y, b.y, w); near(a.z, b.z, w); }
typedef std::array<Vector3, 3> Frame;
static Frame frame(size_t k) { // right-handed orthonormal frames
  static const double A[][4] = {{1, 0, 0, 0}, {4, 1, -2, 3}, {1, 2, 2, 0}, {0, 1, 0, 0}, {3, -2, 1, 5}, {2, 5, -1, 1}, {1, 0, 3, 3}, {7, 1, 1, -1}}; double a = A[k][0], b = A[k][1], c = A[k][2], d = A[k][3], n = a * a + b * b + c * c + d * d;
  return {Vector3{a * a + b * b - c * c - d * d, 2 * (b * c + a * d), 2 * (b * d - a * c)} / n, Vector3{2 * (b * c - a * d), a * a - b * b + c * c - d * d, 2 * (c * d + a * b)} / n, Vector3{2 * (b * d + a * c), 2 * (c * d - a * b), a * a - b * b - c * c + d * d} / n};
}
static PointData<Vector3> positions(PointCloud& c, const std::vector<Vector3>& x) { PointData<Vector3> r(c); for (size_t i = 0; i < x.size(); i++) r[i] = x[i]; return r; }
// ---- local triangulations of a star with free radii
struct Star : PointPositionFrameGeometry { size_t n; Star(PointCloud& c, const PointData<Vector3>& x, const PointData<Frame>& f, size_t n_) : PointPositionFrameGeometry(c, x, f), n(n_) {}
  void computeNeighbors() override { PointData<Vector3> fake(cloud); for (size_t i = 0; i <= n; i++) fake[i] = {(double)i, 0, 0}; neighbors.reset(new Neighborhoods(cloud, fake, n)); for (size_t i = 0; i <= n; i++) neighbors->neighbors[i].clear(); for (size_t i = 0; i < n; i++) neighbors->neighbors[0].push_back(cloud.point(1 + (i * 3 + 1) % n)); } };
GS_HARNESS(cstar) {
  gs_mode_real(); size_t n = 4 + gs_choose("n", gs_tier() ? 4 : 2); if (n % 3 == 0) n++; static const Vector2 D[][8] = {{{1, 0}, {.75, 1}, {-.4375, 1.5}, {-1, 0}, {-.75, -1}, {.4375, -1.5}, {1, -.75}, {1, .75}}, {{1, 0}, {1.5, .4375}, {.75, 1}, {.4375, 1.5}, {-.4375, 1.5}, {-.75, 1}, {1, .75}, {1, -.75}}, {{.75, -1}, {1, .75}, {-1, .75}, {-1.5, -.4375}, {0, 1}, {-.4375, -1.5}, {1, 0}, {-.75, 1}}, {{1, 0}, {1, 0}, {0, 1}, {0, 1}, {-1, 0}, {-1, -1}, {-1, -1}, {1, -1}}};
  size_t dirs = gs_choose("directions", 4); if (dirs == 3 && gs_choose("many", 2)) n = 7; const Vector2* d = D[dirs]; PointCloud c(n + 1); PointData<Vector3> x(c, Vector3{.5, -.25, 1}); PointData<Frame> f(c, frame(0)); std::vector<Vector2> q; size_t s0 = gs_choose("free", gs_tier() ? n : 2), s1 = (s0 + 1 + (n > 4)) % n;
  static const double R[] = {1, 1.25, .875, 1.5, 1.125, .9375, 1.0625, 1.375}; for (size_t i = 0; i < n; i++) { double r = R[i]; if (i == s0) { r = gs_double("r", 1); gs_assume((r > .25) & (r < 4)); } if (i == s1) { r = gs_double("s", 1.25); gs_assume((r > .25) & (r < 4)); } q.push_back(d[i] * r); x[1 + i] = x[0] + Vector3{q[i].x, q[i].y, .125 * (double)(i % 3)}; }
  if (dirs == 3) for (size_t i = 0; i < n; i++) for (size_t j = 0; j < i; j++) if (d[i].x == d[j].x && d[i].y == d[j].y) { double e = norm2(q[i]) - norm2(q[j]); gs_assume((e > 1e-3) | (e < -1e-3)); }
  Star g(c, x, f, n); auto tr = buildLocalTriangulations(c, g, dirs == 3 || gs_choose("heuristic", 2)); auto ids = handleToInds(c, tr); auto flat = handleToFlatInds(c, tr); std::map<size_t, size_t> next; gs_assert(flat.size() == ids[0].size(), "flat lists have all triangles");
  for (size_t i = 0; i < ids[0].size(); i++) { auto& t = ids[0][i]; gs_assert(t[0] == 0 && flat[i][0] == 0 && flat[i][1] == t[1] && flat[i][2] == t[2] && t[1] && t[2] && !next.count(t[1]), "local triangles start at the point"); next[t[1]] = t[2]; }
  for (auto& p : next) { Vector2 a = q[p.first - 1], b = q[p.second - 1]; gs_assert(cross(a, b) > 0, "local triangles are counterclockwise"); double a2 = dot(a, a), b2 = dot(b, b);
    for (size_t j = 0; j < n; j++) if (j + 1 != p.first && j + 1 != p.second) { double in = q[j].x * (a.y * b2 - a2 * b.y) - q[j].y * (a.x * b2 - a2 * b.x) + dot(q[j], q[j]) * (a.x * b.y - a.y * b.x); gs_assert(in > -1e-6, "no neighbour lies in the circle of a local triangle"); } }
  // the triangles fill the angle around the point, except where no neighbour lies within a half turn
  std::vector<size_t> ord; for (size_t i = 0; i < n; i++) ord.push_back(i); std::sort(ord.begin(), ord.end(), [&](size_t a, size_t b) { return std::atan2(d[a].y, d[a].x) < std::atan2(d[b].y, d[b].x); }); ord.erase(std::unique(ord.begin(), ord.end(), [&](size_t a, size_t b) { return d[a].x == d[b].x && d[a].y == d[b].y; }), ord.end()); size_t N = ord.size(); auto any = [&](size_t a, auto& m) { for (size_t i = 0; i < n; i++) if (d[i].x == d[a].x && d[i].y == d[a].y && m.count(i + 1)) return true; return false; }; bool open = false; for (size_t i = 0; i < N; i++) open = open || cross(d[ord[i]], d[ord[(i + 1) % N]]) <= 0;
  std::set<size_t> heads; for (auto& p : next) heads.insert(p.second); size_t starts = 0; for (auto& p : next) starts += !heads.count(p.first); gs_assert(!next.empty() && starts == (open ? 1 : 0) && heads.size() == next.size(), "local triangles form one fan around the point");
  if (open) for (size_t i = 0; i < N; i++) if (cross(d[ord[i]], d[ord[(i + 1) % N]]) <= 0) { size_t first = ord[(i + 1) % N], end = ord[i]; gs_assert(any(first, next) && !any(first, heads) && any(end, heads) && !any(end, next), "the fan of a point at the boundary starts and ends at the outermost neighbours"); }
}
// ---- frames and tangent coordinates
GS_HARNESS(ccoords) {
  gs_mode_real(); size_t k = gs_choose("frame", 8); PointCloud c(2); PointData<Vector3> x(c); for (size_t i = 0; i < 2; i++) x[i] = {gs_double("x", .25 + i), gs_double("y", .5 * i), gs_double("z", -.75 * i)}; for (size_t i = 0; i < 2; i++) gs_assume((x[i].x < 8) & (x[i].x > -8) & (x[i].y < 8) & (x[i].y > -8) & (x[i].z < 8) & (x[i].z > -8));
  PointData<Frame> f(c, frame(k)); struct G : PointPositionFrameGeometry { using PointPositionFrameGeometry::PointPositionFrameGeometry; void computeNeighbors() override { PointData<Vector3> fake(cloud); fake[1] = {1, 0, 0}; neighbors.reset(new Neighborhoods(cloud, fake, 1)); } } g(c, x, f); g.requireTangentCoordinates(); g.requireTangentBasis(); g.requireNormals();
  for (size_t i = 0; i < 2; i++) { Vector3 d = x[1 - i] - x[i]; Vector2 t = g.tangentCoordinates[i][0]; near(t.x, dot(d, f[i][0]), "tangent coordinates are components along the tangent basis"); near(t.y, dot(d, f[i][1]), "tangent coordinates are components along the tangent basis"); near3(g.normals[i], f[i][2], "given normals are kept"); near3(g.tangentBasis[i][0], f[i][0], "given frames are kept"); near3(g.tangentBasis[i][1], f[i][1], "given frames are kept"); }
}
static std::vector<Vector3> cloudX(size_t kind) { std::vector<Vector3> x; for (size_t i = 0; i < 4; i++) for (size_t j = 0; j < 4; j++) { double a = i + .125 * ((i * 3 + j) % 3), b = j + .0625 * ((i + 5 * j) % 4); double z = kind == 1 ? .25 * a - .5 * b : kind == 2 ? .125 * a * a - .0625 * b * b : 0; x.push_back({a, b, z}); } return x; }
GS_HARNESS(cneighbors) { // neighbourhoods, indices, copies
  gs_mode_real(); size_t kind = gs_choose("kind", 3), k = 1 + gs_choose("k", gs_tier() ? 15 : 6); auto X = cloudX(kind); PointCloud c(X.size()); auto x = positions(c, X); gs_assert(c.nPoints() == X.size() && c.isCompressed(), "a new cloud is compressed"); size_t n = 0; for (Point p : c.points()) { gs_assert(p.getIndex() == n && c.point(n) == p, "points are iterated in order"); n++; } gs_assert(n == X.size(), "all points are iterated");
  auto id = c.getPointIndices(); for (size_t i = 0; i < n; i++) gs_assert(id[i] == i, "point indices"); Neighborhoods N(c, x, k);
  for (Point p : c.points()) { auto& v = N.neighbors[p]; gs_assert(v.size() == k, "each point has k neighbours"); std::set<size_t> s; double far = 0; for (Point q : v) { gs_assert(q != p && s.insert(q.getIndex()).second, "neighbours are distinct other points"); far = std::max(far, (X[q.getIndex()] - X[p.getIndex()]).norm()); } for (size_t j = 0; j < n; j++) if (j != p.getIndex() && !s.count(j)) gs_assert((X[j] - X[p.getIndex()]).norm() > far - 1e-9, "neighbours are the nearest points"); }
  auto d = c.copy(); gs_assert(d->nPoints() == n && d->isCompressed(), "copies have the same points"); d->validateConnectivity(); c.validateConnectivity();
}
GS_HARNESS(cnormals) {
  gs_mode_real(); size_t kind = gs_choose("kind", 3), src = gs_choose("given", 2); auto X = cloudX(kind); PointCloud c(X.size()); auto x = positions(c, X); PointData<Vector3> nn(c); for (size_t i = 0; i < X.size(); i++) nn[i] = frame(i % 8)[2]; std::unique_ptr<PointPositionGeometry> g(src ? new PointPositionNormalGeometry(c, x, nn) : new PointPositionGeometry(c, x)); g->kNeighborSize = 4 + gs_choose("k", 4); g->requireNormals(); g->requireTangentBasis(); g->requireNeighbors();
  for (size_t i = 0; i < X.size(); i++) { Vector3 n = g->normals[i], a = g->tangentBasis[i][0], b = g->tangentBasis[i][1]; near(n.norm(), 1, "normals have unit length"); near(a.norm(), 1, "frames are orthonormal"); near3(cross(n, a), b, "frames are right-handed and orthogonal to the normal"); near(dot(n, a), 0, "frames are orthonormal"); if (src) { near3(n, nn[i], "given normals are kept"); continue; }
    auto cost = [&](Vector3 u) { double s = 0; for (Point q : g->neighbors->neighbors[i]) { double d = dot(u, X[q.getIndex()] - X[i]); s += d * d; } return s / u.norm2(); }; double s = cost(n); if (kind < 2) near(s, 0, "normals of planar neighbourhoods are orthogonal to the plane"); for (int e = 1; e <= 12; e++) { Vector3 u = n + a * (.25 * std::cos(e)) + b * (.25 * std::sin(e)); gs_assert(cost(u) > s - 1e-9, "normals fit the neighbourhood best"); } }
}
// ---- transport
static Vector3 turned(Vector3 v, Vector3 n, Vector3 m) { Vector3 a = cross(n, m); double c = dot(n, m); return c * v + cross(a, v) + a * (dot(a, v) / (1 + c)); } // least rotation taking n to m
GS_HARNESS(ctransport) {
  gs_mode_real(); size_t i = gs_choose("p", 8), j = gs_choose("q", 8); bool opp = gs_choose("opposite", 2); Frame A = frame(i), B = frame(j); if (opp) { B[1] = -B[1]; B[2] = -B[2]; } PointCloud c(2); PointData<Vector3> x(c, Vector3::zero()); x[1] = {1, 0, 0}; PointData<Frame> f(c); f[0] = A; f[1] = B; PointPositionFrameGeometry g(c, x, f); g.kNeighborSize = 1; g.requireTangentTransport();
  double co = dot(A[2], B[2]); Vector2 r = g.tangentTransport[0][0], s = g.tangentTransport[1][0];
  if (co > -.999) { near(r.norm(), 1, "transport rotates"); Vector3 v = turned(A[0], A[2], B[2]); near(r.x, dot(v, B[0]), "transport is the least rotation between the normals"); near(r.y, dot(v, B[1]), "transport is the least rotation between the normals"); near(r.x * s.x - r.y * s.y, 1, "transport back undoes transport"); near(r.x * s.y + r.y * s.x, 0, "transport back undoes transport"); }
}
// ---- operators
GS_HARNESS(cgrad) {
  gs_mode_real(); size_t kind = gs_choose("kind", 3); auto X = cloudX(kind); PointCloud c(X.size()); auto x = positions(c, X); PointPositionGeometry g(c, x); g.kNeighborSize = 4 + gs_choose("k", gs_tier() ? 6 : 3); g.requireGradient(); g.requireTangentBasis(); Vector3 w{gs_double("a", 1), gs_double("b", -.5), gs_double("c", .25)}; double o = gs_double("o", 2); gs_assume((w.x < 4) & (w.x > -4) & (w.y < 4) & (w.y > -4) & (w.z < 4) & (w.z > -4) & (o < 4) & (o > -4));
  gs_assert((size_t)g.gradient.rows() == X.size() && (size_t)g.gradient.cols() == X.size(), "the gradient is square"); std::vector<Vector2> r(X.size(), Vector2{0, 0}); for (int k = 0; k < g.gradient.outerSize(); k++) for (SparseMatrix<std::complex<double>>::InnerIterator it(g.gradient, k); it; ++it) { double u = kind == 2 ? o : dot(w, X[it.col()]) + o; r[it.row()] += Vector2{it.value().real() * u, it.value().imag() * u}; }
  for (size_t i = 0; i < X.size(); i++) { near(r[i].x, kind == 2 ? 0 : dot(w, g.tangentBasis[i][0]), "the gradient is exact for linear functions on planar clouds and zero for constants"); near(r[i].y, kind == 2 ? 0 : dot(w, g.tangentBasis[i][1]), "the gradient is exact for linear functions on planar clouds and zero for constants"); }
}
GS_HARNESS(claplace) {
  gs_mode_real(); size_t kind = gs_choose("kind", 3), n = cloudX(0).size(), flips = gs_choose("flips", 3), turn = gs_choose("turn", 2); auto X = cloudX(kind); PointCloud c(n); auto x = positions(c, X); PointData<Frame> f(c); for (size_t i = 0; i < n; i++) { Vector3 N = kind == 0 ? Vector3{0, 0, 1} : kind == 1 ? unit(Vector3{-.25, .5, 1}) : unit(Vector3{-.25 * X[i].x, .125 * X[i].y, 1}); if (flips && (i * 7 + 3) % (1 + flips) == 0) N = -N; auto b = N.buildTangentBasis(); static const Vector2 R[] = {{1, 0}, {.6, .8}, {-.28, .96}, {.8, -.6}, {0, 1}}; Vector2 r = R[turn ? i % 5 : 0]; f[i] = {b[0] * r.x + b[1] * r.y, b[1] * r.x - b[0] * r.y, N}; }
  PointPositionFrameGeometry g(c, x, f); g.kNeighborSize = 6 + 2 * gs_choose("k", gs_tier() ? 4 : 2); g.requireLaplacian(); g.requireConnectionLaplacian(); g.requireTuftedTriangulation(); gs_assert((size_t)g.laplacian.rows() == n && (size_t)g.laplacian.cols() == n && (size_t)g.connectionLaplacian.rows() == 2 * n, "operators have one row per point");
  std::vector<double> u(n); for (size_t i = 0; i < n; i++) u[i] = i < 3 ? gs_double("u", i) : std::sin((double)i); for (size_t i = 0; i < 3; i++) gs_assume((u[i] < 4) & (u[i] > -4)); std::vector<double> rows(n, 0); double en = 0; Eigen::MatrixXd L(g.laplacian), C(g.connectionLaplacian); for (size_t i = 0; i < n; i++) for (size_t j = 0; j < n; j++) { near(L(i, j), L(j, i), "the Laplacian is symmetric"); if (i != j) gs_assert(L(i, j) < 1e-6, "the Laplacian has no negative weights"); rows[i] += L(i, j); en += u[i] * L(i, j) * u[j]; }
  for (double r : rows) near(r, 0, "the Laplacian annihilates constants"); gs_assert(en > -1e-6, "the Laplacian is positive semidefinite");
  for (size_t i = 0; i < n; i++) for (size_t j = 0; j < n; j++) { double b[2][2] = {{0, 0}, {0, 0}}; if (i == j) b[0][0] = b[1][1] = L(i, i); else { bool inv = dot(f[i][2], f[j][2]) < 0; Vector3 N = inv ? -f[i][2] : f[i][2]; for (int k = 0; k < 2; k++) { Vector3 v = turned(f[j][k], f[j][2], N); b[0][k] = L(i, j) * dot(v, f[i][0]); b[1][k] = L(i, j) * dot(v, f[i][1]); } }
    for (int a = 0; a < 2; a++) for (int k = 0; k < 2; k++) near(C(2 * i + a, 2 * j + k), b[a][k], "the connection Laplacian is the Laplacian with each weight times the transport"); }
  if (kind < 2) { Vector3 w{gs_double("x", 1), gs_double("y", -.5), 0}; gs_assume((w.x < 4) & (w.x > -4) & (w.y < 4) & (w.y > -4)); w.z = kind ? .25 * w.x - .5 * w.y : 0; for (size_t i = 0; i < 2 * n; i++) { double s = 0; for (size_t j = 0; j < n; j++) s += C(i, 2 * j) * dot(w, f[j][0]) + C(i, 2 * j + 1) * dot(w, f[j][1]); near(s, 0, "the connection Laplacian annihilates parallel fields of planar clouds whatever the orientation of the normals"); } }
  if (kind < 2) { double ar = 0; g.tuftedGeom->requireFaceAreas(); for (surface::Face q : g.tuftedMesh->faces()) ar += g.tuftedGeom->faceAreas[q]; gs_assert(ar > 0, "the tufted cover has area"); }
}
GS_HARNESS(cmanage) { // quantities follow positions, and survive purging while required
  gs_mode_real(); auto X = cloudX(1); size_t n = X.size(); PointCloud c(n); auto x = positions(c, X); PointPositionGeometry g(c, x), h(c, x); g.kNeighborSize = h.kNeighborSize = 6; size_t ops = gs_choose("ops", 4); bool twice = gs_choose("twice", 2);
  static void (PointPositionGeometry::*const RQ[])() = {&PointPositionGeometry::requirePointIndices, &PointPositionGeometry::requireNeighbors, &PointPositionGeometry::requireNormals, &PointPositionGeometry::requireTangentBasis, &PointPositionGeometry::requireTangentCoordinates, &PointPositionGeometry::requireTangentTransport, &PointPositionGeometry::requireTuftedTriangulation, &PointPositionGeometry::requireLaplacian, &PointPositionGeometry::requireConnectionLaplacian, &PointPositionGeometry::requireGradient};
  static void (PointPositionGeometry::*const UN[])() = {&PointPositionGeometry::unrequirePointIndices, &PointPositionGeometry::unrequireNeighbors, &PointPositionGeometry::unrequireNormals, &PointPositionGeometry::unrequireTangentBasis, &PointPositionGeometry::unrequireTangentCoordinates, &PointPositionGeometry::unrequireTangentTransport, &PointPositionGeometry::unrequireTuftedTriangulation, &PointPositionGeometry::unrequireLaplacian, &PointPositionGeometry::unrequireConnectionLaplacian, &PointPositionGeometry::unrequireGradient};
  size_t q = gs_choose("quantity", 10); (g.*RQ[q])(); if (twice) { (g.*RQ[q])(); (g.*UN[q])(); }
  if (ops & 1) { for (size_t i = 0; i < n; i++) { X[i] = {X[i].y, -X[i].z + .125 * (i % 3), 2 * X[i].x}; g.positions[i] = X[i]; } g.refreshQuantities(); } if (ops & 2) g.purgeQuantities();
  h.positions = positions(c, X); (h.*RQ[q])();
  auto same = [&](const PointPositionGeometry& a, const PointPositionGeometry& b) { const char* w = "required quantities are those of the current positions"; switch (q) {
    case 0: for (size_t i = 0; i < n; i++) gs_assert(a.pointIndices[i] == i, w); break; case 1: for (size_t i = 0; i < n; i++) gs_assert(a.neighbors && a.neighbors->neighbors[i] == b.neighbors->neighbors[i], w); break;
    case 2: for (size_t i = 0; i < n; i++) near3(a.normals[i], b.normals[i], w); break; case 3: for (size_t i = 0; i < n; i++) near3(a.tangentBasis[i][0], b.tangentBasis[i][0], w); break;
    case 4: for (size_t i = 0; i < n; i++) for (size_t k = 0; k < 6; k++) near(a.tangentCoordinates[i][k].x, b.tangentCoordinates[i][k].x, w); break; case 5: for (size_t i = 0; i < n; i++) for (size_t k = 0; k < 6; k++) near(a.tangentTransport[i][k].y, b.tangentTransport[i][k].y, w); break;
    case 6: gs_assert(a.tuftedMesh && a.tuftedGeom && a.tuftedMesh->nFaces() == b.tuftedMesh->nFaces(), w); for (size_t i = 0; i < b.tuftedMesh->nEdges(); i++) near(a.tuftedGeom->inputEdgeLengths[i], b.tuftedGeom->inputEdgeLengths[i], w); break;
    case 7: gs_assert(a.laplacian.nonZeros() == b.laplacian.nonZeros(), w); near((Eigen::MatrixXd(a.laplacian) - Eigen::MatrixXd(b.laplacian)).norm(), 0, w); break; case 8: gs_assert(a.connectionLaplacian.rows() == b.connectionLaplacian.rows(), w); near((Eigen::MatrixXd(a.connectionLaplacian) - Eigen::MatrixXd(b.connectionLaplacian)).norm(), 0, w); break;
    case 9: gs_assert(a.gradient.rows() == b.gradient.rows(), w); near((Eigen::MatrixXcd(a.gradient) - Eigen::MatrixXcd(b.gradient)).norm(), 0, w); break; } };
  same(g, h); size_t o = gs_choose("other", 10); (h.*RQ[o])(); h.purgeQuantities(); (g.*RQ[o])(); (g.*UN[q])(); g.purgeQuantities(); std::swap(q, o); same(g, h); (g.*RQ[o])(); std::swap(q, o); same(g, h);
}
