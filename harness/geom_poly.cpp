// Operators on polygon meshes (virtual-element operators after de Goes et al. and virtual-refinement operators after
// Bunge et al.), in exact real arithmetic. The affine weights of the virtual vertices (a pivoted least-squares solve) are
// replaced by arbitrary weights with sum one: simplePolygonVirtualVertex is weakened at link time.
#include "geo.h"
#include "geometrycentral/surface/polygon_mesh_helpers.h"
struct G : VertexPositionGeometry { using VertexPositionGeometry::VertexPositionGeometry; using VertexPositionGeometry::polygonVertexNormals; using VertexPositionGeometry::polygonVertexNormalsQ; using VertexPositionGeometry::vertexTangentBasisQ; using VertexPositionGeometry::faceTangentBasisQ; using VertexPositionGeometry::cornerScaledAnglesQ; };
static int g_free = 0; // 0: uniform weights, 1: symbolic weights
namespace geometrycentral { namespace surface {
Eigen::VectorXd simplePolygonVirtualVertex(const Eigen::MatrixXd& poly) {
  size_t n = poly.rows(); Eigen::VectorXd w(n); double s = 0;
  if (!g_free) { static const double W[3][4] = {{.5, .25, .25, 0}, {.25, .25, .25, .25}, {.25, .125, .125, .125}}; for (size_t i = 0; i < n; i++) w(i) = n == 3 ? W[0][i] : n == 4 ? W[1][i] : i < 4 ? W[2][i] : i == 4 ? .375 : 0.; return w; }
  for (size_t i = 0; i + 1 < n; i++) { w(i) = gs_double("w", .25); s += w(i); } w(n - 1) = 1 - s; return w;
}
} }
// 300 quad, 301 pentagon, 302 quad + triangle, 303 a quad and two triangles with deleted slots, 304 two quads
static MeshP polyMesh(size_t i) {
  switch (i) { case 300: return MeshP(new ManifoldSurfaceMesh({{0, 1, 2, 3}})); case 301: return MeshP(new ManifoldSurfaceMesh({{0, 1, 2, 3, 4}})); case 302: return MeshP(new ManifoldSurfaceMesh({{0, 1, 2, 3}, {1, 0, 4}}));
  case 303: { std::unique_ptr<ManifoldSurfaceMesh> m(new ManifoldSurfaceMesh({{0, 1, 2}, {0, 2, 3}, {0, 3, 1}, {1, 3, 4, 5}, {3, 2, 6}})); gs_assert(m->removeVertex(m->vertex(0)) != Face(), "a degree-three vertex can be removed"); return m; }
  case 304: return MeshP(new ManifoldSurfaceMesh({{0, 1, 2, 3}, {1, 0, 4, 5}})); case 305: return MeshP(new SurfaceMesh({{0, 1, 2, 3}, {0, 1, 4}, {1, 0, 5, 4}})); }
  return geoMesh(i);
}
// plane positions in convex order for the polygons above; heights symbolic where sym has the vertex
static VertexData<Vector3> positions(SurfaceMesh& m, size_t mi, unsigned sym) {
  static const int X[] = {0, 4, 5, 1, 3, 0}, Y[] = {0, 0, 3, 4, -3, -2};
  static const int PX[] = {0, 3, 4, 2, -1}, PY[] = {0, 0, 2, 4, 2};
  VertexData<Vector3> p(m); size_t k = 0;
  for (Vertex v : m.vertices()) { Vector3 q; q.x = mi == 301 ? PX[k] * 5 : X[k % 6] * 12; q.y = mi == 301 ? PY[k] * 5 : Y[k % 6] * 12; q.z = sym >> k & 1 ? gs_double("z", .2 * k) : 0.; p[v] = q; k++; }
  return p;
}
#define SETUP gs_mode_real(); auto m = polyMesh(mi); auto p = positions(*m, mi, sym); G g(*m, p); Order o(*m); size_t nv = m->nVertices(), nf = m->nFaces(); (void)nv; (void)nf;
static Vector3 vecArea(const VertexData<Vector3>& p, Face f) { Vector3 S = Vector3::zero(); for (Halfedge h : f.adjacentHalfedges()) S += cross(p[h.vertex()], p[h.next().vertex()]); return S / 2; }
struct Ring { std::vector<size_t> i; std::vector<Vector3> p; Vector3 a; };
static Ring ring(const VertexData<Vector3>& p, Order& o, Face f) { Ring r; Halfedge h = f.halfedge(); do { r.i.push_back(o.v[h.vertex().getIndex()]); r.p.push_back(p[h.vertex()]); h = h.next(); } while (h != f.halfedge()); r.a = vecArea(p, f); return r; }

static void area(size_t mi, unsigned sym) {
  SETUP
  g.requireFaceAreas(); g.requireFaceNormals(); g.requirePolygonVertexLumpedMassMatrix();
  Acc H;
  for (Face f : m->faces()) {
    Vector3 a = vecArea(p, f); double A = g.faceAreas[f]; size_t n = 0; for (Halfedge h : f.adjacentHalfedges()) { (void)h; n++; }
    EQ(A * A, norm2(a), "polygon area is the length of its vector area"); eq3(g.faceNormals[f] * A, a, "polygon normal is the direction of its vector area"); eq3(g.faceNormal(f), g.faceNormals[f], "faceNormal(f) equals the cached normal");
    for (Halfedge h : f.adjacentHalfedges()) { size_t i = o.v[h.vertex().getIndex()]; H[{i, i}] += A / n; }
  }
  same(g.polygonVertexLumpedMassMatrix, H, nv, nv, "polygon lumped mass splits every face area evenly among its vertices");
}
static void normals(size_t mi, unsigned sym) {
  SETUP
  g.requireFaceAreas(); g.requireFaceNormals(); VertexData<Vector3> S(*m, Vector3::zero());
  for (Face f : m->faces()) for (Halfedge h : f.adjacentHalfedges()) S[h.vertex()] += vecArea(p, f);
  for (Vertex v : m->vertices()) gs_assume(norm2(S[v]) > 0);
  g.polygonVertexNormalsQ.require();
  for (Vertex v : m->vertices()) { Eigen::VectorXd& n = g.polygonVertexNormals[v]; eq3(Vector3{n(0), n(1), n(2)} * norm(S[v]), S[v], "polygon vertex normal is the unit average of the adjacent faces' vector areas"); }
}
// In the plane the connection Laplacian is the Laplacian seen in the vertices' frames, whatever the faces' frames.
static void conn(size_t mi) {
  gs_mode_real(); auto m = polyMesh(mi); auto p = positions(*m, mi, 0); Order o(*m); size_t nv = m->nVertices();
  { size_t k = 0; for (Vertex v : m->vertices()) if (k++ < 2) p[v].x = gs_double("x", p[v].x); }
  G g(*m, p); for (Face f : m->faces()) gs_assume(vecArea(p, f).z > 0);
  g.vertexTangentBasis = VertexData<std::array<Vector3, 2>>(*m); g.faceTangentBasis = FaceData<std::array<Vector3, 2>>(*m); g.vertexTangentBasisQ.computed = g.faceTangentBasisQ.computed = true; // arbitrary frames
  g.requirePolygonLaplacian(); std::map<size_t, std::complex<double>> r; size_t k = 0;
  auto frame = [&](double& c, double& s) { if (k++ % 3) { static const double C[] = {1, 0, -1, 0}, S[] = {0, -1, 0, 1}; c = C[k % 4]; s = S[k % 4]; } else { c = gs_double("c", .6); s = gs_double("s", .8); gs_assume(c * c + s * s == 1); } };
  for (Vertex v : m->vertices()) { double c, s; frame(c, s); g.vertexTangentBasis[v] = {{Vector3{c, s, 0.}, Vector3{-s, c, 0.}}}; r[o.v[v.getIndex()]] = {c, s}; }
  for (Face f : m->faces()) { double c, s; frame(c, s); g.faceTangentBasis[f] = {{Vector3{c, s, 0.}, Vector3{-s, c, 0.}}}; }
  g.requirePolygonVertexConnectionLaplacian(); AccC L;
  for (size_t i = 0; i < nv; i++) for (size_t j = 0; j < nv; j++) L[{i, j}] = std::conj(r[i]) * r[j] * at(g.polygonLaplacian, i, j);
  same(g.polygonVertexConnectionLaplacian, L, nv, nv, "in the plane the polygon connection Laplacian is the Laplacian in the vertices' frames");
}
static double projd(Vector3 e, Vector3 N, Vector3 x) { return dot(e - N * dot(e, N), x); }
// inner product of 1-forms on one face: A U^T U + P^T P with sharp U and P = I - flat U
static double ip(const Ring& r, Vector3 N, double A, size_t a, size_t b) {
  size_t n = r.i.size(); Vector3 c = Vector3::zero(); for (auto& q : r.p) c += q; c /= n;
  auto U = [&](size_t i) { return cross(N, (r.p[i] + r.p[(i + 1) % n]) / 2 - c) / A; };
  auto P = [&](size_t i, size_t j) { return (i == j ? 1. : 0.) - projd(r.p[(i + 1) % n] - r.p[i], N, U(j)); };
  double s = A * dot(U(a), U(b)); for (size_t i = 0; i < n; i++) s += P(i, a) * P(i, b);
  return s;
}
// Arbitrary vertex normals and frames: the connection turns vertex tangent planes into the face's plane by the smallest rotation.
static void connq(size_t mi) {
  gs_mode_real(); auto m = polyMesh(mi); auto p = positions(*m, mi, 0); Order o(*m); size_t nv = m->nVertices();
  { size_t k = 0; for (Vertex v : m->vertices()) if (k++ < 2) p[v].x = gs_double("x", p[v].x); }
  G g(*m, p); for (Face f : m->faces()) gs_assume(vecArea(p, f).z > 0); g.vertexTangentBasis = VertexData<std::array<Vector3, 2>>(*m); g.vertexTangentBasisQ.computed = true;
  g.polygonVertexNormals = VertexData<Eigen::VectorXd>(*m); g.polygonVertexNormalsQ.computed = true;
  g.requireFaceTangentBasis(); g.requireFaceNormals(); g.requirePolygonLaplacian(); VertexData<Vector3> nrm(*m); size_t k = 0;
  for (Vertex v : m->vertices()) {
    double c = 0, s = 1; if (k == 1) { c = gs_double("c", .6); s = gs_double("s", .8); gs_assume(c * c + s * s == 1); gs_assume(c > -.9); } if (k == 2) { c = 1; s = 0; }
    Vector3 n{s, 0., c}, X{c, 0., -s}, Y{0., 1., 0.}; if (k % 4 == 3) { n = {0., -s, c}; X = {1., 0., 0.}; Y = {0., c, s}; }
    nrm[v] = n; g.polygonVertexNormals[v] = Eigen::Vector3d(n.x, n.y, n.z); if (k % 2) g.vertexTangentBasis[v] = {{Y, -X}}; else g.vertexTangentBasis[v] = {{X, Y}}; k++;
  }
  g.requirePolygonVertexConnectionLaplacian(); AccC L;
  for (Face f : m->faces()) {
    Ring r = ring(p, o, f); size_t n = r.i.size(); Vector3 N = g.faceNormals[f]; std::vector<std::complex<double>> z; Halfedge h = f.halfedge();
    for (size_t i = 0; i < n; i++, h = h.next()) { Vector3 a = nrm[h.vertex()], u = g.vertexTangentBasis[h.vertex()][0], q = u - (a + N) * (dot(a + N, u) / (1 + dot(a, N))) + N * (2 * dot(a, u)); z.push_back({dot(q, g.faceTangentBasis[f][0]), dot(q, g.faceTangentBasis[f][1])}); }
    for (size_t a = 0; a < n; a++) for (size_t b = 0; b < n; b++) { double w = ip(r, N, g.faceAreas[f], a, b); size_t a0 = a, a1 = (a + 1) % n, b0 = b, b1 = (b + 1) % n;
      auto put = [&](size_t i, size_t j, double x) { L[{r.i[i], r.i[j]}] += std::conj(z[i]) * z[j] * x; }; put(a1, b1, w); put(a0, b0, w); put(a1, b0, -w); put(a0, b1, -w); }
  }
  same(g.polygonVertexConnectionLaplacian, L, nv, nv, "the polygon connection Laplacian turns vertex planes into the face plane by the smallest rotation");
}
// tangent spaces on polygons: face frames start at the face's halfedge, vertex frames (for arbitrary scaled corner angles) at the vertex's halfedge
static void frames(size_t mi, unsigned sym) {
  SETUP
  g.requireFaceNormals(); g.requireFaceTangentBasis();
  for (Face f : m->faces()) {
    Vector3 X = g.faceTangentBasis[f][0], Y = g.faceTangentBasis[f][1], N = g.faceNormals[f], d = p[f.halfedge().tipVertex()] - p[f.halfedge().vertex()];
    EQ(norm2(X), 1., "face tangent basis is orthonormal"); EQ(dot(X, N), 0., "face tangent basis is orthogonal to the normal"); eq3(Y, cross(N, X), "face tangent basis is right-handed");
    if (m->usesImplicitTwin()) { d -= N * dot(N, d); eq3(X * norm(d), d, "the x axis of a face is along its halfedge"); }
  }
  if (!m->usesImplicitTwin()) return;
  g.cornerScaledAngles = CornerData<double>(*m); g.cornerScaledAnglesQ.computed = true; for (Corner c : m->corners()) g.cornerScaledAngles[c] = gs_double("angle", .7);
  g.requireHalfedgeVectorsInVertex(); g.requireEdgeLengths();
  for (Vertex v : m->vertices()) {
    double s = 0; Halfedge h = v.halfedge();
    do { eq2(g.halfedgeVectorsInVertex[h], Vector2::fromAngle(s) * g.edgeLengths[h.edge()], "halfedges around a vertex are laid out counter-clockwise by their scaled angles"); if (!h.isInterior()) break; s += g.cornerScaledAngles[h.corner()]; Halfedge q = h; while (q.next() != h) q = q.next(); h = q.twin(); } while (h != v.halfedge());
  }
}
static void grad(size_t mi, unsigned sym) {
  SETUP
  g.requirePolygonGradientMatrix(); g.requirePolygonDivergenceMatrix(); g.requireFaceAreas(); g.requireFaceNormals();
  Acc R;
  for (Face f : m->faces()) {
    Ring r = ring(p, o, f); size_t n = r.i.size(), k = o.f[f.getIndex()]; double A = g.faceAreas[f]; Vector3 N = g.faceNormals[f];
    for (size_t j = 0; j < n; j++) { Vector3 d = cross(N, r.p[(j + n - 1) % n] - r.p[(j + 1) % n]) / (2 * A); R[{3 * k, r.i[j]}] += d.x; R[{3 * k + 1, r.i[j]}] += d.y; R[{3 * k + 2, r.i[j]}] += d.z; }
    // linear functions have the expected gradient
    for (size_t c = 0; c < 3; c++) {
      Vector3 s = Vector3::zero(); for (size_t j = 0; j < n; j++) { Vector3 col{at(g.polygonGradientMatrix, 3 * k, r.i[j]), at(g.polygonGradientMatrix, 3 * k + 1, r.i[j]), at(g.polygonGradientMatrix, 3 * k + 2, r.i[j])}; s += col * r.p[j][c]; }
      Vector3 e = Vector3::zero(); e[c] = 1; eq3(s, e - N * N[c], "the polygon gradient of a coordinate function is its direction projected to the face");
    }
  }
  same(g.polygonGradientMatrix, R, 3 * nf, nv, "polygon gradient matrix is the face-wise constant gradient");
  gs_assert((size_t)g.polygonDivergenceMatrix.rows() == nv && (size_t)g.polygonDivergenceMatrix.cols() == 3 * nf, "polygon divergence matrix has size V x 3F");
  for (Face f : m->faces()) { size_t k = o.f[f.getIndex()]; for (size_t c = 0; c < 3; c++) for (size_t i = 0; i < nv; i++) EQ(at(g.polygonDivergenceMatrix, i, 3 * k + c), at(g.polygonGradientMatrix, 3 * k + c, i) * g.faceAreas[f], "polygon divergence is the transposed gradient weighted by face areas"); }
}
static void decs(size_t mi, unsigned sym, bool full) {
  SETUP
  g.requirePolygonDECOperators(); g.requireFaceAreas(); g.requireFaceNormals();
  size_t nh = m->nHalfedges(); std::map<size_t, size_t> hi; { size_t k = 0; for (size_t i = 0; i < m->nHalfedgesCapacity() && k < nh; i++) if (!Halfedge(m.get(), i).isDead()) hi[i] = k++; }
  Acc D0, D1, H0, H1, H2;
  for (Face f : m->faces()) {
    size_t k = o.f[f.getIndex()]; Ring r = ring(p, o, f); size_t n = r.i.size(); std::vector<size_t> hs;
    Halfedge h = f.halfedge(); for (size_t i = 0; i < n; i++, h = h.next()) { size_t x = hi[h.getIndex()]; hs.push_back(x); D1[{k, x}] += 1; D0[{x, r.i[(i + 1) % n]}] += 1; D0[{x, r.i[i]}] -= 1; H0[{r.i[i], r.i[i]}] += g.faceAreas[f] / n; }
    H2[{k, k}] = 1 / g.faceAreas[f];
    if (full) for (size_t a = 0; a < n; a++) for (size_t b = 0; b < n; b++) H1[{hs[a], hs[b]}] += ip(r, g.faceNormals[f], g.faceAreas[f], a, b);
  }
  same(g.polygonD0, D0, nh, nv, "polygon d0 takes differences along the halfedges of the faces"); same(g.polygonD1, D1, nf, nh, "polygon d1 adds the halfedges of each face");
  same(g.polygonHodge0, H0, nv, nv, "polygon hodge0 is the lumped mass"); same(g.polygonHodge2, H2, nf, nf, "polygon hodge2 is the inverse face area");
  if (full) same(g.polygonHodge1, H1, nh, nh, "polygon hodge1 is the inner product of 1-forms");
  else for (size_t i = 0; i < nh; i++) for (size_t j = 0; j < i; j++) EQ(at(g.polygonHodge1, i, j), at(g.polygonHodge1, j, i), "polygon hodge1 is symmetric");
  Eigen::SparseMatrix<double> dd = g.polygonD1 * g.polygonD0; Acc Z; same(dd, Z, nf, nv, "polygon d1 d0 = 0");
  for (auto pr : {std::make_pair(&g.polygonHodge0, &g.polygonHodge0Inverse), std::make_pair(&g.polygonHodge2, &g.polygonHodge2Inverse)}) {
    size_t n = pr.first->rows(); gs_assert((size_t)pr.second->rows() == n && (size_t)pr.second->cols() == n, "inverse Hodge stars have the size of the Hodge stars");
    for (size_t i = 0; i < n; i++) for (size_t j = 0; j < n; j++) if (i == j) EQ(at(*pr.first, i, i) * at(*pr.second, i, i), 1., "inverse Hodge stars invert the Hodge stars"); else EQ(at(*pr.second, i, j), 0., "inverse Hodge stars are diagonal");
  }
}
static void laplace(size_t mi, unsigned sym) {
  SETUP
  g.requirePolygonLaplacian(); g.requireFaceAreas(); g.requireFaceNormals(); Acc L;
  for (Face f : m->faces()) { Ring r = ring(p, o, f); size_t n = r.i.size(); for (size_t a = 0; a < n; a++) for (size_t b = 0; b < n; b++) { double w = ip(r, g.faceNormals[f], g.faceAreas[f], a, b); size_t a0 = r.i[a], a1 = r.i[(a + 1) % n], b0 = r.i[b], b1 = r.i[(b + 1) % n]; L[{a1, b1}] += w; L[{a0, b0}] += w; L[{a1, b0}] -= w; L[{a0, b1}] -= w; } }
  same(g.polygonLaplacian, L, nv, nv, "polygon Laplacian is d0^T hodge1 d0");
}
static void tri(size_t mi, unsigned sym) { // on triangles both Laplacians are the cotan Laplacian
  SETUP
  g.requireCotanLaplacian(); g.requirePolygonLaplacian();
  for (size_t i = 0; i < nv; i++) for (size_t j = 0; j < nv; j++) {
    EQ(at(g.polygonLaplacian, i, j), at(g.cotanLaplacian, i, j), "on triangles the polygon Laplacian is the cotan Laplacian");
  }
}
static void simple(size_t mi, unsigned sym, bool cot) {
  SETUP
  g_free = 0; g.requireSimplePolygonLaplacian(); g.requireSimplePolygonVertexGalerkinMassMatrix(); g.requireSimplePolygonVertexLumpedMassMatrix();
  gs_assert((size_t)g.simplePolygonLaplacian.rows() == nv && (size_t)g.simplePolygonLaplacian.cols() == nv, "simple polygon Laplacian is V x V");
  for (size_t i = 0; i < nv; i++) {
    double s = 0, t = 0;
    for (size_t j = 0; j < nv; j++) { s += at(g.simplePolygonLaplacian, i, j); t += at(g.simplePolygonVertexGalerkinMassMatrix, i, j); if (j != i) EQ(at(g.simplePolygonVertexLumpedMassMatrix, i, j), 0., "simple polygon lumped mass is diagonal"); }
    for (size_t j = 0; j < i; j++) { EQ(at(g.simplePolygonLaplacian, i, j), at(g.simplePolygonLaplacian, j, i), "simple polygon Laplacian is symmetric"); EQ(at(g.simplePolygonVertexGalerkinMassMatrix, i, j), at(g.simplePolygonVertexGalerkinMassMatrix, j, i), "simple polygon mass matrix is symmetric"); }
    EQ(s, 0., "simple polygon Laplacian vanishes on constants"); EQ(at(g.simplePolygonVertexLumpedMassMatrix, i, i), t, "simple polygon lumped mass is the row sum of the mass matrix");
  }
  // finite elements on the fan around the virtual vertex, pulled back by the affine weights
  Acc S, M;
  for (Face f : m->faces()) {
    Ring r = ring(p, o, f); size_t n = r.i.size(); Eigen::MatrixXd P(n, 3); for (size_t i = 0; i < n; i++) for (size_t c = 0; c < 3; c++) P(i, c) = r.p[i][c];
    Eigen::VectorXd w = simplePolygonVirtualVertex(P); Vector3 c = Vector3::zero(); for (size_t i = 0; i < n; i++) c += r.p[i] * w(i);
    for (size_t t = 0; t < n; t++) {
      Vector3 q[3] = {r.p[t], r.p[(t + 1) % n], c}; double A2 = norm(cross(q[1] - q[0], q[2] - q[0]));
      auto pull = [&](size_t k, size_t i) { return k == 2 ? w(i) : (t + k) % n == i ? 1. : 0.; };
      for (size_t a = 0; a < 3; a++) for (size_t b = 0; b < 3; b++) {
        double s = dot(q[(a + 2) % 3] - q[(a + 1) % 3], q[(b + 2) % 3] - q[(b + 1) % 3]) / (2 * A2), u = A2 * (a == b ? 2 : 1) / 24;
        for (size_t i = 0; i < n; i++) for (size_t j = 0; j < n; j++) { double x = pull(a, i) * pull(b, j); if (x == 0) continue; S[{r.i[i], r.i[j]}] += x * s; M[{r.i[i], r.i[j]}] += x * u; }
      }
    }
  }
  same(g.simplePolygonLaplacian, S, nv, nv, "simple polygon Laplacian is the stiffness matrix of the virtual refinement"); same(g.simplePolygonVertexGalerkinMassMatrix, M, nv, nv, "simple polygon mass matrix is the one of the virtual refinement");
  if (cot) { g.requireCotanLaplacian(); for (size_t i = 0; i < nv; i++) for (size_t j = 0; j < nv; j++) EQ(at(g.simplePolygonLaplacian, i, j), at(g.cotanLaplacian, i, j), "on triangles the simple polygon Laplacian is the cotan Laplacian"); }
}
#define M(n, f, ...) GS_HARNESS(n) { f(__VA_ARGS__); }
#define POLY(f) M(f##_quad, f, 300, 15) M(f##_penta, f, 301, 12) M(f##_mixed, f, 302, 28) M(f##_holes, f, 303, 44) M(f##_quads, f, 304, 20) M(f##_book, f, 305, 28)
POLY(area) POLY(grad) POLY(laplace)
#define POLYD(f, b) M(f##_quad, f, 300, 15, b) M(f##_penta, f, 301, 12, b) M(f##_mixed, f, 302, 28, b) M(f##_holes, f, 303, 44, b) M(f##_book, f, 305, 28, b)
POLYD(decs, true)
M(lap_tri, tri, 11, 7) M(lap_strip, tri, 1, 31) M(lap_tet, tri, 0, 15)
M(simple_quad, simple, 300, 15, false) M(simple_mixed, simple, 302, 31, false) M(simple_holes, simple, 303, 63, false)
M(simple_penta, simple, 301, 31, false) M(simple_quads, simple, 304, 63, false) M(simple_book, simple, 305, 63, false)
M(simple_tri, simple, 11, 7, true)
M(normals_quad, normals, 300, 15) M(normals_mixed, normals, 302, 28) M(normals_holes, normals, 303, 44) M(normals_book, normals, 305, 28)
M(conn_quad, conn, 300) M(conn_mixed, conn, 302) M(conn_tri, conn, 11)
POLY(frames)
M(connq_tri, connq, 11) M(connq_quad, connq, 300)
