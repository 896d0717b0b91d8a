// Intrinsic quantities of EdgeLengthGeometry: every edge length symbolic, exact real arithmetic, each quantity compared
// with its documented definition.
#include "geo.h"
typedef EdgeLengthGeometry G;
// lengths of the face of h: a = h, b = next, c = next next
static double sixteenA2(double a, double b, double c) { return 4 * a * a * b * b - (a * a + b * b - c * c) * (a * a + b * b - c * c); }

static void areas(size_t mi) {
  gs_mode_real(); auto m = geoMesh(mi); auto l = symLengths(*m); G g(*m, l);
  g.requireFaceAreas(); g.requireVertexDualAreas(); g.requireShapeLengthScale(); g.requireMeshLengthScale();
  for (Edge e : m->edges()) EQ(g.edgeLengths[e], l[e], "edge lengths are the input lengths");
  double tot = 0, dual = 0, len = 0;
  for (Face f : m->faces()) {
    double a, b, c, A = g.faceAreas[f]; len3(l, f.halfedge(), a, b, c);
    gs_assert(A >= 0, "face areas are nonnegative");
    EQ(16 * A * A, sixteenA2(a, b, c), "face area is the area of the triangle with these lengths");
    EQ(g.faceArea(f), A, "faceArea(f) equals the cached face area");
    EQ(g.faceCircumradius(f) * 4 * A, a * b * c, "circumradius is abc / 4A");
    tot += A;
  }
  for (Vertex v : m->vertices()) {
    double s = 0; for (Face f : m->faces()) for (Vertex w : f.adjacentVertices()) if (w == v) s += g.faceAreas[f];
    EQ(3 * g.vertexDualAreas[v], s, "vertex dual area is a third of the adjacent face areas");
    EQ(g.vertexDualArea(v), g.vertexDualAreas[v], "vertexDualArea(v) equals the cached dual area");
    dual += g.vertexDualAreas[v];
  }
  EQ(dual, tot, "vertex dual areas sum to the surface area");
  gs_assert(g.shapeLengthScale >= 0, "shape length scale is nonnegative");
  EQ(g.shapeLengthScale * g.shapeLengthScale, tot, "shape length scale is the square root of the surface area");
  for (Edge e : m->edges()) len += l[e];
  EQ(g.meshLengthScale * m->nEdges(), len, "mesh length scale is the mean edge length");
}
static void angles(size_t mi) {
  gs_mode_real(); auto m = geoMesh(mi); auto l = symLengths(*m); G g(*m, l);
  g.requireFaceGaussianCurvatures(); g.requireVertexGaussianCurvatures(); g.requireCornerAngles(); g.requireVertexAngleSums(); g.requireCornerScaledAngles(); g.requireFaceAreas();
  for (Corner c : m->corners()) {
    Halfedge h = c.halfedge(); double p, o, q; len3(l, h, p, o, q); double t = g.cornerAngles[c];
    EQ(cos(t) * 2 * p * q, p * p + q * q - o * o, "corner angle obeys the law of cosines");
    EQ(sin(t) * p * q, 2 * g.faceAreas[h.face()], "corner angle lies in (0, pi) and has the triangle's sine");
    EQ(g.cornerAngle(c), t, "cornerAngle(c) equals the cached angle");
  }
  for (Vertex v : m->vertices()) {
    double s = 0; for (Corner c : m->corners()) if (c.vertex() == v) s += g.cornerAngles[c];
    EQ(g.vertexAngleSums[v], s, "vertex angle sum adds the corner angles at the vertex");
    double K = v.isBoundary() ? 0. : 2 * PI - s;
    EQ(g.vertexGaussianCurvatures[v], K, "vertex Gaussian curvature is the angle defect (0 on the boundary)");
    EQ(g.vertexGaussianCurvature(v), K, "vertexGaussianCurvature(v) equals the cached curvature");
    double full = v.isBoundary() ? PI : 2 * PI, sc = 0;
    for (Corner c : m->corners()) if (c.vertex() == v) {
      sc += g.cornerScaledAngles[c];
      EQ(g.cornerScaledAngles[c] * s, full * g.cornerAngles[c], "scaled angles are the corner angles rescaled linearly per vertex");
    }
    EQ(sc, full, "scaled angles around a vertex sum to 2 pi (pi along the boundary)");
  }
  for (Face f : m->faces()) {
    double s = -PI; for (Corner c : m->corners()) if (c.face() == f) s += g.cornerScaledAngles[c];
    EQ(g.faceGaussianCurvatures[f], s, "face Gaussian curvature is the scaled angle sum minus pi");
  }
}
static double cotw(const EdgeData<double>& l, const FaceData<double>& A, Halfedge h) { double a, b, c; len3(l, h, a, b, c); return (b * b + c * c - a * a) / (8 * A[h.face()]); }
static void weights(size_t mi) {
  gs_mode_real(); auto m = geoMesh(mi); auto l = symLengths(*m); G g(*m, l);
  g.requireHalfedgeCotanWeights(); g.requireEdgeCotanWeights(); g.requireFaceAreas();
  for (Halfedge h : m->halfedges()) {
    double w = h.isInterior() ? cotw(l, g.faceAreas, h) : 0.;
    EQ(g.halfedgeCotanWeights[h], w, "halfedge cotan weight is half the cotangent of the opposite angle, 0 outside");
    EQ(g.halfedgeCotanWeight(h), w, "halfedgeCotanWeight(he) equals the cached weight");
  }
  for (Edge e : m->edges()) {
    double w = 0; for (Halfedge h : m->interiorHalfedges()) if (h.edge() == e) w += cotw(l, g.faceAreas, h);
    EQ(g.edgeCotanWeights[e], w, "edge cotan weight adds the interior halfedges' weights");
    EQ(g.edgeCotanWeight(e), w, "edgeCotanWeight(e) equals the cached weight");
  }
}
static void mats(size_t mi) {
  gs_mode_real(); auto m = geoMesh(mi); auto l = symLengths(*m); G g(*m, l); Order o(*m);
  size_t nv = m->nVertices(), ne = m->nEdges(), nf = m->nFaces();
  g.requireCotanLaplacian(); g.requireVertexLumpedMassMatrix(); g.requireVertexGalerkinMassMatrix(); g.requireFaceGalerkinMassMatrix(); g.requireCrouzeixRaviartLaplacian(); g.requireCrouzeixRaviartMassMatrix(); g.requireFaceAreas();
  Acc L, Ml, Mg, Mf, C, Mc;
  double total = 0;
  for (Face f : m->faces()) {
    double A = g.faceAreas[f]; total += A; Mf[{o.f[f.getIndex()], o.f[f.getIndex()]}] += A;
    for (Halfedge h : f.adjacentHalfedges()) {
      double w = cotw(l, g.faceAreas, h);
      size_t i = o.v[h.vertex().getIndex()], j = o.v[h.next().vertex().getIndex()], e = o.e[h.edge().getIndex()], ea = o.e[h.next().edge().getIndex()], eb = o.e[h.next().next().edge().getIndex()];
      L[{i, i}] += w; L[{j, j}] += w; L[{i, j}] -= w; L[{j, i}] -= w;
      Ml[{i, i}] += A / 3; Mg[{i, i}] += A / 6; Mg[{i, j}] += A / 12; Mg[{j, i}] += A / 12;
      Mc[{e, e}] += A / 3;
      C[{ea, ea}] += 4 * w; C[{eb, eb}] += 4 * w; C[{ea, eb}] -= 4 * w; C[{eb, ea}] -= 4 * w;
    }
  }
  same(g.cotanLaplacian, L, nv, nv, "cotan Laplacian is the positive semidefinite cotangent-weight matrix in iteration order");
  same(g.vertexLumpedMassMatrix, Ml, nv, nv, "lumped mass matrix is the diagonal of vertex dual areas");
  same(g.vertexGalerkinMassMatrix, Mg, nv, nv, "Galerkin mass matrix is the piecewise-linear mass matrix");
  same(g.faceGalerkinMassMatrix, Mf, nf, nf, "face mass matrix is the diagonal of face areas");
  same(g.crouzeixRaviartLaplacian, C, ne, ne, "Crouzeix-Raviart Laplacian has 2 cot weights between edges of a face");
  same(g.crouzeixRaviartMassMatrix, Mc, ne, ne, "Crouzeix-Raviart mass matrix has a third of the adjacent areas");
  double sg = 0; for (size_t i = 0; i < nv; i++) for (size_t j = 0; j < nv; j++) sg += at(g.vertexGalerkinMassMatrix, i, j);
  EQ(sg, total, "Galerkin mass entries sum to the surface area");
}
static void dec(size_t mi) {
  gs_mode_real(); auto m = geoMesh(mi); auto l = symLengths(*m); G g(*m, l); Order o(*m);
  size_t nv = m->nVertices(), ne = m->nEdges(), nf = m->nFaces();
  g.requireDECOperators(); g.requireFaceAreas(); g.requireVertexDualAreas(); g.requireEdgeCotanWeights();
  for (Edge e : m->edges()) gs_assume(g.edgeCotanWeights[e] != 0); // the inverse Hodge star needs it
  Acc D0, D1, H0, H1, H2, I0, I1, I2;
  for (Edge e : m->edges()) { size_t i = o.e[e.getIndex()]; D0[{i, o.v[e.halfedge().tipVertex().getIndex()]}] += 1; D0[{i, o.v[e.halfedge().vertex().getIndex()]}] -= 1; H1[{i, i}] = g.edgeCotanWeights[e]; }
  for (Face f : m->faces()) { size_t i = o.f[f.getIndex()]; for (Halfedge h : f.adjacentHalfedges()) D1[{i, o.e[h.edge().getIndex()]}] += along(h) ? 1 : -1; H2[{i, i}] = 1 / g.faceAreas[f]; }
  for (Vertex v : m->vertices()) { size_t i = o.v[v.getIndex()]; H0[{i, i}] = g.vertexDualAreas[v]; }
  same(g.d0, D0, ne, nv, "d0 takes differences along each edge's halfedge"); same(g.d1, D1, nf, ne, "d1 adds edge values with orientation around each face");
  same(g.hodge0, H0, nv, nv, "hodge0 is the diagonal of dual areas"); same(g.hodge1, H1, ne, ne, "hodge1 is the diagonal of cotan weights"); same(g.hodge2, H2, nf, nf, "hodge2 is the diagonal of inverse face areas");
  Eigen::SparseMatrix<double> dd = g.d1 * g.d0; Acc Z; same(dd, Z, nf, nv, "d1 d0 = 0");
  for (auto pr : {std::make_pair(&g.hodge0, &g.hodge0Inverse), std::make_pair(&g.hodge1, &g.hodge1Inverse), std::make_pair(&g.hodge2, &g.hodge2Inverse)}) {
    size_t n = pr.first->rows(); Acc I; gs_assert((size_t)pr.second->rows() == n && (size_t)pr.second->cols() == n, "inverse Hodge stars have the size of the Hodge stars");
    for (size_t i = 0; i < n; i++) for (size_t j = 0; j < n; j++) if (i == j) EQ(at(*pr.first, i, i) * at(*pr.second, i, i), 1., "inverse Hodge stars invert the Hodge stars"); else EQ(at(*pr.second, i, j), 0., "inverse Hodge stars are diagonal");
  }
  g.requireCotanLaplacian();
  Eigen::SparseMatrix<double> W = g.d0.transpose() * g.hodge1 * g.d0;
  for (size_t i = 0; i < nv; i++) for (size_t j = 0; j < nv; j++) EQ(at(W, i, j), at(g.cotanLaplacian, i, j), "cotan Laplacian is d0^T hodge1 d0");
}
static bool nan2(Vector2 v) { return std::isnan(v.x) && std::isnan(v.y); }
static void faceVecs(size_t mi, bool conn, bool right = true) { // right = false: no exact right angles
  gs_mode_real(); auto m = geoMesh(mi); auto l = symLengths(*m);
  if (!right) for (Corner c : m->corners()) { double p, o, q; len3(l, c.halfedge(), p, o, q); gs_assume(p * p + q * q != o * o); } G g(*m, l); Order o(*m);
  g.requireFaceAreas(); g.requireHalfedgeVectorsInFace(); g.requireTransportVectorsAcrossHalfedge();
  auto& V = g.halfedgeVectorsInFace; auto& T = g.transportVectorsAcrossHalfedge;
  if (!conn) {
    for (Face f : m->faces()) {
      Halfedge h = f.halfedge(); double a = l[h.edge()];
      eq2(V[h], {a, 0.}, "face.halfedge() lies along the x axis");
      Vector2 s = V[h] + V[h.next()] + V[h.next().next()]; eq2(s, {0., 0.}, "halfedge vectors close around the face");
      for (int k = 0; k < 3; k++, h = h.next()) { EQ(norm2(V[h]), l[h.edge()] * l[h.edge()], "halfedge vectors have the edge length"); EQ(cross(V[h], V[h.next()]), 2 * g.faceAreas[f], "halfedge vectors turn counter-clockwise around the face"); }
    }
    for (Halfedge h : m->exteriorHalfedges()) gs_assert(nan2(V[h]), "exterior halfedges have no vector in a face");
    return;
  }
  for (Halfedge h : m->halfedges()) {
    if (h.edge().isBoundary()) { gs_assert(nan2(T[h]), "transport across a boundary halfedge is undefined"); continue; }
    EQ(norm2(T[h]), 1., "transport across a halfedge is a rotation");
    eq2(cmul(T[h], V[h]), -V[h.twin()], "transport across a halfedge carries it onto its reversed twin");
  }
  g.requireFaceConnectionLaplacian();
  AccC F; for (Face f : m->faces()) { size_t i = o.f[f.getIndex()]; for (Halfedge h : f.adjacentHalfedges()) if (!h.edge().isBoundary()) { F[{i, i}] += 1.; size_t j = o.f[h.twin().face().getIndex()]; F[{i, j}] -= (std::complex<double>)T[h.twin()]; } }
  same(g.faceConnectionLaplacian, F, m->nFaces(), m->nFaces(), "face connection Laplacian compares a face with its transported neighbours");
}
static void vertVecs(size_t mi, bool conn) {
  gs_mode_real(); auto m = geoMesh(mi); auto l = symLengths(*m); G g(*m, l); Order o(*m);
  g.requireCornerScaledAngles(); g.requireHalfedgeVectorsInVertex(); auto& V = g.halfedgeVectorsInVertex;
  if (!conn) {
    for (Vertex v : m->vertices()) {
      eq2(V[v.halfedge()], {l[v.halfedge().edge()], 0.}, "vertex.halfedge() lies along the x axis");
      for (Halfedge h : v.outgoingHalfedges()) {
        EQ(norm2(V[h]), l[h.edge()] * l[h.edge()], "halfedge vectors have the edge length");
        if (!h.isInterior()) continue;
        Halfedge n = h.next().next().twin(); double t = g.cornerScaledAngles[h.corner()];
        eq2(V[n] * l[h.edge()], cmul(V[h], Vector2{cos(t), sin(t)}) * l[n.edge()], "consecutive halfedges differ by the scaled corner angle");
      }
    }
    return;
  }
  g.requireTransportVectorsAlongHalfedge(); g.requireVertexConnectionLaplacian(); g.requireEdgeCotanWeights(); auto& T = g.transportVectorsAlongHalfedge;
  AccC L;
  for (Halfedge h : m->halfedges()) {
    EQ(norm2(T[h]), 1., "transport along a halfedge is a rotation");
    eq2(cmul(T[h], V[h]), -V[h.twin()], "transport along a halfedge carries it onto its reversed twin");
    size_t i = o.v[h.vertex().getIndex()], j = o.v[h.tipVertex().getIndex()]; double w = g.edgeCotanWeights[h.edge()];
    L[{i, i}] += w; L[{i, j}] -= w * (std::complex<double>)T[h.twin()];
  }
  same(g.vertexConnectionLaplacian, L, m->nVertices(), m->nVertices(), "vertex connection Laplacian compares a vertex with its transported neighbours");
}
static void crconn(size_t mi) {
  gs_mode_real(); auto m = geoMesh(mi); auto l = symLengths(*m); G g(*m, l); Order o(*m);
  g.requireFaceAreas(); g.requireHalfedgeCotanWeights(); g.requireCrouzeixRaviartConnectionLaplacian();
  // tangent frame of an edge: its halfedge points along x. In a face, direction of h.next() relative to h is the exterior angle.
  AccC C;
  for (Face f : m->faces()) for (Halfedge h : f.adjacentHalfedges()) {
    Halfedge a = h.next(), b = a.next(); double la, lb, lo; lo = l[h.edge()]; la = l[a.edge()]; lb = l[b.edge()];
    double w = 4 * g.halfedgeCotanWeights[h];
    std::complex<double> e(-(la * la + lb * lb - lo * lo) / (2 * la * lb), 2 * g.faceAreas[f] / (la * lb)); // b = a rotated by e
    if (along(a) != along(b)) e = -e;
    size_t i = o.e[a.edge().getIndex()], j = o.e[b.edge().getIndex()];
    C[{i, i}] += w; C[{j, j}] += w; C[{i, j}] -= w * e; C[{j, i}] -= w * std::conj(e);
  }
  same(g.crouzeixRaviartConnectionLaplacian, C, m->nEdges(), m->nEdges(), "Crouzeix-Raviart connection Laplacian transports between edge frames");
}
#define M(n, f, ...) GS_HARNESS(n) { f(__VA_ARGS__); }
#define BIG(n, f, ...) GS_HARNESS(n) { if (!gs_tier()) return; f(__VA_ARGS__); }
#define ALL(f) M(f##_tri, f, 11) M(f##_strip, f, 1) M(f##_holes, f, 100) M(f##_fan3, f, 3) M(f##_fan4, f, 2) M(f##_tet, f, 0) M(f##_pillow, f, 13) M(f##_fanholes, f, 102) \
  BIG(f##_octa, f, 4) BIG(f##_annulus, f, 7) BIG(f##_grid, f, 12) BIG(f##_torus, f, 8)
#define GEN(f) M(f##_book, f, 200) M(f##_unoriented, f, 201)
ALL(areas) ALL(angles) ALL(weights) ALL(mats) ALL(dec) ALL(crconn)
GEN(areas) GEN(angles) GEN(weights) GEN(mats) GEN(dec) GEN(crconn)
#define FV(n, b) M(fvec_##n, faceVecs, b, false) M(fconn_##n, faceVecs, b, true)
FV(tri, 11) FV(strip, 1) FV(holes, 100) FV(pillow, 13) FV(fan3, 3) BIG(fvec_fan4, faceVecs, 2, false) BIG(fconn_fan4, faceVecs, 2, true) BIG(fvec_tet, faceVecs, 0, false, false) BIG(fconn_tet, faceVecs, 0, true, false)
#define VV(n, b) M(vvec_##n, vertVecs, b, false) M(vconn_##n, vertVecs, b, true)
VV(tri, 11) VV(strip, 1) VV(holes, 100) VV(pillow, 13) VV(fan3, 3) VV(fan4, 2) VV(fanholes, 102) VV(tet, 0) BIG(vvec_octa, vertVecs, 4, false) BIG(vconn_octa, vertVecs, 4, true) BIG(vvec_grid, vertVecs, 12, false) BIG(vconn_grid, vertVecs, 12, true)
