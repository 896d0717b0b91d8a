// The cached quantities of geometry objects: whatever was required, released, purged, moved or mutated before, a required
// quantity equals the one of a geometry object freshly built from the same input (exact real arithmetic).
#include "geo.h"
namespace geometrycentral { namespace surface { Eigen::VectorXd simplePolygonVirtualVertex(const Eigen::MatrixXd& poly) { Eigen::VectorXd w(poly.rows()); w << .5, .25, .25; return w; } } }
#define INTRINSIC_QUANTITIES(Q, QS) \
  Q(VertexIndices, vertexIndices) Q(InteriorVertexIndices, interiorVertexIndices) Q(EdgeIndices, edgeIndices) Q(HalfedgeIndices, halfedgeIndices) \
  Q(CornerIndices, cornerIndices) Q(FaceIndices, faceIndices) Q(BoundaryLoopIndices, boundaryLoopIndices) Q(EdgeLengths, edgeLengths) \
  Q(FaceAreas, faceAreas) Q(VertexDualAreas, vertexDualAreas) Q(CornerAngles, cornerAngles) Q(VertexAngleSums, vertexAngleSums) \
  Q(CornerScaledAngles, cornerScaledAngles) Q(VertexGaussianCurvatures, vertexGaussianCurvatures) Q(FaceGaussianCurvatures, faceGaussianCurvatures) Q(HalfedgeCotanWeights, halfedgeCotanWeights) \
  Q(EdgeCotanWeights, edgeCotanWeights) Q(ShapeLengthScale, shapeLengthScale) Q(MeshLengthScale, meshLengthScale) Q(HalfedgeVectorsInFace, halfedgeVectorsInFace) \
  Q(TransportVectorsAcrossHalfedge, transportVectorsAcrossHalfedge) Q(HalfedgeVectorsInVertex, halfedgeVectorsInVertex) Q(TransportVectorsAlongHalfedge, transportVectorsAlongHalfedge) Q(CotanLaplacian, cotanLaplacian) \
  Q(VertexLumpedMassMatrix, vertexLumpedMassMatrix) Q(VertexGalerkinMassMatrix, vertexGalerkinMassMatrix) Q(VertexConnectionLaplacian, vertexConnectionLaplacian) Q(FaceGalerkinMassMatrix, faceGalerkinMassMatrix) \
  Q(FaceConnectionLaplacian, faceConnectionLaplacian) Q(CrouzeixRaviartLaplacian, crouzeixRaviartLaplacian) Q(CrouzeixRaviartMassMatrix, crouzeixRaviartMassMatrix) Q(CrouzeixRaviartConnectionLaplacian, crouzeixRaviartConnectionLaplacian) \
  QS(DECOperators, put(o, g.hodge0); put(o, g.hodge0Inverse); put(o, g.hodge1); put(o, g.hodge1Inverse); put(o, g.hodge2); put(o, g.hodge2Inverse); put(o, g.d0); put(o, g.d1))
#define EMBEDDED_QUANTITIES(Q, QS) \
  Q(EdgeDihedralAngles, edgeDihedralAngles) Q(VertexMeanCurvatures, vertexMeanCurvatures) Q(VertexMinPrincipalCurvatures, vertexMinPrincipalCurvatures) Q(VertexMaxPrincipalCurvatures, vertexMaxPrincipalCurvatures) \
  Q(VertexPrincipalCurvatureDirections, vertexPrincipalCurvatureDirections) Q(FacePrincipalCurvatureDirections, facePrincipalCurvatureDirections) Q(VertexPositions, vertexPositions) Q(FaceNormals, faceNormals) \
  Q(VertexNormals, vertexNormals) Q(FaceTangentBasis, faceTangentBasis) Q(VertexTangentBasis, vertexTangentBasis) Q(VertexDualMeanCurvatureNormals, vertexDualMeanCurvatureNormals) \
  Q(SimplePolygonLaplacian, simplePolygonLaplacian) Q(SimplePolygonVertexGalerkinMassMatrix, simplePolygonVertexGalerkinMassMatrix) Q(SimplePolygonVertexLumpedMassMatrix, simplePolygonVertexLumpedMassMatrix) Q(PolygonLaplacian, polygonLaplacian) \
  Q(PolygonGradientMatrix, polygonGradientMatrix) Q(PolygonDivergenceMatrix, polygonDivergenceMatrix) Q(PolygonVertexLumpedMassMatrix, polygonVertexLumpedMassMatrix) Q(PolygonVertexConnectionLaplacian, polygonVertexConnectionLaplacian) \
  QS(PolygonDECOperators, put(o, g.polygonHodge0); put(o, g.polygonHodge0Inverse); put(o, g.polygonHodge1); put(o, g.polygonHodge2); put(o, g.polygonHodge2Inverse); put(o, g.polygonD0); put(o, g.polygonD1))

struct Dump { std::vector<double> d; std::vector<size_t> n; };
static void put(Dump& o, double x) { o.d.push_back(x); }
static void put(Dump& o, size_t x) { o.n.push_back(x); }
static void put(Dump& o, Vector2 x) { put(o, x.x); put(o, x.y); }
static void put(Dump& o, Vector3 x) { put(o, x.x); put(o, x.y); put(o, x.z); }
static void put(Dump& o, const std::array<Vector3, 2>& x) { put(o, x[0]); put(o, x[1]); }
static void put(Dump& o, double x, double y) { put(o, x); put(o, y); }
static void put(Dump& o, std::complex<double> x) { put(o, x.real(), x.imag()); }
template <typename T> static void put(Dump& o, const Eigen::SparseMatrix<T>& M) { put(o, (size_t)M.rows()); put(o, (size_t)M.cols()); for (int i = 0; i < M.rows(); i++) for (int j = 0; j < M.cols(); j++) put(o, M.coeff(i, j)); }
template <typename E, typename T> static void put(Dump& o, const MeshData<E, T>& a) { SurfaceMesh* m = a.getMesh(); gs_assert(m != nullptr, "a required quantity is on the mesh"); for (E e : iterateElements<E>(m)) put(o, a[e]); }

struct Quantity { const char* name; std::function<void()> req, unreq; std::function<Dump()> get; };
#define Q_(N, member) QS_(N, put(o, g.member))
#define QS_(N, ...) qs.push_back({#N, [&g] { g.require##N(); }, [&g] { g.unrequire##N(); }, [&g] { Dump o; __VA_ARGS__; return o; }});
static std::vector<Quantity> quantities(EdgeLengthGeometry& g) { std::vector<Quantity> qs; INTRINSIC_QUANTITIES(Q_, QS_) return qs; }
static std::vector<Quantity> quantities(VertexPositionGeometry& g) { std::vector<Quantity> qs; INTRINSIC_QUANTITIES(Q_, QS_) EMBEDDED_QUANTITIES(Q_, QS_) return qs; }

static double coord(size_t k, size_t c) { static const int P[3][9] = {{0, 3, 1, -2, 2, -3, 4, -1, 5}, {0, 1, 3, 2, -2, -3, 4, -4, 1}, {0, 1, 0, 2, 1, 3, 0, 1, 2}}; return P[c][k % 9]; }
template <typename G> struct Input;
template <> struct Input<VertexPositionGeometry> {
  typedef VertexData<Vector3> D;
  static D make(SurfaceMesh& m) { D p(m); size_t k = 0; for (Vertex v : m.vertices()) { p[v] = {coord(k, 0), coord(k, 1), coord(k, 2)}; k++; } return p; }
  static D& of(VertexPositionGeometry& g) { return g.inputVertexPositions; }
  static void move(VertexPositionGeometry& g, SurfaceMesh& m) { size_t k = 0; for (Vertex v : m.vertices()) if (k++ == 2) g.inputVertexPositions[v].z += .5; }
  static void mutate(VertexPositionGeometry& g, ManifoldSurfaceMesh& m) { Edge e; for (Edge x : m.edges()) { e = x; break; } Vector3 a = g.inputVertexPositions[e.firstVertex()], b = g.inputVertexPositions[e.secondVertex()]; Vertex v = m.splitEdgeTriangular(e).vertex(); g.inputVertexPositions[v] = (a + b) / 2; }
};
template <> struct Input<EdgeLengthGeometry> {
  typedef EdgeData<double> D;
  static D make(SurfaceMesh& m) { D l(m); size_t k = 0; for (Edge e : m.edges()) { l[e] = 4 + k % 3; k++; } return l; }
  static D& of(EdgeLengthGeometry& g) { return g.inputEdgeLengths; }
  static void move(EdgeLengthGeometry& g, SurfaceMesh& m) { size_t k = 0; for (Edge e : m.edges()) if (k++ == 2) { double l = gs_double("len2", 5.5); gs_assume(l > 5); gs_assume(l < 6); g.inputEdgeLengths[e] = l; } }
  static void mutate(EdgeLengthGeometry& g, ManifoldSurfaceMesh& m) { Edge e; for (Edge x : m.edges()) { e = x; break; } Vertex v = m.splitEdgeTriangular(e).vertex(); for (Edge x : v.adjacentEdges()) g.inputEdgeLengths[x] = 4; }
};
static void equal(const Dump& a, const Dump& b) {
  gs_assert(a.n == b.n && a.d.size() == b.d.size(), "a required quantity equals that of a fresh geometry");
  for (size_t i = 0; i < a.d.size(); i++) { if (a.d[i] != a.d[i] && b.d[i] != b.d[i]) continue; EQ(a.d[i], b.d[i], "a required quantity equals that of a fresh geometry"); }
}
template <typename G> static Dump fresh(G& g, SurfaceMesh& m, size_t q) { G r(m, Input<G>::of(g)); auto qs = quantities(r); qs[q].req(); return qs[q].get(); }
#define SETUP(G) gs_mode_real(); auto m = geoMesh(mi); auto in = Input<G>::make(*m); G g(*m, in); auto qs = quantities(g);

// Everything was computed and all but one quantity released; then the input changes: the required one is up to date, a later
// required one too.
template <typename G> static void stale(size_t mi, int change) {
  SETUP(G)
  size_t q = gs_choose("q", qs.size()); bool purge = gs_choose("purge", 2);
  for (auto& x : qs) x.req();
  for (size_t i = 0; i < qs.size(); i++) if (i != q) qs[i].unreq();
  if (purge) { g.purgeQuantities(); equal(qs[q].get(), fresh(g, *m, q)); }
  if (change) Input<G>::mutate(g, static_cast<ManifoldSurfaceMesh&>(*m)); else Input<G>::move(g, *m);
  g.refreshQuantities();
  equal(qs[q].get(), fresh(g, *m, q));
  if (change) return;
  size_t r = (q * 7 + 3) % qs.size(); qs[r].req(); equal(qs[r].get(), fresh(g, *m, r)); equal(qs[q].get(), fresh(g, *m, q));
}
// Any history of a few calls on two quantities.
template <typename G> static void history(size_t mi, std::vector<const char*> names, int steps) {
  SETUP(G)
  std::vector<size_t> id; std::vector<int> n; for (auto s : names) for (size_t i = 0; i < qs.size(); i++) if (std::string(qs[i].name) == s) { id.push_back(i); n.push_back(0); }
  gs_assert(id.size() == names.size(), "harness: quantity not found");
  for (int s = 0; s < steps; s++) {
    size_t k = id.size(), op = gs_choose("op", 2 * k + 3);
    if (op < k) { qs[id[op]].req(); n[op]++; }
    else if (op < 2 * k) {
      op -= k; bool threw = false; try { qs[id[op]].unreq(); } catch (std::logic_error&) { threw = true; }
      gs_assert(threw == !n[op], "releasing a quantity throws exactly when it is not required"); if (n[op]) n[op]--;
    } else if (op == 2 * k) g.purgeQuantities();
    else if (op == 2 * k + 1) { Input<G>::move(g, *m); g.refreshQuantities(); }
    else { Input<G>::mutate(g, static_cast<ManifoldSurfaceMesh&>(*m)); g.refreshQuantities(); }
    for (size_t i = 0; i < k; i++) if (n[i]) equal(qs[id[i]].get(), fresh(g, *m, id[i]));
  }
}
// Copies are independent of the original and equal to it, on the same mesh or on a copy of it; require counts start afresh.
template <typename G> static void copies(size_t mi) {
  SETUP(G)
  static const size_t N = qs.size(); size_t q = gs_choose("q", N); qs[q].req();
  auto c = g.copy(); auto m2 = m->copyToSurfaceMesh(); auto r = g.reinterpretTo(*m2);
  gs_assert(&c->mesh == m.get() && &r->mesh == m2.get(), "a copied geometry is on the requested mesh");
  Dump before = qs[q].get(); Input<G>::move(g, *m); g.refreshQuantities();
  auto qc = quantities(*c), qr = quantities(*r); bool threw = false;
  if (std::string(qs[q].name) != "EdgeLengths" && std::string(qs[q].name) != "VertexPositions") { try { qc[q].unreq(); } catch (std::logic_error&) { threw = true; } gs_assert(threw, "require counts are not copied"); }
  qc[q].req(); qr[q].req(); equal(qc[q].get(), before); equal(qr[q].get(), before);
}
#define M(n, f, G, ...) GS_HARNESS(n) { f<G>(__VA_ARGS__); }
typedef VertexPositionGeometry V; typedef EdgeLengthGeometry E;
M(stale_move, stale, V, 100, 0) M(stale_mutate, stale, V, 100, 1) M(estale_move, stale, E, 100, 0) M(estale_mutate, stale, E, 100, 1)
M(copies_embedded, copies, V, 100) M(copies_intrinsic, copies, E, 100)
M(history_normals, history, V, 100, {"FaceNormals", "VertexNormals"}, gs_tier() ? 5 : 4)
M(history_dec, history, E, 100, {"FaceAreas", "DECOperators"}, gs_tier() ? 5 : 3)
M(history_lap, history, V, 100, {"EdgeCotanWeights", "CotanLaplacian"}, gs_tier() ? 5 : 3)
GS_HARNESS(matrix_ctor) {
  gs_mode_real(); auto m = geoMesh(100); Eigen::MatrixXd P(m->nVertices(), 3); for (int i = 0; i < P.rows(); i++) for (int j = 0; j < 3; j++) P(i, j) = gs_double("p", coord(i, j));
  VertexPositionGeometry g(*m, P); size_t k = 0; for (Vertex v : m->vertices()) { eq3(g.vertexPositions[v], Vector3{P(k, 0), P(k, 1), P(k, 2)}, "row k of the matrix is the position of the k-th vertex"); k++; }
  size_t extra = gs_choose("extra", 3); if (!extra) return;
  Eigen::MatrixXd W = Eigen::MatrixXd::Zero(m->nVertices() + (extra == 1), extra == 2 ? 2 : 3); bool threw = false; try { VertexPositionGeometry h(*m, W); } catch (std::exception&) { threw = true; } gs_assert(threw, "a position matrix of the wrong size is refused");
}
