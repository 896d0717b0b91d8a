// Embedded and extrinsic quantities of VertexPositionGeometry, in exact real arithmetic: each cached quantity and each
// immediate method compared with its documented definition.
#include "geo.h"
typedef VertexPositionGeometry G;
// Positions: 0 every coordinate symbolic; 1 only the z coordinates, 2 only x and z symbolic, 3 one coordinate of a single triangle, over a small integer layout.
static VertexData<Vector3> positions(SurfaceMesh& m, int mode) {
  if (mode == 3) { // a single triangle with one symbolic coordinate: thin shapes are within the solver's reach
    VertexData<Vector3> p(m); p[m.vertex(0)] = {0, 0, 0}; p[m.vertex(1)] = {4, 0, 0}; p[m.vertex(2)] = {gs_double("x", 1), 1, 0}; return p;
  }
  static const int X[] = {0, 3, 1, -2, 2, -3, 4, -1, 5}, Y[] = {0, 1, 3, 2, -2, -3, 4, -4, 1};
  VertexData<Vector3> p(m); size_t k = 0;
  for (Vertex v : m.vertices()) {
    Vector3 q{double(X[k % 9]), double(Y[k % 9]), 0.};
    if (mode != 1) q.x = gs_double("x", q.x);
    if (!mode) q.y = gs_double("y", q.y);
    q.z = gs_double("z", .3 * k + .1 * (k % 3)); p[v] = q; k++;
  }
  for (Face f : m.faces()) {
    Halfedge h = f.halfedge(); Vector3 a = p[h.vertex()], b = p[h.next().vertex()], c = p[h.next().next().vertex()];
    gs_assume(norm2(cross(b - a, c - a)) > 0); // no degenerate triangle
  }
  return p;
}
struct Tri { Vector3 a, b, c, n; }; // corners from h and the (unnormalised) normal
static Tri tri(const VertexData<Vector3>& p, Halfedge h) { Tri t; t.a = p[h.vertex()]; h = h.next(); t.b = p[h.vertex()]; h = h.next(); t.c = p[h.vertex()]; t.n = cross(t.b - t.a, t.c - t.a); return t; }
#define SETUP gs_mode_real(); auto m = geoMesh(mi); auto p = positions(*m, mode); G g(*m, p);

static void basic(size_t mi, int mode) {
  SETUP
  g.requireEdgeLengths(); g.requireFaceAreas(); g.requireVertexDualAreas(); g.requireFaceNormals(); g.requireVertexPositions();
  for (Vertex v : m->vertices()) { eq3(g.vertexPositions[v], p[v], "vertex positions are the input positions"); eq3(g.inputVertexPositions[v], p[v], "input positions are kept"); }
  for (Edge e : m->edges()) {
    Vector3 d = p[e.firstVertex()] - p[e.secondVertex()];
    gs_assert(g.edgeLengths[e] >= 0, "edge lengths are nonnegative");
    EQ(g.edgeLengths[e] * g.edgeLengths[e], norm2(d), "edge length is the distance between the end points");
    EQ(g.edgeLength(e), g.edgeLengths[e], "edgeLength(e) equals the cached length");
  }
  for (Halfedge h : m->halfedges()) eq3(g.halfedgeVector(h), p[h.tipVertex()] - p[h.tailVertex()], "halfedgeVector(he) points from tail to tip");
  for (Face f : m->faces()) {
    Tri t = tri(p, f.halfedge()); double A = g.faceAreas[f]; Vector3 N = g.faceNormals[f];
    gs_assert(A > 0, "face areas are positive");
    EQ(4 * A * A, norm2(t.n), "face area is half the cross product of two sides");
    EQ(g.faceArea(f), A, "faceArea(f) equals the cached area");
    eq3(N * (2 * A), t.n, "face normal is the unit vector along the counter-clockwise cross product");
    eq3(g.faceNormal(f), N, "faceNormal(f) equals the cached normal");
  }
  for (Vertex v : m->vertices()) {
    double s = 0; for (Face f : m->faces()) for (Vertex w : f.adjacentVertices()) if (w == v) s += g.faceAreas[f];
    EQ(3 * g.vertexDualAreas[v], s, "vertex dual area is a third of the adjacent face areas");
    EQ(g.vertexDualArea(v), g.vertexDualAreas[v], "vertexDualArea(v) equals the cached dual area");
  }
}
static void corner(size_t mi, int mode) {
  SETUP
  g.requireEdgeLengths(); g.requireFaceAreas(); g.requireCornerAngles(); g.requireVertexAngleSums(); g.requireVertexGaussianCurvatures();
  for (Corner c : m->corners()) {
    Halfedge h = c.halfedge(); Tri t = tri(p, h); double a = g.cornerAngles[c];
    double q = g.edgeLengths[h.edge()], r = g.edgeLengths[h.next().next().edge()];
    EQ(cos(a) * q * r, dot(t.b - t.a, t.c - t.a), "corner angle has the cosine of the angle between its sides");
    EQ(sin(a) * q * r, 2 * g.faceAreas[h.face()], "corner angle lies in (0, pi) and has the triangle's sine");
    EQ(cos(g.cornerAngle(c)), cos(a), "cornerAngle(c) equals the cached angle"); EQ(sin(g.cornerAngle(c)), sin(a), "cornerAngle(c) equals the cached angle");
  }
  for (Vertex v : m->vertices()) {
    double s = 0; for (Corner c : m->corners()) if (c.vertex() == v) s += g.cornerAngles[c];
    EQ(g.vertexAngleSums[v], s, "vertex angle sum adds the corner angles at the vertex");
    EQ(g.vertexGaussianCurvatures[v], v.isBoundary() ? 0. : 2 * PI - s, "vertex Gaussian curvature is the angle defect (0 on the boundary)");
    EQ(g.vertexGaussianCurvature(v), g.vertexGaussianCurvatures[v], "vertexGaussianCurvature(v) equals the cached curvature");
  }
}
static double cotw(const VertexData<Vector3>& p, const FaceData<double>& A, Halfedge h) { Tri t = tri(p, h); return dot(t.a - t.c, t.b - t.c) / (4 * A[h.face()]); }
static void weights(size_t mi, int mode) {
  SETUP
  g.requireHalfedgeCotanWeights(); g.requireEdgeCotanWeights(); g.requireFaceAreas();
  for (Halfedge h : m->halfedges()) {
    double w = h.isInterior() ? cotw(p, g.faceAreas, h) : 0.;
    EQ(g.halfedgeCotanWeights[h], w, "halfedge cotan weight is half the cotangent of the opposite angle, 0 outside");
    EQ(g.halfedgeCotanWeight(h), w, "halfedgeCotanWeight(he) equals the cached weight");
  }
  for (Edge e : m->edges()) {
    double w = 0; for (Halfedge h : m->interiorHalfedges()) if (h.edge() == e) w += cotw(p, g.faceAreas, h);
    EQ(g.edgeCotanWeights[e], w, "edge cotan weight adds the interior halfedges' weights");
    EQ(g.edgeCotanWeight(e), w, "edgeCotanWeight(e) equals the cached weight");
  }
}
// mean curvature normals: half of the cotan Laplacian applied to the positions
static void hnormal(size_t mi, int mode) {
  SETUP
  g.requireVertexDualMeanCurvatureNormals(); g.requireFaceAreas();
  VertexData<Vector3> H(*m, Vector3::zero());
  for (Halfedge h : m->interiorHalfedges()) { double w = cotw(p, g.faceAreas, h) / 2; Vector3 d = p[h.vertex()] - p[h.tipVertex()]; H[h.vertex()] += w * d; H[h.tipVertex()] -= w * d; }
  for (Vertex v : m->vertices()) {
    eq3(g.vertexDualMeanCurvatureNormals[v], H[v], "dual mean curvature normal is half the Laplacian of the positions");
    eq3(g.vertexDualMeanCurvatureNormal(v), H[v], "vertexDualMeanCurvatureNormal(v) equals the cached normal");
  }
}
static void dihedral(size_t mi, int mode) {
  SETUP
  g.requireEdgeDihedralAngles(); g.requireFaceAreas(); g.requireEdgeLengths();
  for (Edge e : m->edges()) {
    double a = g.edgeDihedralAngles[e];
    std::vector<Halfedge> hs; for (Halfedge h : m->interiorHalfedges()) if (h.edge() == e) hs.push_back(h);
    if (hs.size() != 2) { EQ(a, 0., "dihedral angle is 0 on the boundary and on non-manifold edges"); EQ(g.edgeDihedralAngle(e), 0., "edgeDihedralAngle(e) equals the cached angle"); continue; }
    Tri s = tri(p, hs[0]), t = tri(p, hs[1]); double k = 4 * g.faceAreas[hs[0].face()] * g.faceAreas[hs[1].face()];
    EQ(cos(a) * k, dot(s.n, t.n), "dihedral angle is the angle between the face normals");
    // positive where the surface is convex: the second face then lies below the plane of the first
    EQ(sin(a) * k, -dot(s.n, t.c - t.a) * g.edgeLengths[e], "dihedral angle is positive on convex edges, negative on concave ones");
    EQ(g.edgeDihedralAngle(e), a, "edgeDihedralAngle(e) equals the cached angle");
  }
}
static void meancurv(size_t mi, int mode) {
  SETUP
  g.requireVertexMeanCurvatures(); g.requireEdgeDihedralAngles(); g.requireEdgeLengths();
  VertexData<double> H(*m, 0.);
  for (Edge e : m->edges()) { double w = g.edgeLengths[e] * g.edgeDihedralAngles[e] / 4; H[e.firstVertex()] += w; H[e.secondVertex()] += w; }
  for (Vertex v : m->vertices()) {
    EQ(g.vertexMeanCurvatures[v], H[v], "vertex mean curvature is a quarter of length times dihedral angle over its edges");
    EQ(g.vertexMeanCurvature(v), H[v], "vertexMeanCurvature(v) equals the cached curvature");
  }
}
// The curvatures the principal curvatures are computed from are taken as arbitrary; immediate methods: real curvatures, on either side of umbilic.
static void principal(size_t mi) {
  gs_mode_real(); auto m = geoMesh(mi); VertexData<Vector3> p(*m, Vector3{0., 0., 0.}); G g(*m, p);
  g.requireVertexMeanCurvatures(); g.requireVertexGaussianCurvatures(); g.requireVertexDualAreas();
  for (Vertex v : m->vertices()) { g.vertexMeanCurvatures[v] = gs_double("H", 1.); g.vertexGaussianCurvatures[v] = gs_double("K", .5); double A = gs_double("A", 2.); gs_assume(A > 0); g.vertexDualAreas[v] = A; }
  g.requireVertexMinPrincipalCurvatures(); g.requireVertexMaxPrincipalCurvatures();
  for (Vertex v : m->vertices()) {
    double A = g.vertexDualAreas[v], H = g.vertexMeanCurvatures[v], K = g.vertexGaussianCurvatures[v], a = g.vertexMinPrincipalCurvatures[v], b = g.vertexMaxPrincipalCurvatures[v];
    gs_assert(a <= b, "the minimum principal curvature does not exceed the maximum");
    EQ((a + b) * A, 2 * H, "principal curvatures average to the mean curvature per area");
    if (H * H - K * A > 0) EQ(a * b * A, K, "principal curvatures multiply to the Gaussian curvature per area"); else EQ(a, b, "principal curvatures agree where the mean curvature is too small");
  }
}
static void principalnow(size_t mi, int mode, bool one) {
  SETUP
  for (Vertex v : m->vertices()) {
    double A = g.vertexDualArea(v), H = g.vertexMeanCurvature(v) / A, K = g.vertexGaussianCurvature(v) / A;
    if (one) { EQ(g.vertexMinPrincipalCurvature(v), H, "at H^2 = K both immediate principal curvatures are the mean curvature per area"); EQ(g.vertexMaxPrincipalCurvature(v), H, "at H^2 = K both immediate principal curvatures are the mean curvature per area"); continue; } // a lone triangle: H = K = 0
    gs_assume(H * H > K);
    double a = g.vertexMinPrincipalCurvature(v), b = g.vertexMaxPrincipalCurvature(v), d = H * H - K;
    EQ(a + b, 2 * H, "immediate principal curvatures average to the mean curvature per area"); EQ((b - a) * (b - a), 4 * d, "immediate principal curvatures multiply to the Gaussian curvature per area");
    gs_assert(a <= b, "the minimum principal curvature does not exceed the maximum");
  }
}
static void vnormals(size_t mi, int mode) {
  SETUP
  g.requireFaceNormals(); g.requireCornerAngles(); 
  VertexData<Vector3> S(*m, Vector3::zero());
  for (Corner c : m->corners()) S[c.vertex()] += g.cornerAngles[c] * g.faceNormals[c.face()];
  for (Vertex v : m->vertices()) gs_assume(norm2(S[v]) > 0);
  g.requireVertexNormals();
  for (Vertex v : m->vertices()) eq3(g.vertexNormals[v] * norm(S[v]), S[v], "vertex normal is the unit angle-weighted average of the face normals");
}
static void fixShape(const VertexData<Vector3>& p, SurfaceMesh& m) { // the first corner of every face stays on its side of a right angle
  for (Face f : m.faces()) { Tri t = tri(p, f.halfedge()); Vector3 u = t.b - t.a, w = t.c - t.a; double flat = u.x * w.x + u.y * w.y; if (flat >= 0) gs_assume(dot(u, w) > 0); else gs_assume(dot(u, w) < 0); }
}
static void ftangent(size_t mi, int mode, bool shape) {
  SETUP
  if (shape) fixShape(p, *m);
  g.requireFaceNormals(); g.requireFaceTangentBasis();
  if (m->usesImplicitTwin()) g.requireHalfedgeVectorsInFace();
  for (Face f : m->faces()) {
    Vector3 X = g.faceTangentBasis[f][0], Y = g.faceTangentBasis[f][1], N = g.faceNormals[f];
    EQ(norm2(X), 1., "face tangent basis is orthonormal"); EQ(dot(X, N), 0., "face tangent basis is orthogonal to the normal");
    eq3(Y, cross(N, X), "face tangent basis is right-handed");
    if (m->usesImplicitTwin()) for (Halfedge h : f.adjacentHalfedges()) { Vector2 u = g.halfedgeVectorsInFace[h]; eq3(u.x * X + u.y * Y, p[h.tipVertex()] - p[h.vertex()], "halfedge vectors in the face are the edge vectors in its tangent basis"); }
  }
}
// The basis is built from the vertex normals and the tangent-space angles: both are replaced by arbitrary ones.
static void vtangent(size_t mi, int mode, bool any) {
  SETUP
  // any: every normal and angle symbolic, else only those of the second vertex
  g.requireVertexNormals(); bool conn = m->usesImplicitTwin(); size_t k = 0;
  for (Vertex v : m->vertices()) {
    Vector3 n; if (any || k == 1) { n.x = gs_double("nx", .6); n.y = gs_double("ny", 0); n.z = gs_double("nz", .8); gs_assume(norm2(n) == 1); } else { n.x = n.z = 0; n.y = k % 3 ? 1 : -1; }
    g.vertexNormals[v] = n; k++;
  }
  HalfedgeData<Vector2> A(*m);
  if (conn) {
    g.requireHalfedgeVectorsInVertex();
    for (Halfedge h : m->halfedges()) { Vector2 u; u.x = gs_double("hx", 1.); u.y = any ? gs_double("hy", .2) : 1. - 3. * (h.getIndex() % 2); gs_assume(norm2(u) > 0); g.halfedgeVectorsInVertex[h] = u; A[h] = u; }
    for (Halfedge h : m->halfedges()) gs_assume(norm2(cross(g.vertexNormals[h.vertex()], p[h.tipVertex()] - p[h.vertex()])) > 0); // no edge along the normal
  }
  g.requireVertexTangentBasis();
  for (Vertex v : m->vertices()) {
    Vector3 X = g.vertexTangentBasis[v][0], Y = g.vertexTangentBasis[v][1], N = g.vertexNormals[v];
    EQ(norm2(X), 1., "vertex tangent basis is orthonormal"); EQ(dot(X, N), 0., "vertex tangent basis is orthogonal to the normal");
    eq3(Y, cross(N, X), "vertex tangent basis is right-handed");
    if (!conn) continue;
    Vector3 S = Vector3::zero();
    for (Halfedge h : m->halfedges()) if (h.vertex() == v) { Vector3 d = p[h.tipVertex()] - p[v]; d -= N * dot(N, d); Vector2 u = A[h] / norm(A[h]); S += u.x * d - u.y * cross(N, d); }
    eq3(X * norm(S), S, "the vertex X axis averages the tangent edges turned back by their tangent-space angle");
  }
}
static void curvdirs(size_t mi, int mode, bool shape) {
  SETUP
  if (shape) fixShape(p, *m);
  g.requireFacePrincipalCurvatureDirections(); g.requireVertexPrincipalCurvatureDirections(); g.requireEdgeLengths(); g.requireEdgeDihedralAngles(); g.requireHalfedgeVectorsInFace(); g.requireHalfedgeVectorsInVertex();
  for (Face f : m->faces()) {
    Vector2 s{0., 0.}; for (Halfedge h : f.adjacentHalfedges()) { Vector2 u = g.halfedgeVectorsInFace[h]; s += cmul(u, u) * (g.edgeDihedralAngles[h.edge()] / g.edgeLengths[h.edge()]); }
    eq2(g.facePrincipalCurvatureDirections[f] * -4., s, "face curvature direction sums dihedral angle over length times the squared edge vectors");
  }
  for (Vertex v : m->vertices()) {
    Vector2 s{0., 0.}; for (Halfedge h : m->halfedges()) if (h.vertex() == v) { Vector2 u = g.halfedgeVectorsInVertex[h]; s += cmul(u, u) * (g.edgeDihedralAngles[h.edge()] / g.edgeLengths[h.edge()]); }
    eq2(g.vertexPrincipalCurvatureDirections[v] * -4., s, "vertex curvature direction sums dihedral angle over length times the squared edge vectors");
  }
}
#define M(n, f, ...) GS_HARNESS(n) { f(__VA_ARGS__); }
#define BIG(n, f, ...) GS_HARNESS(n) { if (!gs_tier()) return; f(__VA_ARGS__); }
#define ALL(f) M(f##_tri, f, 11, 1) M(f##_strip, f, 1, 1) M(f##_holes, f, 100, 1) M(f##_fan3, f, 3, 1) M(f##_fan4, f, 2, 1) M(f##_tet, f, 0, 1) M(f##_pillow, f, 13, 1) M(f##_fanholes, f, 102, 1)
#define FULL(f) M(f##_trifull, f, 11, 0) M(f##_stripfull, f, 1, 0) M(f##_holesfull, f, 100, 0)
#define TWO(f) M(f##_trixz, f, 11, 2) M(f##_stripxz, f, 1, 2) M(f##_holesxz, f, 100, 2)
#define GEN(f) M(f##_book, f, 200, 1) M(f##_unoriented, f, 201, 1)
ALL(basic) ALL(corner) ALL(weights) ALL(hnormal)
M(corner_one, corner, 11, 3) M(basic_one, basic, 11, 3) M(weights_one, weights, 11, 3)
FULL(basic) FULL(corner) FULL(weights) FULL(hnormal)
GEN(basic) GEN(corner) GEN(weights) GEN(hnormal)
ALL(dihedral) M(dihedral_book, dihedral, 200, 1) ALL(meancurv) M(meancurv_book, meancurv, 200, 1) TWO(dihedral)
M(principal_tri, principal, 11) M(principal_fan3, principal, 3) M(principal_holes, principal, 100) M(principal_book, principal, 200) M(principalnow_tet, principalnow, 0, 1, false) M(principalnow_tri, principalnow, 11, 1, true) M(vnormals_tri, vnormals, 11, 1) M(vnormals_strip, vnormals, 1, 1) M(vnormals_holes, vnormals, 100, 1) M(vnormals_fan3, vnormals, 3, 1) M(vnormals_tet, vnormals, 0, 1) BIG(vnormals_fan4, vnormals, 2, 1) BIG(vnormals_fanholes, vnormals, 102, 1) GEN(vnormals)  M(vtangent_tri, vtangent, 11, 1, false) BIG(vtangent_trifull, vtangent, 11, 1, true) M(vtangent_holes, vtangent, 100, 1, false) M(vtangent_book, vtangent, 200, 1, false) BIG(vtangent_bookfull, vtangent, 200, 1, true) M(vtangent_unoriented, vtangent, 201, 1, false)
M(vnormals_trifull, vnormals, 11, 0) M(vnormals_holesxz, vnormals, 100, 2)
#define SHAPE(f) M(f##_tri, f, 11, 1, true) M(f##_pillow, f, 13, 1, true) M(f##_strip, f, 1, 1, true) M(f##_holes, f, 100, 1, true) M(f##_fan3, f, 3, 1, true) M(f##_fan4, f, 2, 1, true) M(f##_tet, f, 0, 1, true) M(f##_fanholes, f, 102, 1, true)
SHAPE(ftangent) M(ftangent_book, ftangent, 200, 1, false) M(ftangent_unoriented, ftangent, 201, 1, false) M(ftangent_tria, ftangent, 11, 1, false) M(ftangent_pillowa, ftangent, 13, 1, false) SHAPE(curvdirs)
