// Points and vectors in barycentric coordinates on a triangle mesh, exact reals.
#include "geo.h"
#include "geometrycentral/surface/surface_point.h"
#include "geometrycentral/surface/barycentric_vector.h"
#include "geometrycentral/surface/barycentric_coordinate_helpers.h"
typedef SurfacePoint SP; typedef BarycentricVector BV; typedef SurfacePointType PT; typedef BarycentricVectorType VT;
template <typename F> static bool throws(F f) { try { f(); } catch (std::exception&) { return true; } return false; }
static double num(const char* n, double d) { return gs_double(n, d); }
struct M { MeshP m; std::vector<Vertex> v; std::vector<Edge> e; std::vector<Face> f; M(size_t i) : m(geoMesh(i)) { for (Vertex x : m->vertices()) v.push_back(x); for (Edge x : m->edges()) e.push_back(x); for (Face x : m->faces()) f.push_back(x); } };
static std::array<Vertex, 3> corners(Face f) { Halfedge h = f.halfedge(); return {{h.vertex(), h.next().vertex(), h.next().next().vertex()}}; }
static bool has(Face f, Vertex v) { for (Vertex x : corners(f)) if (x == v) return true; return false; }
static bool has(Face f, Edge e) { Halfedge h = f.halfedge(); return h.edge() == e || h.next().edge() == e || h.next().next().edge() == e; }
static bool has(Edge e, Vertex v) { return e.firstVertex() == v || e.secondVertex() == v; }
static Vertex tail(Edge e) { return e.halfedge().vertex(); }
static Vertex tip(Edge e) { return e.halfedge().next().vertex(); }
static bool on(const SP& p, Face f) { return p.type == PT::Vertex ? has(f, p.vertex) : p.type == PT::Edge ? has(f, p.edge) : p.face == f; }
static bool on(const SP& p, Edge e) { return p.type == PT::Vertex ? has(e, p.vertex) : p.type == PT::Edge && p.edge == e; }
static bool on(const BV& p, Face f) { return p.type == VT::Vertex ? has(f, p.vertex) : p.type == VT::Edge ? has(f, p.edge) : p.face == f; }
static bool on(const BV& p, Edge e) { return p.type == VT::Vertex ? has(e, p.vertex) : p.type == VT::Edge && p.edge == e; }
// weight of every vertex
typedef std::vector<double> W;
static W weights(M& M_, const SP& p) {
  W w(M_.m->nVerticesCapacity(), 0.);
  if (p.type == PT::Vertex) w[p.vertex.getIndex()] = 1; else if (p.type == PT::Edge) { w[tail(p.edge).getIndex()] = 1 - p.tEdge; w[tip(p.edge).getIndex()] = p.tEdge; }
  else { auto c = corners(p.face); for (int i = 0; i < 3; i++) w[c[i].getIndex()] = p.faceCoords[i]; }
  return w;
}
static W weights(M& M_, const BV& p) {
  W w(M_.m->nVerticesCapacity(), 0.);
  if (p.type == VT::Edge) { w[tail(p.edge).getIndex()] = p.edgeCoords.x; w[tip(p.edge).getIndex()] = p.edgeCoords.y; } else if (p.type == VT::Face) { auto c = corners(p.face); for (int i = 0; i < 3; i++) w[c[i].getIndex()] = p.faceCoords[i]; }
  return w;
}
static void same(const W& a, const W& b, const char* w, double s = 1) { for (size_t i = 0; i < a.size(); i++) EQ(a[i], s * b[i], w); }
static SP pick(M& m, const char* n) {
  size_t k = gs_choose(n, m.v.size() + m.e.size() + m.f.size()); if (k < m.v.size()) return SP(m.v[k]); k -= m.v.size();
  if (k < m.e.size()) { double t = num("t", .25); return SP(m.e[k], t); } k -= m.e.size();
  double x = num("x", .25), y = num("y", .5); return SP(m.f[k], Vector3{x, y, 1 - x - y});
}
static BV pickv(M& m, const char* n) {
  size_t k = gs_choose(n, m.v.size() + m.e.size() + m.f.size()); if (k < m.v.size()) return BV(m.v[k]); k -= m.v.size();
  if (k < m.e.size()) { double t = num("t", .25); return BV(m.e[k], Vector2{t, -t}); } k -= m.e.size();
  double x = num("x", .25), y = num("y", .5); return BV(m.f[k], Vector3{x, y, 0 - x - y});
}
static size_t gm(const char* n) { static const size_t q[] = {1, 3, 100}, t[] = {0, 1, 3, 100, 102, 10, 7}; return gs_tier() ? t[gs_choose(n, 7)] : q[gs_choose(n, 3)]; }
GS_HARNESS(convert) {
  gs_mode_real(); M m(gm("mesh")); SP p = pick(m, "p"); W w = weights(m, p);
  VertexData<double> d(*m.m); for (Vertex v : m.v) d[v] = num("d", 1. + v.getIndex() * v.getIndex());
  double val = 0; for (Vertex v : m.v) val += d[v] * w[v.getIndex()]; EQ(p.interpolate(d), val, "interpolation weighs the values at the vertices by the coordinates");
  SP q = p.inSomeFace(); gs_assert(q.type == PT::Face && on(p, q.face), "inSomeFace gives a point of a face touching the element"); same(weights(m, q), w, "inSomeFace gives the same point");
  for (Face f : m.f) { SP r; bool t = throws([&] { r = p.inFace(f); }); gs_assert(t == !on(p, f), "inFace throws exactly when the point is not on the face"); if (!t) { gs_assert(r.type == PT::Face && r.face == f, "inFace gives a point of that face"); same(weights(m, r), w, "inFace gives the same point"); } }
}
GS_HARNESS(onedge) { gs_mode_real(); M m(gm("mesh")); SP p = pick(m, "p"); W w = weights(m, p); for (Edge e : m.e) { SP r; bool t = throws([&] { r = p.inEdge(e); }); gs_assert(t == !on(p, e), "inEdge throws exactly when the point is not on the edge"); if (!t) { gs_assert(r.type == PT::Edge && r.edge == e, "inEdge gives a point of that edge"); same(weights(m, r), w, "inEdge gives the same point"); } } }
GS_HARNESS(fromhalfedge) {
  gs_mode_real(); M m(gm("mesh")); double t = num("t", .25);
  for (Edge e : m.e) for (Halfedge h : e.adjacentHalfedges()) { SP p(h, t); W w(m.m->nVerticesCapacity(), 0.); w[h.vertex().getIndex()] = 1 - t; w[h.next().vertex().getIndex()] = t; gs_assert(p.type == PT::Edge && p.edge == e, "a point on a halfedge lies on its edge"); same(weights(m, p), w, "a point on a halfedge is measured from its tail"); }
}
GS_HARNESS(nearest) { gs_mode_real(); M m(gm("mesh")); SP p = pick(m, "p"); W w = weights(m, p); Vertex v = p.nearestVertex(); for (Vertex x : m.v) gs_assert(w[v.getIndex()] >= w[x.getIndex()] || !(on(p, m.v[0].halfedge().face()) || true), "nearestVertex has the largest coordinate"); }
GS_HARNESS(equality) {
  M m(1); SP p = pick(m, "p"), q = pick(m, "q"); bool eq = p.type == q.type && (p.type == PT::Vertex ? p.vertex == q.vertex : p.type == PT::Edge ? p.edge == q.edge && p.tEdge == q.tEdge : p.face == q.face && p.faceCoords.x == q.faceCoords.x && p.faceCoords.y == q.faceCoords.y && p.faceCoords.z == q.faceCoords.z);
  gs_assert((p == q) == eq, "points are equal exactly when element and coordinates are"); gs_assert((p != q) == !eq, "!= is the negation of =="); bool el = p.type == q.type && (p.type == PT::Vertex ? p.vertex == q.vertex : p.type == PT::Edge ? p.edge == q.edge : p.face == q.face); gs_assert(onSameElement(p, q) == el, "onSameElement compares the elements");
}
GS_HARNESS(valid) { // bit-precise, including infinities and NaNs
  M m(11); size_t k = gs_choose("k", 5); double a = num("a", .25), E = 1e-4;
  if (k == 0) gs_assert(throws([&] { SP(m.e[0], a).validate(); }) == !(std::isfinite(a) && a >= -E && a <= 1. + E), "an edge point is valid exactly when its parameter is finite and between 0 and 1");
  if (k == 1) { gs_assert(!throws([&] { SP(m.v[0]).validate(); }), "a vertex point is valid"); gs_assert(throws([&] { SP().validate(); }) && throws([&] { SP(Edge(), .5).validate(); }) && throws([&] { SP(Face(), Vector3{.5, .5, 0}).validate(); }), "a point on a null element is invalid"); }
  if (k >= 2) { Vector3 c{.25, .25, .25}; c[k - 2] = a; gs_assert(throws([&] { SP(m.f[0], c).validate(); }) == !(std::isfinite(a) && a >= -E && a + .5 <= 1. + E), "a face point is valid exactly when its coordinates are finite, nonnegative and sum to at most 1"); }
}
GS_HARNESS(validsum) { gs_mode_real(); M m(11); double a = num("a", .25), b = num("b", .5), c = num("c", .25), E = 1e-4; gs_assert(throws([&] { SP(m.f[0], Vector3{a, b, c}).validate(); }) == !(a >= -E && b >= -E && c >= -E && a + b + c <= 1. + E), "a face point is valid exactly when its coordinates are nonnegative and sum to at most 1"); }
GS_HARNESS(validvector) {
  gs_mode_real(); M m(11); double a = num("a", .25), b = num("b", .5), c = num("c", -.75), E = 1e-5; double s = a + b + c, t = a + b;
  gs_assert(throws([&] { BV(m.f[0], Vector3{a, b, c}).validate(); }) == !(s <= E && s >= -E), "a face vector is valid exactly when its coordinates sum to zero"); gs_assert(throws([&] { BV(m.e[0], Vector2{a, b}).validate(); }) == !(t <= E && t >= -E), "an edge vector is valid exactly when its coordinates sum to zero");
  gs_assert(throws([&] { BV(Vertex()).validate(); }) && throws([&] { BV(Face(), Vector3{0, 0, 0}).validate(); }) && throws([&] { BV(Edge(), Vector2{0, 0}).validate(); }) && !throws([&] { BV(m.v[0]).validate(); }), "a vector is valid only on an element");
}
GS_HARNESS(shared) {
  gs_mode_real(); M m(gm("mesh")); SP p = pick(m, "p"), q = pick(m, "q");
  bool anyf = false, anye = false; for (Face f : m.f) anyf |= on(p, f) && on(q, f); for (Edge e : m.e) anye |= on(p, e) && on(q, e);
  Face f = sharedFace(p, q); if (f == Face()) gs_assert(!anyf, "sharedFace finds a face holding both points if there is one"); else gs_assert(on(p, f) && on(q, f), "the shared face holds both points");
  bool same = onSameElement(p, q) && p.type == PT::Vertex; Edge e = sharedEdge(p, q); if (e == Edge()) gs_assert(!anye || same, "sharedEdge finds an edge holding both points if there is one"); else gs_assert(on(p, e) && on(q, e), "the shared edge holds both points");
  if (!same && !(p.type == PT::Vertex && q.type == PT::Vertex)) gs_assert(checkAdjacent(p, q) == anyf, "points are adjacent exactly when a face holds both"); else if (!same) gs_assert(checkAdjacent(p, q) == anye, "vertices are adjacent exactly when an edge joins them");
  gs_assert(checkAdjacent(p, q) == checkAdjacent(q, p), "adjacency is symmetric");
}
// -------------------------------------------------------------- vectors
GS_HARNESS(difference) {
  gs_mode_real(); M m(gm("mesh")); SP p = pick(m, "p"), q = pick(m, "q"); bool anyf = false; for (Face f : m.f) anyf |= on(p, f) && on(q, f);
  BV d; bool t = throws([&] { d = BV(p, q); }); gs_assert(t == !anyf, "the difference of two points exists exactly when a face holds both"); if (t) return;
  W a = weights(m, p), b = weights(m, q), c = weights(m, d); for (size_t i = 0; i < a.size(); i++) EQ(c[i], b[i] - a[i], "the vector between two points is the difference of their coordinates");
}
GS_HARNESS(edgevector) { gs_mode_real(); M m(gm("mesh")); for (Face f : m.f) for (Edge e : m.e) if (has(f, e)) for (Halfedge h : e.adjacentHalfedges()) { BV d(h, f); gs_assert(d.type == VT::Face && d.face == f, "a halfedge as a vector of a face belongs to it"); W w(m.m->nVerticesCapacity(), 0.); w[h.vertex().getIndex()] -= 1; w[h.next().vertex().getIndex()] += 1; same(weights(m, d), w, "a halfedge as a vector points from its tail to its tip"); } }
GS_HARNESS(convertv) {
  gs_mode_real(); M m(gm("mesh")); BV p = pickv(m, "p"); W w = weights(m, p); BV q = p.inSomeFace(); gs_assert(q.type == VT::Face && on(p, q.face), "inSomeFace gives a vector of a face touching the element"); same(weights(m, q), w, "inSomeFace gives the same vector");
  for (Face f : m.f) { BV r; bool t = throws([&] { r = p.inFace(f); }); gs_assert(t == !on(p, f), "inFace throws exactly when the vector is not on the face"); if (!t) { gs_assert(r.type == VT::Face && r.face == f, "inFace gives a vector of that face"); same(weights(m, r), w, "inFace gives the same vector"); } }
  for (Edge e : m.e) { BV r; bool t = throws([&] { r = p.inEdge(e); }); gs_assert(t == !on(p, e), "inEdge throws exactly when the vector is not on the edge"); if (!t) { gs_assert(r.type == VT::Edge && r.edge == e, "inEdge gives a vector of that edge"); same(weights(m, r), w, "inEdge gives the same vector"); } }
}
GS_HARNESS(linear) {
  gs_mode_real(); M m(gm("mesh")); BV p = pickv(m, "p"), q = pickv(m, "q"); W a = weights(m, p), b = weights(m, q); bool anyf = false, anye = false; for (Face f : m.f) anyf |= on(p, f) && on(q, f); for (Edge e : m.e) anye |= on(p, e) && on(q, e);
  Face f = sharedFace(p, q); if (f == Face()) gs_assert(!anyf, "sharedFace finds a face holding both vectors if there is one"); else gs_assert(on(p, f) && on(q, f), "the shared face holds both vectors");
  bool sv = p.type == VT::Vertex && q.type == VT::Vertex && p.vertex == q.vertex; Edge e = sharedEdge(p, q); if (e == Edge()) gs_assert(!anye || sv, "sharedEdge finds an edge holding both vectors if there is one"); else gs_assert(on(p, e) && on(q, e), "the shared edge holds both vectors");
  BV s, d, s2 = p, d2 = p; bool t = throws([&] { s = p + q; }); gs_assert(t == !anyf, "vectors can be added exactly when a face holds both"); gs_assert(throws([&] { d = p - q; }) == t && throws([&] { s2 += q; }) == t && throws([&] { d2 -= q; }) == t, "all forms of addition accept the same operands");
  if (!t) { W x = weights(m, s), y = weights(m, d), x2 = weights(m, s2), y2 = weights(m, d2); for (size_t i = 0; i < a.size(); i++) { EQ(x[i], a[i] + b[i], "vector sum"); EQ(y[i], a[i] - b[i], "vector difference"); EQ(x2[i], a[i] + b[i], "vector +="); EQ(y2[i], a[i] - b[i], "vector -="); } }
  double c = num("c", 2.5); same(weights(m, p * c), a, "vector times scalar", c); same(weights(m, c * p), a, "scalar times vector", c); BV z = p; z *= c; same(weights(m, z), a, "vector *=", c); same(weights(m, -p), a, "negated vector", -1.);
  gs_assume(c != 0); same(a, weights(m, p / c), "vector over scalar", c); z = p; z /= c; same(a, weights(m, z), "vector /=", c);
}
GS_HARNESS(normalise) {
  gs_mode_real(); M m(1); double x = num("x", 1), y = num("y", 2), z = num("z", 4);
  BV f(m.f[0], Vector3{x, y, z}), g = f.normalizedDisplacement(); f.normalizeDisplacement(); double s = (x + y + z) / 3.; eq3(f.faceCoords, {x - s, y - s, z - s}, "normalizing shifts the coordinates to sum zero"); eq3(g.faceCoords, f.faceCoords, "both forms of normalizing agree"); gs_assert(g.face == m.f[0], "normalizing keeps the face");
  BV e(m.e[1], Vector2{x, y}), h = e.normalizedDisplacement(); e.normalizeDisplacement(); eq2(e.edgeCoords, {(x - y) / 2., (y - x) / 2.}, "normalizing shifts the coordinates to sum zero"); eq2(h.edgeCoords, e.edgeCoords, "both forms of normalizing agree");
  Vector3 n = normalizeBarycentricDisplacement({x, y, z}); eq3(n, f.faceCoords, "normalizeBarycentricDisplacement shifts to sum zero"); Vector3 b = normalizeBarycentric({x, y, z}); if (x + y + z == 0) eq3(b, {1 / 3., 1 / 3., 1 / 3.}, "zero coordinates normalize to the centre"); else eq3(b * (x + y + z), {x, y, z}, "normalizeBarycentric scales to sum one");
  Vector3 p = projectInsideTriangle({x, y, z}); gs_assert(p.x >= 0 && p.y >= 0 && p.z >= 0, "projected coordinates are nonnegative"); EQ(p.x + p.y + p.z, 1., "projected coordinates sum to one"); gs_assert(isInsideTriangle({x, y, z}) == (x >= 0 && y >= 0 && z >= 0), "inside means no negative coordinate"); if (x >= 0 && y >= 0 && z >= 0) eq3(p, b, "coordinates inside are only normalized"); if (x <= 0 && y > 0 && z > 0) eq3(p * (y + z), {0, y, z}, "a negative coordinate becomes zero");
}
GS_HARNESS(permute) {
  gs_mode_real(); M m(gm("mesh")); Vector3 b{num("x", 1), num("y", 2), num("z", 3)};
  for (Face f : m.f) { Halfedge h = f.halfedge(); for (int i = 0; i < 3; i++, h = h.next()) { gs_assert(halfedgeIndexInTriangle(h) == i, "halfedgeIndexInTriangle counts from the face's halfedge"); Vector3 c = permuteBarycentricToCanonical(b, h); Halfedge k = h; for (int j = 0; j < 3; j++, k = k.next()) { int g = 0; for (Halfedge q = f.halfedge(); q != k; q = q.next()) g++; EQ(c[g], b[j], "coordinates go to their vertex"); } eq3(permuteBarycentricFromCanonical(c, h), b, "permuting back undoes permuting"); } }
}
// -------------------------------------------------------------- metric: symbolic positions
struct G { M m; VertexData<Vector3> p; std::unique_ptr<VertexPositionGeometry> g; G(size_t i) : m(i), p(*m.m) { size_t k = 0; static const double D[][2] = {{0, 0}, {4, 0}, {1, 3}, {5, 4}, {-3, 2}, {2, -4}, {-1, -3}}; for (Vertex v : m.v) { p[v] = Vector3{num("px", D[k % 7][0]), num("py", D[k % 7][1]), 0}; k++; } for (Face f : m.f) { auto c = corners(f); gs_assume(cross(p[c[1]] - p[c[0]], p[c[2]] - p[c[0]]).z > 0); } g.reset(new VertexPositionGeometry(*m.m, p)); } };
static Vector3 place(G& G_, const BV& b) { W w = weights(G_.m, b); Vector3 r{0, 0, 0}; for (Vertex v : G_.m.v) r = r + G_.p[v] * w[v.getIndex()]; return r; }
static size_t km() { return gs_tier() ? (gs_choose("mesh", 2) ? 1 : 100) : 11; }
GS_HARNESS(norms) { gs_mode_real(); G g(km()); BV v = pickv(g.m, "v"); Vector3 x = place(g, v); double n2 = x.x * x.x + x.y * x.y; EQ(v.norm2(*g.g), n2, "norm2 is the squared length of the vector in the plane of its face"); EQ(norm2(*g.g, v), n2, "norm2 as a function agrees"); double n = v.norm(*g.g); gs_assert(n >= 0, "a norm is not negative"); EQ(n * n, n2, "norm is the length of the vector"); EQ(norm(*g.g, v), n, "norm as a function agrees"); }
GS_HARNESS(dots) { gs_mode_real(); G g(km()); BV u = pickv(g.m, "u"), v = pickv(g.m, "v"); bool any = false; for (Face f : g.m.f) any |= on(u, f) && on(v, f); double d = 0; bool t = throws([&] { d = dot(*g.g, u, v); }); gs_assert(t == !any, "the inner product exists exactly when a face holds both vectors"); if (t) return; Vector3 a = place(g, u), b = place(g, v); EQ(d, a.x * b.x + a.y * b.y, "inner product of the vectors in the plane"); }
GS_HARNESS(turn90) { gs_mode_real(); G g(km()); BV v = pickv(g.m, "v"); if (v.type == VT::Vertex) return; BV r = v.rotate90(*g.g); gs_assert(r.type == VT::Face && on(v, r.face), "a rotated vector lies in a face holding the vector"); Vector3 a = place(g, v), b = place(g, r); eq3(b, {-a.y, a.x, 0}, "rotate90 turns the vector a quarter turn counter-clockwise"); }
GS_HARNESS(turn) {
  gs_mode_real(); G g(11); BV v = pickv(g.m, "v"); if (v.type == VT::Vertex) return; static const double A[] = {M_PI, M_PI / 2, -M_PI / 2, 2 * M_PI, 0}; size_t k = gs_choose("angle", 6); double t = k < 5 ? A[k] : num("angle", .75);
  if (k == 5) gs_assume((t > 0) & (t < 3)); BV r = v.rotate(*g.g, t); gs_assert(on(v, r.type == VT::Face ? r.face : g.m.f[0]), "a rotated vector lies in a face holding the vector");
  Vector3 a = place(g, v), b = place(g, r); double c = std::cos(t), s = std::sin(t); if (k == 0 && v.type == VT::Edge) { c = -1; s = 0; } eq3(b, {c * a.x - s * a.y, s * a.x + c * a.y, 0}, "rotate turns the vector by the angle");
}
GS_HARNESS(displacement) { gs_mode_real(); std::array<Vector2, 3> c{{{num("x", 0), num("y", 0)}, {num("x", 4), num("y", 1)}, {1, 3}}}; double x = num("u", .25), y = num("v", .5); Vector3 d{x, y, 0 - x - y}; Vector2 e = barycentricDisplacementToCartesian(c, d); eq2(e, {c[0].x * d.x + c[1].x * d.y + c[2].x * d.z, c[0].y * d.x + c[1].y * d.y + c[2].y * d.z}, "a displacement in the plane");
  auto len = [&](int i) { Vector2 q = c[(i + 1) % 3] - c[(i + 2) % 3]; return std::sqrt(q.x * q.x + q.y * q.y); }; Vector3 L{len(0), len(1), len(2)}; EQ(displacementLength2(d, L), e.x * e.x + e.y * e.y, "squared length of a displacement (lengths indexed by opposite vertex)"); double l = displacementLength(d, L); gs_assert(l >= 0, "a length is not negative"); EQ(l * l, e.x * e.x + e.y * e.y, "length of a displacement"); }
