// Fast marching: the update in a triangle, bounds on flat meshes, and signs on the two sides of a curve.
#include "itri.h"
#include "geometrycentral/surface/fast_marching_method.h"
static double dist(Vector2 a, Vector2 b) { return (a - b).norm(); }
static double mn(double a, double b) { return b < a ? b : a; }
// plane meshes with a chosen shape
struct Plate {
  std::unique_ptr<ManifoldSurfaceMesh> m; std::unique_ptr<VertexPositionGeometry> g; std::vector<Vector2> p;
  Plate(const Polys& f, std::vector<Vector2> x) : p(x) { m.reset(new ManifoldSurfaceMesh(f)); g.reset(new VertexPositionGeometry(*m)); for (Vertex v : m->vertices()) g->inputVertexPositions[v] = {p[v.getIndex()].x, p[v.getIndex()].y, 0}; }
  Vector2 P(Vertex v) { return p[v.getIndex()]; }
  Vector2 at(const SurfacePoint& q) { if (q.type == SurfacePointType::Vertex) return P(q.vertex); if (q.type == SurfacePointType::Edge) return (1 - q.tEdge) * P(q.edge.halfedge().tailVertex()) + q.tEdge * P(q.edge.halfedge().tipVertex()); Vector2 r{0, 0}; size_t k = 0; for (Vertex v : q.face.adjacentVertices()) r += q.faceCoords[k++] * P(v); return r; }
};
static Polys fanP(size_t n, size_t turn) { Polys f; for (size_t i = 0; i < n; i++) { f.push_back({0, 1 + (i + turn) % n, 1 + (i + turn + 1) % n}); } return f; }
static std::vector<Vector2> fanX(size_t n) { std::vector<Vector2> x{{0, 0}}; for (size_t i = 0; i < n; i++) { double a = 2 * PI * (i + .1 * (i % 3)) / n, r = 1 + .0625 * (i % 4); x.push_back({r * std::cos(a), r * std::sin(a)}); } return x; }
static Polys gridP(size_t w, size_t h, int diag) { Polys f; for (size_t j = 0; j + 1 < h; j++) for (size_t i = 0; i + 1 < w; i++) { size_t a = j * w + i, b = a + 1, c = a + w, d = c + 1; if ((diag + i + j) % 2) { f.push_back({a, b, d}); f.push_back({a, d, c}); } else { f.push_back({a, b, c}); f.push_back({b, d, c}); } } return f; }
static std::vector<Vector2> gridX(size_t w, size_t h, bool bent) { std::vector<Vector2> x; for (size_t j = 0; j < h; j++) for (size_t i = 0; i < w; i++) x.push_back({(double)i + (bent && i && j && i + 1 < w && j + 1 < h ? .125 * (double)((i * 5 + j * 3) % 4) - .1875 : 0), (double)j + (bent && i && j && i + 1 < w && j + 1 < h ? .0625 * (double)((i * 3 + j * 7) % 5) - .125 : 0)}); return x; }
// least value reaching C from the segment AB with values interpolated linearly; in an obtuse corner anything up to the detour over A or B is allowed
static void update(Vector2 A, Vector2 B, Vector2 C, double xA, double xB, double d, const char* w) {
  double D = mn(xA + dist(A, C), xB + dist(B, C)); bool acute = dot(A - C, B - C) > 1e-9; double s0 = xB - xA + dot(B - A, A - C) / dist(A, C), s1 = xB - xA + dot(B - A, B - C) / dist(B, C);
  gs_assume((s0 > 1e-3) | (s0 < -1e-3)); gs_assume((s1 > 1e-3) | (s1 < -1e-3)); gs_assert(d < D + 1e-6, w);
  if (s0 < 0 && s1 > 0) { Vector2 e = A - C, f = B - C; double c = cross(e, f), r = xA - d, q = xB - d; Vector2 g{(r * f.y - q * e.y) / c, (q * e.x - r * f.x) / c}; double n = g.x * g.x + g.y * g.y; if (acute) { near(n, 1, w); gs_assert((d > xA) & (d > xB), w); } else (void)n; if (!acute) near(d, mn(D, (xA > xB ? xA : xB) + cross(A - C, B - C) / dist(A, B)), w); }
  else near(d, D, w);
}
GS_HARNESS(fkernel) { // one triangle, free values at two corners
  gs_mode_real(); static const std::vector<Vector2> S[] = {{{0, 0}, {1, 0}, {.4375, .875}}, {{0, 0}, {1.5, .25}, {.5, .9375}}, {{0, 0}, {2, 0}, {.875, .4375}}, {{0, 0}, {1, 0}, {.0625, 1}}}; size_t sh = gs_choose("shape", 4); Plate T({{0, 1, 2}}, S[sh]);
  size_t c = gs_choose("corner", 3); Vertex vC = T.m->vertex(c), vA = T.m->vertex((c + 1) % 3), vB = T.m->vertex((c + 2) % 3); double xA = gs_double("a", .25), xB = gs_double("b", .5), l = dist(T.P(vA), T.P(vB)); gs_assume((xA > 0) & (xA < 4) & (xB > 0) & (xB < 4) & (xA - xB < l) & (xB - xA < l)); gs_assume((xA - xB > 1e-3) | (xB - xA > 1e-3));
  bool swap = gs_choose("order", 2); std::vector<std::pair<Vertex, double>> in{{vA, xA}, {vB, xB}}; if (swap) std::swap(in[0], in[1]); auto d = FMMDistance(*T.g, in);
  near(d[vA], xA, "sources keep their values"); near(d[vB], xB, "sources keep their values"); update(T.P(vA), T.P(vB), T.P(vC), xA, xB, d[vC], "the value at the third corner of a triangle solves the eikonal equation, or comes along an edge");
}
GS_HARNESS(fstart) { // a source inside a face or an edge
  gs_mode_real(); static const std::vector<Vector2> S[] = {{{0, 0}, {1, 0}, {.4375, .875}}, {{0, 0}, {1.5, .25}, {.5, .9375}}, {{0, 0}, {2, 0}, {.875, .4375}}}; Plate T({{0, 1, 2}}, S[gs_choose("shape", 3)]); double x0 = gs_double("x", .125); gs_assume((x0 >= 0) & (x0 < 2)); bool face = gs_choose("in face", 2);
  SurfacePoint q = face ? somewhere(*T.m, true, 1, false) : SurfacePoint(T.m->edge(gs_choose("edge", 3)), gs_double("t", .375)); if (!face) { gs_assume(q.tEdge > .03125); gs_assume(q.tEdge < .96875); } Vector2 p = T.at(q);
  auto d = FMMDistance(*T.g, {{{q, x0}}}); auto one = [&](Vertex v) { double r = d[v] - x0, e = (T.P(v) - p).norm2(); gs_assert(r >= 0, "the start of the front has the exact distances"); near(r * r, e, "the start of the front has the exact distances"); };
  if (face) for (Vertex v : q.face.adjacentVertices()) one(v); else { one(q.edge.firstVertex()); one(q.edge.secondVertex()); }
}
static void bounds(Plate& T, const VertexData<double>& d, const std::vector<std::pair<SurfacePoint, double>>& src, bool single) {
  std::vector<double> up(T.p.size(), 1e9); std::set<size_t> isSrc; auto st = [&](Vertex v, SurfacePoint q, double x) { up[v.getIndex()] = std::min(up[v.getIndex()], x + dist(T.P(v), T.at(q))); isSrc.insert(v.getIndex()); };
  for (auto& s : src) switch (s.first.type) { case SurfacePointType::Vertex: st(s.first.vertex, s.first, s.second); break; case SurfacePointType::Edge: st(s.first.edge.firstVertex(), s.first, s.second); st(s.first.edge.secondVertex(), s.first, s.second); break; default: for (Vertex v : s.first.face.adjacentVertices()) st(v, s.first, s.second); }
  for (size_t i : isSrc) near(d[i], up[i], "source vertices have their initial distances");
  for (size_t r = 0; r < T.p.size(); r++) for (Edge e : T.m->edges()) for (Halfedge h : e.adjacentHalfedges()) up[h.tipVertex().getIndex()] = std::min(up[h.tipVertex().getIndex()], up[h.tailVertex().getIndex()] + dist(T.P(h.tailVertex()), T.P(h.tipVertex())));
  for (Vertex v : T.m->vertices()) { gs_assert(d[v] < up[v.getIndex()] + 1e-9, "no value exceeds the shortest path along edges"); if (single) gs_assert(d[v] > src[0].second + dist(T.P(v), T.at(src[0].first)) - 1e-9, "no value falls below the straight distance");
    if (isSrc.count(v.getIndex())) continue; double best = 1e9, low = 1e9; // every other value comes from a triangle or an edge
    for (Halfedge h : v.outgoingHalfedges()) best = std::min(best, d[h.tipVertex()] + dist(T.P(v), T.P(h.tipVertex()))); low = best;
    for (Halfedge h : v.outgoingHalfedges()) if (h.isInterior()) { Vector2 C = T.P(v), A = T.P(h.tipVertex()), B = T.P(h.next().tipVertex()); double xA = d[h.tipVertex()], xB = d[h.next().tipVertex()]; double s0 = xB - xA + dot(B - A, A - C) / dist(A, C), s1 = xB - xA + dot(B - A, B - C) / dist(B, C);
      if (s0 < -1e-6 && s1 > 1e-6) { double lo = 0, hi = 1; for (int k = 0; k < 60; k++) { double s = (lo + hi) / 2; Vector2 P = A + s * (B - A); double ds = xB - xA + dot(B - A, P - C) / dist(P, C); (ds < 0 ? lo : hi) = s; } Vector2 P = A + lo * (B - A); double t = (1 - lo) * xA + lo * xB + dist(P, C);
        if (dot(A - C, B - C) > 1e-9) { if (t > xA - 1e-9 && t > xB - 1e-9) best = std::min(best, t); } low = std::min(low, t); } }
    low = std::min(low, best); gs_assert(d[v] > low - 1e-6 && d[v] < best + 1e-6, "every value is the least one its triangles give"); }
}
static Plate plate(size_t k) {
  switch (k) { case 0: return Plate(gridP(4, 3, 0), gridX(4, 3, true)); case 1: return Plate(fanP(7, 2), fanX(7)); case 2: return Plate(gridP(4, 4, 1), gridX(4, 4, false)); case 3: return Plate(gridP(5, 5, 0), gridX(5, 5, true)); default: return Plate(gridP(2, 6, 1), gridX(2, 6, false)); }
}
GS_HARNESS(fflat) { // straight distance <= result <= path along edges
  gs_mode_real(); Plate T = plate(gs_choose("mesh", gs_tier() ? 5 : 3)); size_t kind = gs_choose("kind", 4); static const double S[] = {.34375, .8125}; SurfacePoint q; std::vector<std::pair<SurfacePoint, double>> src; static const double X[] = {0, .375};
  if (kind == 0) q = SurfacePoint(T.m->vertex(gs_choose("v", T.m->nVertices()))); else if (kind == 1) q = SurfacePoint(T.m->edge(gs_choose("e", T.m->nEdges())), S[gs_choose("where", 2)]); else if (kind == 2) { double s = S[gs_choose("where", 2)]; q = SurfacePoint(T.m->face(gs_choose("f", T.m->nFaces())), Vector3{s * .5, s * .375, 1 - s * .875}); }
  if (kind < 3) src.push_back({q, X[gs_choose("x", 2)]}); else { Vertex a = T.m->vertex(gs_choose("v", T.m->nVertices())), b = T.m->vertex(gs_choose("w", T.m->nVertices())); double x = X[gs_choose("x", 2)]; if (a == b) gs_stop(); src = {{SurfacePoint(a), 0}, {SurfacePoint(b), x}}; }
  VertexData<double> d; if (kind == 0 || kind == 3) { std::vector<std::pair<Vertex, double>> in; for (auto& s : src) in.push_back({s.first.vertex, s.second}); d = FMMDistance(*T.g, in); } else d = FMMDistance(*T.g, {src}); bounds(T, d, src, kind < 3);
}
// --------------------------------------------------- signed: the left side of the curve is negative
static void sides(Plate& T, const std::vector<std::vector<SurfacePoint>>& curves, const std::vector<int>& want) {
  std::vector<std::vector<std::pair<SurfacePoint, double>>> in, out; for (auto& c : curves) { in.emplace_back(); for (auto& q : c) in.back().push_back({q, 0.}); out.emplace_back(in.back().rbegin(), in.back().rend()); }
  auto u = FMMDistance(*T.g, in), s = FMMDistance(*T.g, in, true), r = FMMDistance(*T.g, out, true); for (Vertex v : T.m->vertices()) { int w = want[v.getIndex()]; if (!w) { near(s[v], 0, "the curve has distance zero"); near(r[v], 0, "the curve has distance zero"); continue; }
    near(s[v], w * u[v], "signed distances are the unsigned ones, negative on the left of the curve"); near(r[v], -w * u[v], "reversing the curve changes the sign"); }
}
GS_HARNESS(fsigned) { // a path along edges, dividing a grid
  gs_mode_real(); size_t w = 4, h = gs_tier() ? 5 : 4; bool bent = gs_choose("bent", 2); Plate T(gridP(w, h, gs_choose("diag", 2)), gridX(w, h, bent)); std::vector<int> want(w * h, 0); std::vector<SurfacePoint> c;
  if (gs_choose("loop", 2)) { static const size_t L[] = {5, 6, 10, 9, 5}; for (size_t i : L) c.push_back(SurfacePoint(T.m->vertex(i))); for (size_t i = 0; i < w * h; i++) want[i] = i == 5 || i == 6 || i == 10 || i == 9 ? 0 : 1; }
  else { size_t row = 1 + gs_choose("row", h - 2); for (size_t i = 0; i < w; i++) c.push_back(SurfacePoint(T.m->vertex(row * w + i))); for (size_t j = 0; j < h; j++) for (size_t i = 0; i < w; i++) want[j * w + i] = j == row ? 0 : j > row ? -1 : 1; }
  sides(T, {c}, want);
}
GS_HARNESS(fspokes) { // two spokes of a fan
  gs_mode_real(); size_t n = gs_choose("n", gs_tier() ? 5 : 3) + 6; Plate T(fanP(n, gs_choose("turn", n)), fanX(n)); size_t a = gs_choose("from", n), b = (a + 2 + gs_choose("to", n - 3)) % n; std::vector<int> want(n + 1, 0); bool left = false;
  // from spoke a through the center to spoke b: the left side is counterclockwise from b to a
  for (size_t k = 1; k < n; k++) { size_t i = (b + k) % n; if (i == a) break; want[1 + i] = -1; } for (size_t i = 0; i < n; i++) if (i != a && i != b && !want[1 + i]) want[1 + i] = 1; (void)left;
  sides(T, {{SurfacePoint(T.m->vertex(1 + a)), SurfacePoint(T.m->vertex(0)), SurfacePoint(T.m->vertex(1 + b))}}, want);
}
GS_HARNESS(fpie) { // a closed curve through the center of a two-ring disk and along part of its first ring
  gs_mode_real(); size_t n = 8 + (gs_tier() ? gs_choose("n", 2) : 0), turn = gs_choose("turn", n), a = gs_choose("from", gs_tier() ? n : 2), k = 1 + gs_choose("len", n - 2); Polys f = fanP(n, turn); std::vector<Vector2> x = fanX(n); for (size_t i = 0; i < n; i++) x.push_back(2. * x[1 + i]); for (size_t i = 0; i < n; i++) { size_t p = 1 + i, q = 1 + (i + 1) % n; f.push_back({p, p + n, q}); f.push_back({q, p + n, q + n}); }
  Plate T(f, x); std::vector<int> want(2 * n + 1, 1); std::vector<SurfacePoint> c{SurfacePoint(T.m->vertex(0))}; want[0] = 0; for (size_t i = 0; i <= k; i++) { size_t j = 1 + (a + i) % n; c.push_back(SurfacePoint(T.m->vertex(j))); want[j] = 0; } c.push_back(SurfacePoint(T.m->vertex(0))); sides(T, {c}, want);
}
GS_HARNESS(fcross) { // a straight line through the faces of a grid: exact where the line starts the front, signs everywhere
  gs_mode_real(); size_t w = 4, h = 4; Plate T(gridP(w, h, gs_choose("diag", 2)), gridX(w, h, gs_choose("bent", 2))); static const double Y[] = {1.40625, .34375, 2.71875}; double y0 = Y[gs_choose("y", 3)], sl = gs_choose("slope", 2) ? .15625 : -.09375; Vector2 o{0, y0 - sl * 1.5}, dir{1, sl}; std::vector<std::pair<double, SurfacePoint>> hit;
  for (Edge e : T.m->edges()) { Vector2 a = T.P(e.halfedge().tailVertex()), b = T.P(e.halfedge().tipVertex()); double sa = cross(dir, a - o), sb = cross(dir, b - o); if (sa * sb < 0) { double t = sa / (sa - sb); hit.push_back({dot(a + t * (b - a) - o, dir), SurfacePoint(e, t)}); } }
  std::sort(hit.begin(), hit.end(), [](auto& a, auto& b) { return a.first < b.first; }); std::vector<SurfacePoint> c; for (auto& x : hit) c.push_back(x.second); bool rev = gs_choose("reverse", 2); if (rev) std::reverse(c.begin(), c.end());
  std::vector<std::pair<SurfacePoint, double>> in; for (auto& q : c) in.push_back({q, 0.}); auto d = FMMDistance(*T.g, {in}, true), u = FMMDistance(*T.g, {in});
  for (Vertex v : T.m->vertices()) { double s = cross(dir, T.P(v) - o) / dir.norm(); if (rev) s = -s; gs_assert((d[v] < 0) == (s > 0), "points on the left of the curve have negative distance"); gs_assert(std::abs(d[v]) > std::abs(s) - 1e-6 && u[v] > std::abs(s) - 1e-6, "no value falls below the straight distance"); near(std::abs(d[v]), u[v], "signed distances are the unsigned ones"); }
}
GS_HARNESS(falong) { // a row of a grid, through points inside its edges
  gs_mode_real(); size_t w = 4, h = 4; bool bent = gs_choose("bent", 2); Plate T(gridP(w, h, gs_choose("diag", 2)), gridX(w, h, bent)); std::vector<int> want(w * h, 0); std::vector<SurfacePoint> c; size_t row = 1 + gs_choose("row", h - 2), parts = 1 + gs_choose("parts", 7); bool ends = gs_choose("ends", 2);
  for (size_t i = 0; i < w; i++) { if (ends || (i && i + 1 < w)) c.push_back(SurfacePoint(T.m->vertex(row * w + i))); if (i + 1 < w && ((parts >> i) & 1 || (!ends && (i == 0 || i + 2 == w)))) { Vertex a = T.m->vertex(row * w + i), b = T.m->vertex(row * w + i + 1); for (Edge e : T.m->edges()) for (Halfedge k : e.adjacentHalfedges()) if (k.tailVertex() == a && k.tipVertex() == b) c.push_back(SurfacePoint(e, k == e.halfedge() ? .34375 : .65625)); } }
  std::vector<std::pair<SurfacePoint, double>> in; for (auto& q : c) in.push_back({q, 0.}); bool rev = gs_choose("reverse", 2); if (rev) std::reverse(in.begin(), in.end()); auto s = FMMDistance(*T.g, {in}, true), u = FMMDistance(*T.g, {in});
  for (size_t j = 0; j < h; j++) for (size_t i = 0; i < w; i++) if (j != row && (ends || (i && i + 1 < w))) { size_t k = j * w + i; gs_assert((s[k] < 0) == ((j > row) != rev), "points on the left of the curve have negative distance"); }
  if (ends) for (size_t k = 0; k < w * h; k++) near(std::abs(s[k]), u[k], "signed distances are the unsigned ones, negative on the left of the curve");
}
