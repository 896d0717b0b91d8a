// Union-find, shortest edge paths, bounded Dijkstra distances and nearest-neighbour search against brute force.
#include "geo.h"
#include "geometrycentral/surface/mesh_graph_algorithms.h"
#include "geometrycentral/utilities/disjoint_sets.h"
#include "geometrycentral/utilities/knn.h"
// -------------------------------------------------------------- union-find: every sequence of operations
template <typename D> static void sameParts(D& d, std::vector<size_t>& lab) {
  size_t n = lab.size();
  for (size_t i = 0; i < n; i++) for (size_t j = 0; j < n; j++) gs_assert((d.find(i) == d.find(j)) == (lab[i] == lab[j]), "two elements have one representative exactly when merges connect them");
  for (size_t i = 0; i < n; i++) { size_t r = d.find(i); gs_assert(r < n && lab[r] == lab[i], "a set's representative is one of its elements"); gs_assert(d.find(r) == r, "a representative represents itself"); }
}
static void join(std::vector<size_t>& lab, size_t x, size_t y) { size_t a = lab[x], b = lab[y]; for (size_t& l : lab) if (l == a) l = b; }
GS_HARNESS(sets) {
  size_t n = 4 + gs_tier(), m = 3; DisjointSets d(n); std::vector<size_t> lab(n); for (size_t i = 0; i < n; i++) lab[i] = i;
  for (size_t k = 0; k < m; k++) { size_t x = gs_choose("x", n), y = gs_choose("y", n); d.merge(x, y); join(lab, x, y); if (gs_tier() || k + 1 == m) sameParts(d, lab); else { size_t q = (x + y) % n; gs_assert(lab[d.find(q)] == lab[q], "a set's representative is one of its elements"); } }
}
GS_HARNESS(tall) { // trees of rank 2 and 3: pairs, pairs of pairs, then arbitrary merges
  size_t n = 8; DisjointSets d(n); std::vector<size_t> lab(n); for (size_t i = 0; i < n; i++) lab[i] = i;
  auto mg = [&](size_t x, size_t y) { d.merge(x, y); join(lab, x, y); };
  for (size_t i = 0; i < n; i += 2) mg(i, i + 1);
  mg(gs_choose("a", 2), 2 + gs_choose("b", 2)); mg(4 + gs_choose("c", 2), 6 + gs_choose("d", 2)); sameParts(d, lab);
  mg(gs_choose("x", n), gs_choose("y", n)); sameParts(d, lab);
}
GS_HARNESS(marked) {
  size_t n = 3; MarkedDisjointSets d(n); std::vector<size_t> lab(n); std::vector<bool> mk(n, false); for (size_t i = 0; i < n; i++) lab[i] = i;
  for (size_t k = 0; k < (gs_tier() ? 4u : 3u); k++) {
    size_t op = gs_choose("op", 3), x = gs_choose("x", n);
    if (op == 0) { size_t y = gs_choose("y", n); bool either = mk[x] || mk[y]; d.merge(x, y); join(lab, x, y); for (size_t i = 0; i < n; i++) if (lab[i] == lab[x]) mk[i] = either; }
    else { if (op == 1) d.mark(x); else d.unmark(x); for (size_t i = 0; i < n; i++) if (lab[i] == lab[x]) mk[i] = op == 1; }
    for (size_t i = 0; i < n; i++) gs_assert(d.isMarked(i) == mk[i], "a set is marked exactly when one of its elements was marked since it was last unmarked");
  }
  sameParts(d, lab);
}
// -------------------------------------------------------------- paths on meshes, symbolic edge lengths
static EdgeData<double> posLengths(SurfaceMesh& m, size_t nsym) { // shortest paths need no triangle inequality
  EdgeData<double> l(m); size_t k = 0;
  for (Edge e : m.edges()) { double v = 1. + .125 * ((k * 5) % 7); if (k < nsym) { v = gs_double("len", v); gs_assume(v > 0); } l[e] = v; k++; }
  return l;
}
// length of every simple path from a to b
static void simple(SurfaceMesh& m, const EdgeData<double>& l, Vertex a, Vertex b, std::vector<bool>& seen, double len, std::vector<double>& out) {
  if (a == b) { out.push_back(len); return; }
  seen[a.getIndex()] = true;
  for (Edge e : m.edges()) { Vertex x = e.firstVertex(), y = e.secondVertex(); if (x == a && !seen[y.getIndex()]) simple(m, l, y, b, seen, len + l[e], out); else if (y == a && !seen[x.getIndex()]) simple(m, l, x, b, seen, len + l[e], out); }
  seen[a.getIndex()] = false;
}
static std::vector<double> allLengths(SurfaceMesh& m, const EdgeData<double>& l, Vertex a, Vertex b) { std::vector<bool> s(m.nVerticesCapacity(), false); std::vector<double> o; simple(m, l, a, b, s, 0, o); return o; }
static void path(size_t mi, size_t nsym, size_t quickPairs) {
  gs_mode_real(); auto m = geoMesh(mi); EdgeData<double> l = posLengths(*m, nsym); EdgeLengthGeometry g(*m, l);
  std::vector<Vertex> vs; for (Vertex v : m->vertices()) vs.push_back(v);
  size_t p = gs_choose("pair", gs_tier() ? vs.size() * vs.size() : quickPairs), n = vs.size(); Vertex a = vs[p % n], b = vs[(n - 1 + p / n) % n];
  auto r = shortestEdgePath(g, a, b); auto all = allLengths(*m, l, a, b);
  if (a == b) { gs_assert(r.empty(), "the path from a vertex to itself is empty"); return; }
  if (all.empty()) { gs_assert(r.empty(), "no path is reported between disconnected vertices"); return; }
  gs_assert(!r.empty(), "a path is found between connected vertices");
  Vertex w = a; double len = 0; for (Halfedge h : r) { gs_assert(h.vertex() == w, "consecutive halfedges of the path meet"); w = h.tipVertex(); len += l[h.edge()]; }
  gs_assert(w == b, "the path ends at the requested vertex");
  for (double d : all) gs_assert(len <= d + (gs_is_symbolic_run() ? 0. : 1e-7), "no other path is shorter");
}
GS_HARNESS(path_strip) { path(1, gs_tier() ? 7 : 3, 5); }
GS_HARNESS(path_fan) { path(3, gs_tier() ? 6 : 3, 4); }
GS_HARNESS(path_tet) { path(0, gs_tier() ? 6 : 3, 4); }
GS_HARNESS(path_deleted) { path(100, gs_tier() ? 5 : 4, 8); }
GS_HARNESS(path_two) { path(10, 3, 36); }
GS_HARNESS(path_quads) { path(5, gs_tier() ? 4 : 1, 9); }
static void ball(size_t mi, size_t nsym, bool symr) {
  gs_mode_real(); auto m = geoMesh(mi); EdgeData<double> l = posLengths(*m, nsym); EdgeLengthGeometry g(*m, l);
  std::vector<Vertex> vs; for (Vertex v : m->vertices()) vs.push_back(v);
  Vertex a = vs[gs_tier() ? gs_choose("source", vs.size()) : vs.size() - 1]; double r = 2.5; if (symr) { r = gs_double("r", 2.5); gs_assume(r >= 0); }
  auto d = vertexDijkstraDistanceWithinRadius(g, a, r); double eps = gs_is_symbolic_run() ? 0. : 1e-7; size_t n = 0;
  for (Vertex v : vs) {
    auto all = allLengths(*m, l, a, v); bool in = false; for (double x : all) in = in | (x <= r); bool has = d.find(v) != d.end(); n += has;
    if (!gs_is_symbolic_run()) { bool tie = false; for (double x : all) tie = tie | ((std::fabs(x - r) < 1e-6) & (x != r)); if (tie) continue; }
    gs_assert(has == (in | (v == a)), "exactly the vertices within the radius are reported");
    if (!has) continue; bool att = false;
    for (double x : all) { gs_assert(d[v] <= x + eps, "a reported distance is at most the length of every path"); att = att | ((d[v] >= x - eps) & (d[v] <= x + eps)); }
    gs_assert(att, "a reported distance is the length of some path");
  }
  gs_assert(n == d.size(), "only vertices of the mesh are reported");
}
GS_HARNESS(ball_strip) { ball(1, gs_tier() ? 7 : 3, gs_tier()); }
GS_HARNESS(ball_tet) { ball(0, gs_tier() ? 6 : 2, true); }
GS_HARNESS(ball_fan) { ball(3, gs_tier() ? 6 : 2, true); }
GS_HARNESS(ball_book) { ball(200, gs_tier() ? 7 : 3, gs_tier()); }
GS_HARNESS(ball_unoriented) { ball(201, gs_tier() ? 5 : 3, gs_tier()); }
GS_HARNESS(ball_deleted) { ball(100, gs_tier() ? 5 : 2, true); }
GS_HARNESS(ball_two) { ball(10, 4, true); }
// -------------------------------------------------------------- nearest neighbours
typedef std::vector<Vector3> Pts;
static double sq(Vector3 a) { return a.x * a.x + a.y * a.y + a.z * a.z; }
static void knn(const Pts& p, Vector3 q, size_t k) {
  NearestNeighborFinder f(p); double eps = gs_is_symbolic_run() ? 0. : 1e-7;
  auto r = f.kNearest(q, k); gs_assert(r.size() == k, "kNearest gives k points");
  std::vector<bool> in(p.size(), false); for (size_t i : r) { gs_assert(i < p.size() && !in[i], "kNearest gives distinct points of the set"); in[i] = true; }
  for (size_t i = 0; i + 1 < r.size(); i++) gs_assert(sq(p[r[i]] - q) <= sq(p[r[i + 1]] - q) + eps, "nearest points come in order of distance");
  for (size_t i = 0; i < p.size(); i++) if (!in[i]) for (size_t j : r) gs_assert(sq(p[j] - q) <= sq(p[i] - q) + eps, "no point left out is nearer than one reported");
}
static void nbrs(const Pts& p, size_t s, size_t k) {
  NearestNeighborFinder f(p); double eps = gs_is_symbolic_run() ? 0. : 1e-7; Vector3 q = p[s];
  auto r = f.kNearestNeighbors(s, k); gs_assert(r.size() == k, "kNearestNeighbors gives k points");
  std::vector<bool> in(p.size(), false); for (size_t i : r) { gs_assert(i < p.size() && !in[i], "kNearestNeighbors gives distinct points of the set"); in[i] = true; }
  gs_assert(!in[s], "a point is not its own neighbour");
  for (size_t i = 0; i < p.size(); i++) if (!in[i] && i != s) for (size_t j : r) gs_assert(sq(p[j] - q) <= sq(p[i] - q) + eps, "no point left out is nearer than one reported");
}
static void rad(const Pts& p, Vector3 q, double r) {
  NearestNeighborFinder f(p); auto got = f.radiusSearch(q, r); std::vector<bool> in(p.size(), false);
  for (size_t i : got) { gs_assert(i < p.size() && !in[i], "radiusSearch gives distinct points of the set"); in[i] = true; }
  for (size_t i = 0; i < p.size(); i++) { double d = sq(p[i] - q); if (!gs_is_symbolic_run() && std::fabs(d - r * r) < 1e-6) continue; gs_assume(d != r * r); gs_assert(in[i] == (d < r * r), "exactly the points nearer than the radius are reported"); }
}
static double num(const char* n, double d) { double v = gs_double(n, d); gs_assume((v >= -1e3) & (v <= 1e3)); return v; } // the search starts from the largest double as its bound
static Pts line(size_t n) { Pts p; for (size_t i = 0; i < n; i++) p.push_back({num("x", i * i), 0, 0}); return p; }
GS_HARNESS(knn_line) { gs_mode_real(); Pts p = line(3); knn(p, {num("q", .25), 0, 0}, 1 + gs_choose("k", 3)); }
GS_HARNESS(knn_query) { gs_mode_real(); double x = num("x", 1), y = num("y", 2), z = gs_tier() ? num("z", 3) : 3; knn({{0, 0, 0}, {4, 1, 0}, {1, 5, 2}, {2, 2, 7}}, {x, y, z}, 1 + gs_choose("k", 3)); }
// more points than fit one leaf: the search has to prune and to visit the far side of a split
static Pts cloud(size_t n) { Pts p; for (size_t i = 0; i < n; i++) p.push_back({double((i * 7) % 13), double((i * 5) % 11), double((i * 3) % 5)}); return p; }
GS_HARNESS(knn_split) { gs_mode_real(); knn(cloud(13), {num("x", 1), 2, 3}, 1 + gs_choose("k", 2)); }
GS_HARNESS(knn_split_y) { gs_mode_real(); knn(cloud(24), {4, num("y", 2), 1}, 2); }
GS_HARNESS(knn_point_moves) { gs_mode_real(); Pts p = cloud(12); p[5].x = num("x", 3); knn(p, {6, 5, 2}, 2); }
GS_HARNESS(neighbors_line) { gs_mode_real(); size_t n = 3 + gs_tier(); Pts p = line(n); nbrs(p, gs_choose("s", n), 1 + gs_choose("k", n - 1)); }
GS_HARNESS(neighbors_split) { gs_mode_real(); Pts p = cloud(13); p[4].y = num("y", 2); nbrs(p, gs_choose("s", gs_tier() ? 13 : 5), 2); }
GS_HARNESS(neighbors_same) { gs_mode_real(); Pts p{{1, 1, 1}, {1, 1, 1}, {1, 1, 1}, {num("x", 2), 1, 1}}; nbrs(p, gs_choose("s", 4), 1 + gs_choose("k", 3)); }
GS_HARNESS(radius_line) { gs_mode_real(); Pts p = line(3); double r = num("r", 1.5); gs_assume(r >= 0); rad(p, {num("q", .25), 0, 0}, r); }
GS_HARNESS(radius_split) { gs_mode_real(); double r = num("r", 4); gs_assume(r >= 0); rad(cloud(13), {5, 4, 2}, r); }
GS_HARNESS(radius_query) { gs_mode_real(); rad(cloud(13), {num("x", 2), 4, 2}, 4.5); }
template <typename F> static bool throws(F f) { try { f(); } catch (std::exception&) { return true; } return false; }
GS_HARNESS(too_many) { NearestNeighborFinder f({{0, 0, 0}, {1, 0, 0}, {0, 2, 0}}); size_t k = gs_choose("k", 6); if (k) gs_assert(throws([&] { f.kNearest({1, 1, 1}, k); }) == (k > 3), "kNearest refuses more points than there are"); gs_assert(throws([&] { f.kNearestNeighbors(1, k); }) == (k > 2), "kNearestNeighbors refuses more points than there are others"); }
