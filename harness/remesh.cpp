// Remeshing and quadric-error simplification: which edges are flipped, split, collapsed, and where vertices go.
#include "geo.h"
#include "geometrycentral/surface/quadric_error_simplification.h"
#include "geometrycentral/surface/remeshing.h"
typedef std::vector<size_t> VS;
static double hash1(size_t k) { return (double)((k * 37 + 11) % 19) / 16. - .5; }
// positions: a jittered planar layout (kind 0), with bumps (kind 1); closed meshes get an irregular octahedron / tetrahedron
static void place(ManifoldSurfaceMesh& m, VertexPositionGeometry& g, size_t mesh, size_t kind) {
  static const double T[4][3] = {{0, 0, 0}, {2, 0, 0}, {.5, 1.75, 0}, {.75, .5, 1.5}};
  static const double O[6][3] = {{1.25, .125, 0}, {-1, 0, .25}, {0, 1.5, .125}, {.125, -1.125, 0}, {0, .25, 1.75}, {.25, 0, -1}};
  static const double F[5][3] = {{.125, .25, .5}, {1.5, 0, 0}, {0, 1.25, .125}, {-1.75, .125, 0}, {0, -1, .25}};
  for (Vertex v : m.vertices()) {
    size_t i = v.getIndex(); Vector3 p;
    if (mesh == 0) p = {T[i][0], T[i][1], T[i][2]};
    else if (mesh == 4) p = {O[i][0], O[i][1], O[i][2]};
    else if (mesh == 2) p = {F[i][0], F[i][1], kind ? F[i][2] : 0};
    else if (mesh == 12) p = {(double)(i % 3) + .5 * hash1(i), 1.25 * (double)(i / 3) + .5 * hash1(i + 9), kind ? hash1(i + 20) : 0};
    else p = {(double)i * 1.25 + hash1(i), (double)((i * i) % 5) + .5 * hash1(i + 4), kind ? hash1(i + 7) : 0};
    g.vertexPositions[v] = p;
  }
}
static std::vector<Vector3> snap(ManifoldSurfaceMesh& m, VertexPositionGeometry& g) { std::vector<Vector3> r(m.vertexIndexSize()); for (Vertex v : m.vertices()) r[v.getIndex()] = g.vertexPositions[v]; return r; }
static double elen(VertexPositionGeometry& g, Edge e) { return (g.vertexPositions[e.halfedge().tailVertex()] - g.vertexPositions[e.halfedge().tipVertex()]).norm(); }
static double ang(Vector3 u, Vector3 v) { return std::acos(std::max(-1., std::min(1., dot(u, v) / (u.norm() * v.norm())))); }

// ---- quadric error simplification
struct Planes { std::vector<std::array<double, 4>> q;
  double cost(Vector3 x) const { double s = 0; for (auto& p : q) { double d = p[0] * x.x + p[1] * x.y + p[2] * x.z + p[3]; s += d * d; } return s; }
  Vector3 grad(Vector3 x) const { Vector3 s{0, 0, 0}; for (auto& p : q) { double d = p[0] * x.x + p[1] * x.y + p[2] * x.z + p[3]; s += d * Vector3{p[0], p[1], p[2]}; } return s; }
  Vector3 best() const { // Cramer's rule on the normal equations
    double A[3][3] = {}, b[3] = {}; for (auto& p : q) for (int i = 0; i < 3; i++) { for (int j = 0; j < 3; j++) A[i][j] += p[i] * p[j]; b[i] -= p[i] * p[3]; }
    auto det = [](double M[3][3]) { return M[0][0] * (M[1][1] * M[2][2] - M[1][2] * M[2][1]) - M[0][1] * (M[1][0] * M[2][2] - M[1][2] * M[2][0]) + M[0][2] * (M[1][0] * M[2][1] - M[1][1] * M[2][0]); };
    double D = det(A), r[3]; for (int k = 0; k < 3; k++) { double M[3][3]; for (int i = 0; i < 3; i++) for (int j = 0; j < 3; j++) M[i][j] = j == k ? b[i] : A[i][j]; r[k] = det(M) / D; }
    return {r[0], r[1], r[2]};
  }
};
static Planes operator+(const Planes& a, const Planes& b) { Planes r = a; r.q.insert(r.q.end(), b.q.begin(), b.q.end()); return r; }
struct Qem : EdgeCollapsePolicy {
  ManifoldSurfaceMesh& m; VertexPositionGeometry& g; VertexData<size_t>& id; std::map<size_t, Planes> Q; std::set<std::array<size_t, 4>> offered; double tol; size_t a, b; Planes cur; size_t done = 0; Edge barred;
  Qem(ManifoldSurfaceMesh& m_, VertexPositionGeometry& g_, VertexData<size_t>& i_, double t) : m(m_), g(g_), id(i_), tol(t) {}
  std::array<size_t, 4> key(Edge e) { size_t x = id[e.halfedge().tailVertex()], y = id[e.halfedge().tipVertex()]; if (x > y) std::swap(x, y); return {x, y, Q[x].q.size(), Q[y].q.size()}; }
  double cost(Edge e) { Planes p = Q[id[e.halfedge().tailVertex()]] + Q[id[e.halfedge().tipVertex()]]; return p.cost(p.best()); }
  void beforeEdgeCollapse(const Edge& e, const double&) override {
    gs_assert(!e.isDead(), "simplification only collapses existing edges");
    a = id[e.halfedge().tailVertex()]; b = id[e.halfedge().tipVertex()]; cur = Q[a] + Q[b]; double c = cost(e);
    gs_assert(!(c > tol + 1e-6), "simplification never collapses an edge whose current quadric error exceeds the tolerance");
    for (Edge o : m.edges()) if (o != e && o != barred && !offered.count(key(o))) gs_assert(!(cost(o) < c - 1e-6), "simplification collapses the cheapest edge first");
    offered.insert(key(e));
  }
  void afterEdgeCollapse(const Vertex& v, const double&) override {
    Vector3 p = g.vertexPositions[v], gr = cur.grad(p); eq3(gr, Vector3::zero(), "simplification places the merged vertex at the minimum of its quadric error");
    id[v] = a; Q[a] = cur; Q.erase(b); done++;
  }
};
static void qem(size_t mesh) {
  gs_mode_real(); auto mp = catMesh(mesh); ManifoldSurfaceMesh& m = *mp; VertexPositionGeometry g(m); place(m, g, mesh, 1);
  if (gs_choose("small", 2)) for (Vertex v : m.vertices()) g.vertexPositions[v] *= .375;
  double tol = gs_double("tol", .5); VertexData<size_t> id(m); size_t k = 0; for (Vertex v : m.vertices()) id[v] = k++;
  MutationManager mm(m, g); Qem* q = new Qem(m, g, id, tol); mm.registerPolicy(q);
  for (Face f : m.faces()) { Vector3 p[3]; size_t j = 0; for (Vertex v : f.adjacentVertices()) p[j++] = g.vertexPositions[v]; Vector3 n = cross(p[1] - p[0], p[2] - p[0]); n /= n.norm(); for (Vertex v : f.adjacentVertices()) q->Q[id[v]].q.push_back({n.x, n.y, n.z, -dot(n, p[0])}); }
  size_t bar = gs_choose("barred", gs_tier() ? 3 : 2); if (bar) { EdgeData<bool> c(m, true); q->barred = m.edge((bar * 5) % m.nEdges()); c[q->barred] = false; mm.setCollapsibleEdges(c); }
  size_t nV = m.nVertices(), nE = m.nEdges();
  if (bar) quadricErrorSimplify(m, g, tol, mm); else if (gs_choose("managed", 2)) quadricErrorSimplify(m, g, tol, mm); else { // the plain overload does the same
    auto m2 = m.copy(); VertexPositionGeometry g2(*m2); for (Vertex v : m.vertices()) g2.vertexPositions[m2->vertex(v.getIndex())] = g.vertexPositions[v];
    quadricErrorSimplify(*m2, g2, tol); quadricErrorSimplify(m, g, tol, mm);
    gs_assert(m2->nVertices() == m.nVertices() && m2->nFaces() == m.nFaces(), "simplification with and without a mutation manager agree");
    for (size_t i = 0; i < m.nVertices(); i++) eq3(g.vertexPositions[m.vertex(i)], g2.vertexPositions[m2->vertex(i)], "simplification with and without a mutation manager agree");
  }
  checkValid(m, take(m, "after simplification"), "after simplification");
  gs_assert(m.isCompressed() && m.nVertices() == nV - q->done && m.nEdges() < nE + 1, "simplification removes one vertex per collapse and compresses the mesh");
  for (Edge e : m.edges()) { if (!bar) gs_assert(q->offered.count(q->key(e)) || q->cost(e) > tol - 1e-6, "no edge cheaper than the tolerance is left untried"); }
}
GS_HARNESS(qem) { static const VS M{4, 2, 12}; qem(M[gs_choose("mesh", gs_tier() ? 3 : 2)]); }

// ---- edge-length adjustment
struct Adjust : EdgeSplitPolicy, EdgeCollapsePolicy {
  ManifoldSurfaceMesh& m; VertexPositionGeometry& g; double target, minRel; double adapt = 0; VertexData<double> K; std::set<size_t> split; size_t nS = 0, nC = 0; Vector3 mid; bool collapsing = false;
  Adjust(ManifoldSurfaceMesh& m_, VertexPositionGeometry& g_, double t, double r) : m(m_), g(g_), target(t), minRel(r) {}
  double want(Edge e) { if (adapt == 0) return target; double h = (K[e.halfedge().tailVertex()] + K[e.halfedge().tipVertex()]) / 2; return target / (std::fabs(h) * adapt + 1); } // up to rounding: callers leave a gap when adaptive
  double gap() { return adapt == 0 ? 0 : 1e-9; }
  Vector3 half(Edge e) { return (g.vertexPositions[e.halfedge().tailVertex()] + g.vertexPositions[e.halfedge().tipVertex()]) / 2.; }
  void beforeEdgeSplit(const Edge& e, const double& t) override {
    double l = elen(g, e); gs_assert(!collapsing, "edge adjustment splits before it collapses"); gs_assert(gs_close(t, .5, 1e-6), "edge adjustment splits at the midpoint");
    gs_assert((l > 1.5 * want(e) * (1 - gap())) & (l > minRel * target), "edge adjustment only splits edges longer than 1.5 times the target and the minimum length");
    gs_assert(split.insert(e.getIndex()).second, "edge adjustment splits an edge once per pass"); mid = half(e);
  }
  void afterEdgeSplit(const Halfedge& a, const Halfedge& b, const double&) override { nS++; eq3(g.vertexPositions[a.vertex()], mid, "edge adjustment splits at the midpoint"); gs_assert(a.vertex() == b.vertex(), "split halfedges leave the new vertex"); }
  void beforeEdgeCollapse(const Edge& e, const double& t) override {
    collapsing = true; gs_assert(elen(g, e) < .5 * want(e) * (1 + gap()), "edge adjustment only collapses edges shorter than half the target"); gs_assert(gs_close(t, .5, 1e-6), "edge adjustment collapses to the midpoint"); mid = half(e);
  }
  void afterEdgeCollapse(const Vertex& v, const double&) override { nC++; eq3(g.vertexPositions[v], mid, "edge adjustment collapses to the midpoint"); }
};
static void adjust(size_t mesh) {
  gs_mode_real(); auto mp = catMesh(mesh); ManifoldSurfaceMesh& m = *mp; VertexPositionGeometry g(m); place(m, g, mesh, gs_choose("bumpy", 2));
  RemeshOptions o; o.targetEdgeLength = gs_double("target", .75); o.minRelativeLength = gs_double("least", .05); gs_assume(o.targetEdgeLength > 0); gs_assume(o.minRelativeLength >= 0);
  MutationManager mm(m, g); Adjust* p = new Adjust(m, g, o.targetEdgeLength, o.minRelativeLength); mm.registerPolicy(p);
  p->adapt = o.curvatureAdaptation = gs_choose("adaptive", 2) ? .5 : 0; p->K = VertexData<double>(m, 0.);
  if (p->adapt > 0) { for (Vertex v : m.vertices()) { double A = 0, H = 0; // mean curvature over barycentric dual area
      for (Halfedge h : v.outgoingHalfedges()) { if (h.isInterior()) { Vector3 u = g.vertexPositions[h.tipVertex()] - g.vertexPositions[v], w = g.vertexPositions[h.next().tipVertex()] - g.vertexPositions[v]; A += cross(u, w).norm() / 6; }
        if (h.edge().isBoundary()) continue; Vector3 a = g.vertexPositions[v], b = g.vertexPositions[h.tipVertex()], c = g.vertexPositions[h.next().tipVertex()], d = g.vertexPositions[h.twin().next().tipVertex()], n1 = cross(b - a, c - a), n2 = cross(d - a, b - a);
        H += std::atan2(dot((b - a) / (b - a).norm(), cross(n1, n2)), dot(n1, n2)) * (b - a).norm() / 4; }
      p->K[v] = H / A; } }
  size_t nE = m.nEdges(), nV = m.nVertices(), nB = m.nBoundaryLoops(); long chi = (long)nV - (long)nE + (long)m.nFaces(); EdgeData<bool> may(m, true);
  size_t bar = gs_choose("barred", 2); if (bar) { for (size_t i = 0; i < nE; i += 3) may[m.edge(i)] = false; mm.setSplittableEdges(may); mm.setCollapsibleEdges(may); }
  std::vector<double> before, lim; std::vector<char> ok; for (Edge e : m.edges()) { double l = elen(g, e); before.push_back(l); ok.push_back(may[e]); lim.push_back(1.5 * p->want(e) * (1 + p->gap())); }
  bool changed;
  if (!bar && gs_choose("plain", 2)) { // without a mutation manager: the same mesh comes out
    auto m2 = m.copy(); VertexPositionGeometry g2(*m2); for (Vertex v : m.vertices()) g2.vertexPositions[m2->vertex(v.getIndex())] = g.vertexPositions[v];
    bool c2 = adjustEdgeLengths(*m2, g2, o); changed = adjustEdgeLengths(m, g, mm, o); gs_assert(c2 == changed, "adjustment with and without a mutation manager agree");
    for (Vertex v : m.vertices()) eq3(g.vertexPositions[v], g2.vertexPositions[m2->vertex(v.getIndex())], "adjustment with and without a mutation manager agree"); gs_assert(m2->nVertices() == m.nVertices() && m2->nEdges() == m.nEdges(), "adjustment with and without a mutation manager agree");
  } else changed = adjustEdgeLengths(m, g, mm, o);
  for (size_t i = 0; i < nE; i++) if (ok[i] && !p->split.count(i)) gs_assert(!((before[i] > lim[i]) & (before[i] > o.minRelativeLength * o.targetEdgeLength)), "edge adjustment splits every edge that is too long and may be split");
  for (size_t i : p->split) gs_assert(i < nE && ok[i], "edge adjustment splits edges of the input that may be split");
  gs_assert(changed == (p->nS + p->nC > 0), "edge adjustment reports whether anything changed");
  checkValid(m, take(m, "after adjustment"), "after adjustment");
  gs_assert(m.isCompressed() && m.nVertices() == nV + p->nS - p->nC && (long)m.nVertices() - (long)m.nEdges() + (long)m.nFaces() == chi && m.nBoundaryLoops() == nB, "edge adjustment keeps the topology and compresses the mesh");
  if (!changed) { size_t i = 0; for (Edge e : m.edges()) EQ(elen(g, e), before[i++], "an unchanged mesh keeps its positions");
    if (!m.hasBoundary()) for (Edge e : m.edges()) if (may[e] && elen(g, e) < .5 * p->want(e) * (1 - p->gap())) { // collapsing must fold some neighbouring triangle, or be impossible
      Vertex v[2] = {e.halfedge().tailVertex(), e.halfedge().tipVertex()}; Vector3 c = p->half(e); bool folds = false;
      for (int s = 0; s < 2; s++) for (Halfedge h : v[s].outgoingHalfedges()) { Halfedge l = h.next(); if (l.tailVertex() == v[1 - s] || l.tipVertex() == v[1 - s]) continue;
        Halfedge t = l.twin(); Vector3 a = g.vertexPositions[t.tailVertex()], b = g.vertexPositions[t.tipVertex()], d = g.vertexPositions[t.next().tipVertex()];
        folds |= PI - ang(cross(b - a, d - a), cross(b - c, a - c)) < 2; }
      if (!folds) { auto m2 = m.copy(); gs_assert(m2->collapseEdgeTriangular(m2->edge(e.getIndex())) == Vertex(), "edge adjustment collapses every short edge unless that folds the surface or is impossible"); }
    } }
}
GS_HARNESS(adjust) { static const VS M{4, 12, 2, 0, 7}; adjust(M[gs_choose("mesh", gs_tier() ? 5 : 3)]); }

// results depend on the mesh and its positions only, not on quantities computed before an earlier change
GS_HARNESS(again) {
  gs_mode_real(); static const VS M{4, 12, 2}; size_t mesh = M[gs_choose("mesh", gs_tier() ? 3 : 1)]; auto mp = catMesh(mesh); ManifoldSurfaceMesh& m = *mp; VertexPositionGeometry g(m); place(m, g, mesh, 1);
  RemeshOptions o1; o1.targetEdgeLength = 1; o1.curvatureAdaptation = gs_choose("earlier", 2) ? .25 : 0; adjustEdgeLengths(m, g, o1);
  auto m2 = m.copy(); VertexPositionGeometry g2(*m2); for (Vertex v : m.vertices()) g2.vertexPositions[m2->vertex(v.getIndex())] = g.vertexPositions[v];
  RemeshOptions o; o.targetEdgeLength = gs_double("target", .75); gs_assume(o.targetEdgeLength > 0); o.curvatureAdaptation = .5;
  bool a = adjustEdgeLengths(m, g, o), b = adjustEdgeLengths(*m2, g2, o);
  gs_assert(a == b && m.nVertices() == m2->nVertices() && m.nEdges() == m2->nEdges(), "curvature-adapted adjustment depends on the current mesh only");
  for (Vertex v : m.vertices()) eq3(g.vertexPositions[v], g2.vertexPositions[m2->vertex(v.getIndex())], "curvature-adapted adjustment depends on the current mesh only");
}
// a negative target is relative to the mean edge length
static void relative(bool whole) {
  gs_mode_real(); static const VS M{4, 12, 2}; size_t mesh = M[gs_choose("mesh", gs_tier() ? 3 : 2)]; auto mp = catMesh(mesh); ManifoldSurfaceMesh& m = *mp; VertexPositionGeometry g(m); place(m, g, mesh, 1);
  double mean = 0; for (Edge e : m.edges()) mean += elen(g, e); mean /= (double)m.nEdges();
  double r = gs_double("ratio", .5); gs_assume(r > .125); gs_assume(r < 3);
  auto m2 = m.copy(); VertexPositionGeometry g2(*m2); for (Vertex v : m.vertices()) g2.vertexPositions[m2->vertex(v.getIndex())] = g.vertexPositions[v];
  RemeshOptions o; o.maxIterations = 1; o.targetEdgeLength = -r; RemeshOptions o2 = o; o2.targetEdgeLength = r * mean; o.smoothStyle = o2.smoothStyle = RemeshSmoothStyle::Laplacian;
  if (whole) { remesh(m, g, o); remesh(*m2, g2, o2); } else { adjustEdgeLengths(m, g, o); adjustEdgeLengths(*m2, g2, o2); }
  gs_assert(m.nVertices() == m2->nVertices() && m.nEdges() == m2->nEdges(), "a negative target length means a multiple of the mean edge length");
  for (Vertex v : m.vertices()) eq3(g.vertexPositions[v], g2.vertexPositions[m2->vertex(v.getIndex())], "a negative target length means a multiple of the mean edge length");
  checkValid(m, take(m, "after remeshing"), "after remeshing");
}
GS_HARNESS(relrem) { relative(true); }
GS_HARNESS(reladj) { relative(false); }

// ---- extrinsic Delaunay flips
static double apex(VertexPositionGeometry& g, Halfedge h) { Vector3 a = g.vertexPositions[h.tailVertex()], b = g.vertexPositions[h.tipVertex()], c = g.vertexPositions[h.next().tipVertex()]; return ang(a - c, b - c); }
static double bad(VertexPositionGeometry& g, Edge e) { return apex(g, e.halfedge()) + apex(g, e.halfedge().twin()) - PI; }
struct Flips : EdgeFlipPolicy { VertexPositionGeometry& g; size_t n = 0; Flips(VertexPositionGeometry& g_) : g(g_) {}
  void beforeEdgeFlip(const Edge& e) override { gs_assert(!e.isBoundary() && bad(g, e) > -1e-5, "only edges with opposite angles above 180 degrees are flipped"); n++; } };
GS_HARNESS(fixdel) {
  gs_mode_real(); static const VS M{12, 4, 2, 7, 1}; size_t mesh = M[gs_choose("mesh", 5)]; auto mp = catMesh(mesh); ManifoldSurfaceMesh& m = *mp; VertexPositionGeometry g(m); place(m, g, mesh, gs_choose("bumpy", 2));
  size_t pre = gs_choose("flip", 4); if (pre) { size_t k = 0; for (Edge e : m.edges()) if (!e.isBoundary() && k++ % 3 == pre - 1) m.flip(e); } // start from worse triangulations
  EdgeData<bool> may(m); size_t nSym = gs_tier() ? 6 : 3, k = 0; for (Edge e : m.edges()) { may[e] = e.isBoundary() || k >= nSym ? true : gs_bool("may"); if (!e.isBoundary()) k++; }
  auto before = snap(m, g); Abs a = take(m, "before"); Flips* p = new Flips(g); size_t n;
  if (gs_choose("managed", 2)) { MutationManager mm(m, g); mm.setFlippableEdges(may); mm.registerPolicy(p); n = fixDelaunay(m, g, mm); gs_assert(n == p->n, "the number of flips is reported"); }
  else { delete p; for (Edge e : m.edges()) may[e] = true; n = fixDelaunay(m, g); }
  Abs b = take(m, "after"); checkValid(m, b, "after flips"); auto after = snap(m, g);
  gs_assert(a.cV() == b.cV() && a.cE() == b.cE() && a.cF() == b.cF(), "flips keep all counts"); for (size_t i = 0; i < before.size(); i++) eq3(before[i], after[i], "flips leave the positions alone");
  if (!n) gs_assert(a.next == b.next && a.vert == b.vert, "no flips, no change");
  for (Edge e : m.edges()) if (!e.isBoundary() && may[e] && bad(g, e) > 1e-5 && n < 100 * m.nVertices()) { auto c = m.copy(); gs_assert(!c->flip(c->edge(e.getIndex())), "every edge that may be flipped ends up Delaunay"); }
}

// ---- tangential smoothing
static void smooth(bool lap) {
  gs_mode_real(); static const VS M{12, 4, 2, 7, 1}; size_t mesh = M[gs_choose("mesh", gs_tier() ? 5 : 3)]; auto mp = catMesh(mesh); ManifoldSurfaceMesh& m = *mp; VertexPositionGeometry g(m); place(m, g, mesh, gs_choose("bumpy", 2));
  auto bc = (RemeshBoundaryCondition)gs_choose("boundary", 3); double step = .5; bool any = gs_choose("any step", 2); if (any) { step = gs_double("step", .75); gs_assume(step >= 0); gs_assume(step <= 4); } MutationManager mm(m, g);
  VertexData<bool> may(m, true); size_t keep = gs_choose("held", 3); if (keep) { size_t k = 0; for (Vertex v : m.vertices()) may[v] = k++ % 3 != keep; mm.setRepositionableVertices(may); }
  EdgeData<bool> flip(m, true); bool noflip = gs_choose("unflippable", 2); if (noflip) { flip[m.edge(m.nEdges() / 2)] = false; mm.setFlippableEdges(flip); }
  auto p = snap(m, g); double total = 0; std::vector<Vector3> want = p;
  auto P = [&](Vertex v) { return p[v.getIndex()]; };
  for (Vertex v : m.vertices()) {
    Vector3 n{0, 0, 0}, d{0, 0, 0}, t{0, 0, 0}, c{0, 0, 0}; double A = 0; size_t deg = 0;
    for (Halfedge h : v.outgoingHalfedges()) {
      Vector3 u = P(h.tipVertex()) - P(v); d += P(h.tipVertex()); deg++;
      if (h.edge().isBoundary()) { Vector3 q = P(h.edge().halfedge().tipVertex()) - P(h.edge().halfedge().tailVertex()); t += q / q.norm(); }
      if (!h.isInterior()) continue;
      Vector3 w = P(h.next().tipVertex()) - P(v), cr = cross(u, w); double ar = cr.norm() / 2; n += ang(u, w) * (cr / cr.norm());
      bool plain = false; for (Edge e : h.face().adjacentEdges()) plain |= e.isBoundary() || !flip[e];
      Vector3 cc; if (plain) cc = (u + w) / 3.; else cc = (u.norm2() * cross(w, cr) + w.norm2() * cross(cr, u)) / (2 * cr.norm2());  // circumcentre relative to v
      if (!plain) EQ((cc - u).norm(), cc.norm(), "oracle: circumcentre"); c += ar * cc; A += ar;
    }
    d = lap ? d / (double)deg - P(v) : c / (2 * A); n /= n.norm();
    Vector3 o = d - n * dot(n, d);
    if (v.isBoundary()) { if (bc == RemeshBoundaryCondition::Fixed) o = {0, 0, 0}; if (bc == RemeshBoundaryCondition::Tangential) { t /= t.norm(); o = t * dot(t, d); } }
    if (may[v]) { want[v.getIndex()] += step * o; total += step * o.norm(); }
  }
  double r = lap ? smoothByLaplacian(m, g, mm, step, bc) : smoothByCircumcenter(m, g, mm, step, bc);
  for (Vertex v : m.vertices()) for (int k = 0; k < 3; k++) { double q = g.vertexPositions[v][k] - want[v.getIndex()][k]; gs_assert(q < 1e-6 && q > -1e-6, "smoothing moves every vertex tangentially by the step towards its target, within its constraints"); }
  if (!any) EQ(r, total / (double)m.nVertices(), "smoothing returns the average distance moved");
}
GS_HARNESS(smoothlap) { smooth(true); }
GS_HARNESS(smoothcc) { smooth(false); }
