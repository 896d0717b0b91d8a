// MutationManager: each operation is the mesh operation plus position update, guarded by constraints, with callbacks.
#include "mut_common.h"
#include "geometrycentral/surface/mutation_manager.h"
#include <cstring>
using geometrycentral::Vector3;
static uint64_t bits(double d) { uint64_t u; memcpy(&u, &d, 8); return u; }
static bool beq(Vector3 a, Vector3 b) { return !((bits(a.x) ^ bits(b.x)) | (bits(a.y) ^ bits(b.y)) | (bits(a.z) ^ bits(b.z))); }
static double symd(const char* b, size_t i) { char nm[16]; snprintf(nm, sizeof nm, "%s%zu", b, i); return gs_double(nm, 0.25 + i); }
static bool weak(const Abs& x, const Abs& b) { return sameIgnoringReps(x, b) && x.ehe == b.ehe; }
struct Ev { char k; bool after; size_t el, el2; double t; std::vector<double> w; Abs a; int who; };
typedef std::vector<Ev> Log;
struct All : gcs::VertexRepositionPolicy, gcs::EdgeFlipPolicy, gcs::EdgeSplitPolicy, gcs::EdgeCollapsePolicy, gcs::FaceSplitPolicy {
  ManifoldSurfaceMesh& m; Log& l; int who; int* gone;
  All(ManifoldSurfaceMesh& m_, Log& l_, int w, int* g) : m(m_), l(l_), who(w), gone(g) {}
  ~All() { (*gone)++; }
  void e(char k, bool af, size_t x, size_t y, double t, std::vector<double> w = {}) { l.push_back(Ev{k, af, x, y, t, w, take(m, "inside a callback"), who}); }
  Vector3 off{0, 0, 0};
  void beforeVertexReposition(const Vertex& v, const Vector3& o) override { off = o; e('r', 0, v.getIndex(), 0, 0); }
  void beforeEdgeFlip(const Edge& x) override { e('f', 0, x.getIndex(), 0, 0); }
  void afterEdgeFlip(const Edge& x) override { e('f', 1, x.getIndex(), 0, 0); }
  void beforeEdgeSplit(const Edge& x, const double& t) override { e('s', 0, x.getIndex(), 0, t); }
  void afterEdgeSplit(const Halfedge& x, const Halfedge& y, const double& t) override { e('s', 1, x.getIndex(), y.getIndex(), t); }
  void beforeEdgeCollapse(const Edge& x, const double& t) override { e('c', 0, x.getIndex(), 0, t); }
  void afterEdgeCollapse(const Vertex& x, const double& t) override { e('c', 1, x.getIndex(), 0, t); }
  void beforeFaceSplit(const Face& x, const std::vector<double>& w) override { e('p', 0, x.getIndex(), 0, 0, w); }
  void afterFaceSplit(const Vertex& x, const std::vector<double>& w) override { e('p', 1, x.getIndex(), 0, 0, w); }
};
struct OnlySplit : gcs::EdgeSplitPolicy { int* n; OnlySplit(int* n_) : n(n_) {} void afterEdgeSplit(const Halfedge&, const Halfedge&, const double&) override { ++*n; } };
static void run(size_t steps) {
  static const VS M{0, 2, 3, 4, 12, 13}; auto mp = catMesh(M[gs_choose("mesh", steps > 1 ? (gs_tier() ? 3 : 1) : gs_tier() ? 6 : 4)]); ManifoldSurfaceMesh& m = *mp;
  if (steps == 1) { size_t p = gs_choose("pre", 2); if (p) { for (Edge e : m.edges()) { Vertex v = m.collapseEdgeTriangular(e); if (v != Vertex()) break; } } } // leaves dead elements
  gcs::VertexPositionGeometry g(m); size_t i = 0; for (Vertex v : m.vertices()) { g.vertexPositions[v] = Vector3{symd("x", i), symd("y", i), symd("z", i)}; i++; }
  bool geo = gs_choose("geo", 2);
  Log log; int gone = 0, simple = 0, splits = 0;
  std::vector<size_t> got; // data handed from the pre to the post handler
  std::unique_ptr<gcs::MutationManager> mmp(geo ? new gcs::MutationManager(m, g) : new gcs::MutationManager(m)); gcs::MutationManager& mm = *mmp;
  All* p1 = new All(m, log, 1, &gone); All* p2 = new All(m, log, 2, &gone);
  auto h1 = mm.registerPolicy(p1); auto h2 = mm.registerPolicy(p2); mm.registerPolicy(new OnlySplit(&splits));
  mm.registerEdgeFlipHandlers([&](Edge e) -> size_t { return e.getIndex() + 100; }, [&](Edge e, size_t d) { got.push_back(d); got.push_back(e.getIndex()); });
  mm.registerEdgeSplitHandlers([&](Edge e, double) -> size_t { return e.getIndex() + 200; }, [&](Halfedge a, Halfedge b, double, size_t d) { got.push_back(d); got.push_back(a.getIndex()); got.push_back(b.getIndex()); });
  mm.registerEdgeCollapseHandlers([&](Edge e, double) -> size_t { return e.getIndex() + 300; }, [&](Vertex v, double, size_t d) { got.push_back(d); got.push_back(v.getIndex()); });
  mm.registerFaceSplitHandlers([&](Face f, std::vector<double>) -> size_t { return f.getIndex() + 400; }, [&](Vertex v, size_t d) { got.push_back(d); got.push_back(v.getIndex()); });
  mm.registerEdgeSplitPostHandler([&](Halfedge, Halfedge, double) { simple++; }); mm.registerEdgeFlipPostHandler([&](Edge) { simple++; }); mm.registerEdgeCollapsePostHandler([&](Vertex, double) { simple++; }); mm.registerFaceSplitPostHandler([&](Vertex) { simple++; });
  mm.registerEdgeSplitPreHandler([&](Edge, double) { simple += 100; }); mm.registerEdgeFlipPreHandler([&](Edge) { simple += 100; }); mm.registerEdgeCollapsePreHandler([&](Edge, double) { simple += 100; }); mm.registerFaceSplitPreHandler([&](Face, std::vector<double>) { simple += 100; });
  int alive = 2;
  for (size_t st = 0; st < steps; st++) {
    Abs a = takeValid(m, "before"); log.clear(); got.clear(); simple = splits = 0;
    std::map<size_t, Vector3> pos; for (Vertex v : m.vertices()) pos[v.getIndex()] = g.vertexPositions[v];
    auto nm = [&](const char* b) { static char q[24]; snprintf(q, sizeof q, "%s%zu", b, st); return (const char*)q; };
    size_t k = gs_choose(nm("op"), 5), lim = steps > 1 ? (gs_tier() ? 2 : 1) : 0; auto cut = [&](VS s) { VS r; size_t n = lim && lim < s.size() ? lim : s.size(); for (size_t j = 0; j < n; j++) r.push_back(s[j * s.size() / n]); return r; };
    size_t cons = gs_choose(nm("constraint"), k == 2 ? 4 : 3); // 0 none set, 1 allowed (others forbidden), 2 forbidden, 3 endpoint fixed (collapse)
    size_t el, ov = 0; double t = symd("t", st); Vector3 np{symd("n", 3 * st), symd("n", 3 * st + 1), symd("n", 3 * st + 2)}, want = np;
    auto E = [&]() { el = pick(nm("el"), cut(liveE(m))); return Edge(&m, el); };
    mm.clearFlippableEdges(); mm.clearSplittableEdges(); mm.clearCollapsibleEdges(); mm.clearSplittableFaces(); mm.clearRepositionableVertices();
    auto edgeCons = [&](int which) { gcs::EdgeData<bool> c(m, cons == 2); c[Edge(&m, el)] = cons == 1; bool d = which == 0; if (which == 0) mm.setFlippableEdges(c, d); else if (which == 1) mm.setSplittableEdges(c, d); else mm.setCollapsibleEdges(c, d); };
    bool done = false, allowed = cons != 2 && cons != 3; size_t ret = NONE; auto c = m.copy(); Abs exp; bool can = false; char kind = 0;
    auto lerp = [&](Edge e, double s) { Vector3 u = pos[e.halfedge().tailVertex().getIndex()], v = pos[e.halfedge().tipVertex().getIndex()]; return (1. - s) * u + s * v; };
    std::vector<double> w;
    switch (k) {
    case 0: { Edge e = E(); kind = 'f'; if (cons) edgeCons(0); can = c->flip(Edge(c.get(), el)); exp = take(*c, "expected"); done = mm.flipEdge(e); break; }
    case 1: { Edge e = E(); kind = 's'; if (cons) edgeCons(1); ov = gs_choose(nm("overload"), 2); can = true; gcs::EdgeData<bool> fl(m, false), co(m, true); bool f0 = cons == 1 && gs_choose(nm("flippable"), 2); fl[e] = f0; if (cons == 1) { mm.setFlippableEdges(fl, true); mm.setCollapsibleEdges(co, false); }
      Halfedge x = c->splitEdgeTriangular(Edge(c.get(), el)); exp = take(*c, "expected"); if (ov == 0) want = lerp(e, t);
      Halfedge r = ov == 0 ? mm.splitEdge(e, t) : mm.splitEdge(e, t, np); done = r != Halfedge(); if (done) { ret = r.getIndex(); gs_assert(ret == x.getIndex(), "splitEdge returns the documented halfedge");
        if (cons == 1) { Edge u = r.edge(), v = r.prevOrbitFace().twin().prevOrbitFace().edge(); gs_assert(mm.maySplitEdge(u) && mm.maySplitEdge(v) && mm.mayFlipEdge(u) == f0 && mm.mayFlipEdge(v) == f0 && mm.mayCollapseEdge(u) && mm.mayCollapseEdge(v), "splitEdge: both halves inherit the constraints of the edge"); for (Edge q : r.vertex().adjacentEdges()) if (q != u && q != v) gs_assert(!mm.maySplitEdge(q) && mm.mayFlipEdge(q) && !mm.mayCollapseEdge(q), "splitEdge: other new edges take the constraints' default"); } }
      break; }
    case 2: { Edge e = E(); kind = 'c'; gs_assume(simplicial(a)); if (cons == 1 || cons == 2) edgeCons(2); if (cons == 3) { gcs::VertexData<bool> vc(m, true); vc[gs_choose(nm("end"), 2) ? e.firstVertex() : e.secondVertex()] = false; mm.setRepositionableVertices(vc); }
      ov = gs_choose(nm("overload"), 2); if (ov == 0) want = lerp(e, t); Vertex x = c->collapseEdgeTriangular(Edge(c.get(), el)); can = x != Vertex(); exp = take(*c, "expected"); Vertex r = ov == 0 ? mm.collapseEdge(e, t) : mm.collapseEdge(e, t, np); done = r != Vertex(); if (done) { ret = r.getIndex(); gs_assert(ret == x.getIndex(), "collapseEdge returns the surviving vertex"); } break; }
    case 3: { el = pick(nm("el"), cut(liveF(m))); Face f(&m, el); kind = 'p'; if (cons) { gcs::FaceData<bool> fc(m, cons == 2); fc[f] = cons == 1; mm.setSplittableFaces(fc, true); }
      w = {symd("w", 3 * st), symd("w", 3 * st + 1), symd("w", 3 * st + 2)}; can = true; ov = gs_choose(nm("overload"), 2); if (ov == 0) { want = Vector3::zero(); size_t q = 0; for (size_t h : a.cycle(a.fhe[el])) want += w[q++] * pos[a.vert[h]]; }
      Vertex x = c->insertVertex(Face(c.get(), el)); exp = take(*c, "expected"); Vertex r = ov == 0 ? mm.splitFace(f, w) : mm.splitFace(f, w, np); done = r != Vertex(); if (done) { ret = r.getIndex(); gs_assert(ret == x.getIndex(), "splitFace returns the new vertex"); } break; }
    case 4: { if (!geo) { gcs::VertexData<bool> z; return; } el = pick(nm("el"), cut(liveV(m))); kind = 'r'; if (cons) { gcs::VertexData<bool> vc(m, cons == 2); vc[Vertex(&m, el)] = cons == 1; mm.setRepositionableVertices(vc); } can = true; exp = a; want = pos[el] + np; done = mm.repositionVertex(Vertex(&m, el), np); break; }
    }
    gs_assert(done == (can && allowed), "the operation is carried out exactly if the constraints and the connectivity allow it");
    Abs b = takeValid(m, "after");
    if (!done) { gs_assert(weak(a, b), "a refused operation leaves the mesh unchanged"); for (auto& e : log) gs_assert(e.k == 'c' && !e.after && allowed, "no callbacks for an operation forbidden by constraints"); }
    else {
      gs_assert(weak(exp, b), "the mesh ends up as after the corresponding mesh operation");
      gs_assert(log.size() == (k == 4 ? 1u : 2u) * alive, "every registered policy is called once before and once after");
      for (auto& e : log) { gs_assert(e.k == kind, "only the callbacks of the operation are invoked"); gs_assert(weak(e.after ? b : a, e.a), "callbacks see the mesh as it was before / is after the operation");
        if (!e.after) gs_assert(e.el == el, "the callback before gets the element"); else if (k >= 1 && k <= 3) gs_assert(e.el == ret, "the callback after gets the result"); else gs_assert(e.el == el, "the callback after gets the element");
        if (k == 1 || k == 2) gs_assert(bits(e.t) == bits(t), "callbacks get the split / collapse parameter");
        if (k == 1 && e.after) gs_assert(b.vert[e.el] == b.vert[e.el2] && b.tip(e.el) == a.tip(a.ehe[el]) && b.tip(e.el2) == a.vert[a.ehe[el]], "after a split the callback gets the two halfedges leaving the new vertex towards the old tip and tail");
        if (k == 3) { gs_assert(e.w.size() == 3, "callbacks get the barycentric coordinates"); for (int q = 0; q < 3; q++) gs_assert(bits(e.w[q]) == bits(w[q]), "callbacks get the barycentric coordinates"); }
        if (k == 4) gs_assert(beq((e.who == 1 ? p1 : p2)->off, np), "the reposition callback gets the offset"); }
      if (k < 4) { gs_assert(got.size() >= 2 && got[0] == 100 * (k + 1) + el, "simple handlers: the data of the pre handler reaches the post handler"); gs_assert(simple == 101, "simple handlers: single handlers are called"); gs_assert(splits == (k == 1), "a policy is called for its own operation only"); }
    }
    size_t nw = !done ? NONE : k == 1 ? b.vert[ret] : k == 2 || k == 3 ? ret : k == 4 ? el : NONE;
    for (Vertex v : m.vertices()) { size_t id = v.getIndex(); if (geo && id == nw) gs_assert(beq(g.vertexPositions[v], want), "the vertex is placed at the given or interpolated position"); else if (pos.count(id)) gs_assert(beq(g.vertexPositions[v], pos[id]), "no other vertex moves"); }
    if (st + 1 < steps && alive == 2 && gs_choose(nm("remove"), 2)) { if (gs_choose(nm("first"), 2)) h1.remove(); else h2.remove(); alive = 1; gs_assert(gone == 1, "removing a policy deletes it"); }
    static const char* C[] = {"flip", "split", "collapse", "face split", "reposition"}; gs_cover(done ? C[k] : "refused");
  }
}
GS_HARNESS(one) { run(1); }
GS_HARNESS(two) { run(2); }
// positions given instead of parameters: the parameter handed to callbacks locates the given point on the edge
GS_HARNESS(byPosition) {
  auto m = catMesh(gs_choose("mesh", 2) ? 2 : 4); gcs::VertexPositionGeometry g(*m); double X[6][3] = {{0, 0, 0}, {4, 0, 0}, {0, 4, 0}, {-4, 0, 0}, {1, -4, 2}, {2, 3, 5}}; for (Vertex v : m->vertices()) { auto& q = X[v.getIndex()]; g.vertexPositions[v] = Vector3{q[0], q[1], q[2]}; }
  gcs::MutationManager mm(*m, g); double tb = -7, ta = -7; Edge e(m.get(), pick("el", liveE(*m))); double s = gs_choose("quarter", 5) / 4.;
  Vector3 a = g.vertexPositions[e.halfedge().tailVertex()], b = g.vertexPositions[e.halfedge().tipVertex()], p = (1 - s) * a + s * b;
  if (gs_choose("op", 2)) { mm.registerEdgeSplitHandlers([&](Edge, double t) -> int { tb = t; return 0; }, [&](Halfedge, Halfedge, double t, int) { ta = t; }); Halfedge h = mm.splitEdge(e, p); gs_assert(h != Halfedge() && (g.vertexPositions[h.vertex()] - p).norm() < 1e-9, "splitEdge(position) puts the vertex there"); }
  else { mm.registerEdgeCollapseHandlers([&](Edge, double t) -> int { tb = t; return 0; }, [&](Vertex, double t, int) { ta = t; }); Vertex v = mm.collapseEdge(e, p); if (v == Vertex()) { gs_cover("refused"); return; } gs_assert((g.vertexPositions[v] - p).norm() < 1e-9, "collapseEdge(position) puts the vertex there"); }
  gs_assert(std::abs(tb - s) < 1e-9 && std::abs(ta - s) < 1e-9, "callbacks get the parameter of the given position on the edge");
  gs_cover("by position");
}
