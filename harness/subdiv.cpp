// Subdivision: connectivity and positions of the refined mesh, from the base mesh's faces and the textbook rules.
#include "geo.h"
#include "geometrycentral/surface/subdivide.h"
template <typename F> static bool throws(F f) { try { f(); } catch (std::exception&) { return true; } return false; }
typedef std::vector<size_t> VS;
typedef std::pair<size_t, size_t> PE;
static PE pe(size_t a, size_t b) { return a < b ? PE{a, b} : PE{b, a}; }
struct Base { // the mesh before: faces as cycles of vertex ids
  std::vector<VS> f; std::vector<Vector3> p; std::map<PE, VS> ef; std::map<size_t, VS> vf; std::map<size_t, std::set<size_t>> nb; std::map<std::pair<size_t, size_t>, size_t> corner; // (previous, vertex) -> face
  Vector3 fp(size_t k) const { Vector3 s{0, 0, 0}; for (size_t v : f[k]) s += p[v]; return s / (double)f[k].size(); }
  bool be(PE e) const { return ef.at(e).size() == 1; }
  std::vector<PE> edgesOf(size_t v) const { std::vector<PE> r; for (auto& x : ef) if (x.first.first == v || x.first.second == v) r.push_back(x.first); return r; }
  bool bv(size_t v) const { for (PE e : edgesOf(v)) if (be(e)) return true; return false; }
};
static Base base(SurfaceMesh& m, VertexPositionGeometry& g, VertexData<size_t>& id) {
  Base b; size_t k = 0; for (Vertex v : m.vertices()) { id[v] = k++; b.p.push_back(g.inputVertexPositions[v]); }
  for (Face f : m.faces()) { VS c; for (Vertex v : f.adjacentVertices()) c.push_back(id[v]); size_t n = b.f.size(); for (size_t i = 0; i < c.size(); i++) { size_t a = c[i], d = c[(i + 1) % c.size()]; b.ef[pe(a, d)].push_back(n); b.vf[a].push_back(n); b.nb[a].insert(d); b.nb[d].insert(a); b.corner[{a, d}] = n; } b.f.push_back(c); }
  return b;
}
static void place(ManifoldSurfaceMesh& m, VertexPositionGeometry& g) { size_t k = 0; for (Vertex v : m.vertices()) { double c[3]; for (int i = 0; i < 3; i++) { c[i] = gs_double("x", .3 + .37 * ((k * 7) % 11) + i * .11); k++; } g.inputVertexPositions[v] = {c[0], c[1], c[2]}; } }
// Loop subdivision projects the new point onto its edge, which is not linear: one coordinate of one vertex is free
static void placeOne(ManifoldSurfaceMesh& m, VertexPositionGeometry& g) {
  size_t k = 0, c = gs_choose("coordinate", 3), who = gs_choose("vertex", m.nVertices()), i = 0; double x = gs_double("x", .4);
  for (Vertex v : m.vertices()) { double q[3]; for (int j = 0; j < 3; j++) { q[j] = .25 + .375 * ((k * 7) % 11) + j * .125; k++; } if (i++ == who) q[c] = x; g.inputVertexPositions[v] = {q[0], q[1], q[2]}; }
}
static void same3(Vector3 a, Vector3 b, const char* w) { eq3(a, b, w); }
enum Kind { LINEAR, CATMULL, LOOPS };
// refined mesh: sub-face for every corner (previous p, v, next n): quad (v, point of vn, centre, point of pv), or triangle (v, point of vn, point of pv)
static void refine(Kind kind, size_t mi) {
  gs_mode_real(); auto sm = geoMesh(mi); ManifoldSurfaceMesh& m = *static_cast<ManifoldSurfaceMesh*>(sm.get()); VertexPositionGeometry g(m); if (kind == LOOPS) placeOne(m, g); else place(m, g); VertexData<size_t> id(m, NONE); Base b = base(m, g, id);
  g.requireVertexPositions();
  if (kind == LOOPS) { bool tri = true; for (auto& f : b.f) tri &= f.size() == 3; if (!tri) { gs_assert(throws([&] { loopSubdivide(m, g); }), "Loop subdivision needs triangles"); return; } }
  if (kind == LINEAR) linearSubdivide(m, g); else if (kind == CATMULL) catmullClarkSubdivide(m, g); else loopSubdivide(m, g);
  Abs a = takeValid(m, "subdivided mesh"); gs_assert(m.isCompressed(), "the refined mesh is compressed");
  size_t corners = 0; for (auto& f : b.f) corners += f.size();
  gs_assert(a.cV() == b.p.size() + b.ef.size() + (kind == LOOPS ? 0 : b.f.size()) && a.cF() == corners + (kind == LOOPS ? b.f.size() : 0), "one new vertex for every edge (and face), one face for every corner (and face)");
  std::map<size_t, PE> onEdge; std::map<size_t, size_t> inFace; std::vector<Vertex> orig(b.p.size()); size_t nOrig = 0;
  for (Vertex v : m.vertices()) {
    if (id[v] != NONE) { gs_assert(id[v] < orig.size(), "vertices keep their data"); orig[id[v]] = v; nOrig++; continue; }
    std::vector<size_t> o; for (Vertex w : v.adjacentVertices()) if (id[w] != NONE) o.push_back(id[w]);
    if (o.size() == 2) { bool is = b.ef.count(pe(o[0], o[1])); gs_assert(is, "an edge vertex joins the ends of an old edge"); if (is) onEdge[v.getIndex()] = pe(o[0], o[1]); }
    else gs_assert(o.empty() && kind != LOOPS, "new vertices lie on edges or in faces");
  }
  gs_assert(nOrig == b.p.size() && onEdge.size() == b.ef.size(), "every old vertex is kept and every old edge has a vertex"); std::set<PE> es; for (auto& x : onEdge) es.insert(x.second); gs_assert(es.size() == b.ef.size(), "every old edge has its own vertex");
  std::set<std::pair<size_t, size_t>> seen; size_t middle = 0;
  for (Face f : m.faces()) {
    Halfedge h = f.halfedge(); gs_assert(f.degree() == (kind == LOOPS ? 3 : 4), kind == LOOPS ? "all faces are triangles" : "all faces are quads"); size_t k = 0; while (k < 4 && id[h.vertex()] == NONE) { h = h.next(); k++; }
    if (k == 4 && kind == LOOPS) { middle++; VS vs; for (Vertex v : f.adjacentVertices()) { gs_assert(onEdge.count(v.getIndex()), "the middle triangle joins three edge vertices"); } (void)vs; Halfedge t = f.halfedge(); PE e0 = onEdge[t.vertex().getIndex()], e1 = onEdge[t.next().vertex().getIndex()], e2 = onEdge[t.next().next().vertex().getIndex()]; std::set<size_t> u{e0.first, e0.second, e1.first, e1.second, e2.first, e2.second}; bool ok = false; for (auto& F : b.f) { bool in = u.size() == 3; for (size_t v : F) in &= u.count(v) > 0; for (size_t i = 0; in && i < 3; i++) ok |= e0 == pe(F[i], F[(i + 1) % 3]) && e1 == pe(F[(i + 1) % 3], F[(i + 2) % 3]); } gs_assert(ok, "the middle triangle joins the edge vertices of one old triangle"); continue; }
    gs_assert(k < 4, "a refined face has an old corner"); if (k == 4) continue;
    size_t v = id[h.vertex()]; Vertex x = h.next().vertex(), y = (kind == LOOPS ? h.next().next() : h.next().next().next()).vertex(); bool known = onEdge.count(x.getIndex()) && onEdge.count(y.getIndex()); gs_assert(known, "a refined face joins a corner to the vertices of its two edges"); if (!known) continue;
    PE ex = onEdge[x.getIndex()], ey = onEdge[y.getIndex()]; size_t nx = ex.first == v ? ex.second : ex.first, pv = ey.first == v ? ey.second : ey.first; auto c1 = b.corner.find({pv, v}), c2 = b.corner.find({v, nx}); bool is = (ex.first == v || ex.second == v) && (ey.first == v || ey.second == v) && c1 != b.corner.end() && c2 != b.corner.end() && c1->second == c2->second; gs_assert(is, "a refined face is a corner of an old face"); if (!is) continue;
    gs_assert(seen.insert({pv, v}).second, "each old corner has one refined face");
    if (kind != LOOPS) { Vertex c = h.next().next().vertex(); gs_assert(id[c] == NONE && !onEdge.count(c.getIndex()), "a quad's fourth vertex is the face's vertex"); auto it = inFace.find(c1->second); if (it == inFace.end()) inFace[c1->second] = c.getIndex(); else gs_assert(it->second == c.getIndex(), "the quads of a face share its vertex"); }
  }
  gs_assert(seen.size() == corners && (kind != LOOPS || middle == b.f.size()), "every old corner has a refined face");
  // positions
  VertexData<Vector3>& q = g.inputVertexPositions; g.requireVertexPositions(); gs_assert(q.size() >= m.nVertices(), "positions for all vertices");
  for (auto& x : inFace) same3(q[m.vertex(x.second)], b.fp(x.first), "a face vertex lies at the average of its face's corners");
  for (auto& x : onEdge) {
    PE e = x.second; Vector3 mid = (b.p[e.first] + b.p[e.second]) / 2., want = mid;
    if (kind == CATMULL && !b.be(e)) want = (b.p[e.first] + b.p[e.second] + b.fp(b.ef[e][0]) + b.fp(b.ef[e][1])) / 4.;
    if (kind == LOOPS && !b.be(e)) { Vector3 o{0, 0, 0}; for (size_t F : b.ef[e]) for (size_t v : b.f[F]) if (v != e.first && v != e.second) o += b.p[v]; want = (b.p[e.first] + b.p[e.second]) * (3. / 8) + o / 8.; }
    same3(q[m.vertex(x.first)], want, "position of an edge vertex");
  }
  for (size_t v = 0; v < b.p.size(); v++) {
    Vector3 got = q[orig[v]], want = b.p[v];
    if (kind == CATMULL) {
      if (b.bv(v)) { want = b.p[v] * .75; for (PE e : b.edgesOf(v)) if (b.be(e)) want += (b.p[e.first == v ? e.second : e.first]) / 8.; }
      else { double n = b.nb[v].size(); Vector3 F{0, 0, 0}, R{0, 0, 0}; for (size_t f : b.vf[v]) F += b.fp(f) / n; for (PE e : b.edgesOf(v)) R += (b.p[e.first] + b.p[e.second]) / (2 * n); want = (F + R * 2 + b.p[v] * (n - 3)) / n; }
    }
    if (kind == LOOPS) { if (b.bv(v)) continue; double n = b.nb[v].size(), u = n == 3 ? 3. / 16 : 3. / (8 * n); want = b.p[v] * (1 - n * u); for (size_t w : b.nb[v]) want += b.p[w] * u; }
    same3(got, want, "position of an old vertex");
  }
  for (Vertex v : m.vertices()) same3(g.vertexPositions[v], q[v], "derived quantities are refreshed");
}
static void pick(Kind k, std::vector<size_t> quick, std::vector<size_t> more) { if (gs_tier()) quick.insert(quick.end(), more.begin(), more.end()); refine(k, quick[gs_choose("mesh", quick.size())]); }
GS_HARNESS(linear) { pick(LINEAR, {0, 1, 5, 9, 6, 7, 102}, {2, 3, 4, 8, 10, 11, 12, 100, 16, 17}); }
GS_HARNESS(catmull) { pick(CATMULL, {0, 1, 5, 9, 6, 7, 102}, {2, 3, 4, 8, 10, 11, 12, 100, 16, 17}); }
GS_HARNESS(loop) { pick(LOOPS, {0, 1, 2, 4, 9, 102}, {3, 7, 8, 10, 11, 12, 100, 15}); }
