// Harness support: abstraction of a mesh through its public navigation API, validity, base states.
#pragma once
#include "gs.h"
#include "geometrycentral/surface/manifold_surface_mesh.h"
#include "geometrycentral/surface/surface_mesh.h"
#include <map>
#include <memory>
#include <set>
#include <vector>
namespace gcs = geometrycentral::surface;
using geometrycentral::INVALID_IND;
using gcs::BoundaryLoop;
using gcs::Corner;
using gcs::Edge;
using gcs::Face;
using gcs::Halfedge;
using gcs::ManifoldSurfaceMesh;
using gcs::SurfaceMesh;
using gcs::Vertex;
typedef std::vector<std::vector<size_t>> Polys;
typedef std::vector<std::vector<std::tuple<size_t, size_t>>> Twins;
static const size_t NONE = (size_t)-1;

// Concrete picture of a manifold mesh, read only through element navigation (he.next(), he.twin(), ...).
struct Abs {
  std::vector<char> H, V, E, F, B;                    // liveness by index
  std::vector<size_t> next, twin, vert, edge, face;   // per halfedge; face = index, or NF + loop index
  std::vector<size_t> vhe, ehe, fhe, bhe;
  size_t nf() const { return F.size(); }
  size_t cH() const { return count(H); }
  size_t cV() const { return count(V); }
  size_t cE() const { return count(E); }
  size_t cF() const { return count(F); }
  size_t cB() const { return count(B); }
  static size_t count(const std::vector<char>& v) { size_t n = 0; for (char c : v) n += c; return n; }
  long chi() const { return (long)cV() - (long)cE() + (long)cF(); }
  bool ext(size_t h) const { return face[h] >= (1u << 20); }
  std::vector<size_t> cycle(size_t h) const { std::vector<size_t> c; size_t x = h; do { c.push_back(x); x = next[x]; } while (x != h && c.size() < 1000); return c; }
  size_t prev(size_t h) const { size_t x = h; for (int i = 0; i < 1000 && next[x] != h; i++) x = next[x]; return x; }
  size_t deg(size_t h) const { return cycle(h).size(); } // degree of the face/loop of h
  std::vector<size_t> outgoing(size_t v) const { std::vector<size_t> r; for (size_t h = 0; h < H.size(); h++) if (H[h] && vert[h] == v) r.push_back(h); return r; }
  size_t tip(size_t h) const { return vert[next[h]]; }
  bool vBoundary(size_t v) const { for (size_t h = 0; h < H.size(); h++) if (H[h] && vert[h] == v && ext(h)) return true; return false; }
  bool eBoundary(size_t e) const { for (size_t h = 0; h < H.size(); h++) if (H[h] && edge[h] == e && ext(h)) return true; return false; }
  size_t facesNear(size_t h0) const { // faces of the component of h0
    std::vector<char> seen(H.size(), 0); std::set<size_t> fs; std::vector<size_t> st{h0}; seen[h0] = 1;
    while (!st.empty()) { size_t x = st.back(); st.pop_back(); if (!ext(x)) fs.insert(face[x]); for (size_t y : {next[x], twin[x]}) if (!seen[y]) { seen[y] = 1; st.push_back(y); } }
    return fs.size();
  }
  size_t components() const {
    std::vector<char> seen(H.size(), 0); size_t n = 0;
    for (size_t s = 0; s < H.size(); s++) if (H[s] && !seen[s]) { n++; std::vector<size_t> st{s}; seen[s] = 1; while (!st.empty()) { size_t x = st.back(); st.pop_back(); for (size_t y : {next[x], twin[x]}) if (!seen[y]) { seen[y] = 1; st.push_back(y); } } }
    return n;
  }
};
static const size_t LOOP = 1u << 20; // Abs.face value of loop b is LOOP + b

// An element index that stays symbolic while the operation under test runs; settle() case-splits it afterwards.
inline size_t& selVar() { static size_t v = 0; return v; }
inline size_t sym(const char* name, const std::vector<size_t>& s) { gs_assume(!s.empty()); selVar() = gs_range(name, 0, s.size() - 1); return s[selVar()]; }
inline size_t settle(size_t x) { gs_fork(selVar()); return gs_fork(x); }
inline Halfedge HE(SurfaceMesh& m, size_t i) { return Halfedge(&m, i); }

#define CK(c, ctx, what) gs_assert((c), (std::string(ctx) + ": " what).c_str())

// Read the mesh. Every index met is checked to be in range and alive.
inline Abs take(ManifoldSurfaceMesh& m, const char* ctx) {
  Abs a;
  size_t nh = m.halfedgeIndexSize(), nv = m.vertexIndexSize(), ne = m.edgeIndexSize(), nf = m.faceIndexSize(), nb = m.boundaryLoopIndexSize();
  CK(nh <= m.nHalfedgesCapacity() && nv <= m.nVerticesCapacity() && ne <= m.nEdgesCapacity() && nf <= m.nFacesCapacity() && nb <= m.nBoundaryLoopsCapacity(), ctx, "index ranges fit within capacities");
  for (size_t i = 0; i < nh; i++) a.H.push_back(!Halfedge(&m, i).isDead());
  for (size_t i = 0; i < nv; i++) a.V.push_back(!Vertex(&m, i).isDead());
  for (size_t i = 0; i < ne; i++) a.E.push_back(!Edge(&m, i).isDead());
  for (size_t i = 0; i < nf; i++) a.F.push_back(!Face(&m, i).isDead());
  for (size_t i = 0; i < nb; i++) a.B.push_back(!BoundaryLoop(&m, i).isDead());
  a.next.assign(nh, NONE); a.twin = a.vert = a.edge = a.face = a.next;
  a.vhe.assign(nv, NONE); a.ehe.assign(ne, NONE); a.fhe.assign(nf, NONE); a.bhe.assign(nb, NONE);
  for (size_t i = 0; i < nh; i++) if (a.H[i]) {
    Halfedge h(&m, i);
    a.next[i] = h.next().getIndex(); a.twin[i] = h.twin().getIndex(); a.vert[i] = h.vertex().getIndex(); a.edge[i] = h.edge().getIndex();
    CK(a.next[i] < nh && a.H[a.next[i]], ctx, "halfedge.next is a live halfedge");
    CK(a.twin[i] < nh && a.H[a.twin[i]], ctx, "halfedge.twin is a live halfedge");
    CK(a.vert[i] < nv && a.V[a.vert[i]], ctx, "halfedge.vertex is a live vertex");
    CK(a.edge[i] < ne && a.E[a.edge[i]], ctx, "halfedge.edge is a live edge");
    if (h.isInterior()) {
      a.face[i] = h.face().getIndex();
      CK(a.face[i] < nf && a.F[a.face[i]], ctx, "halfedge.face is a live face");
    } else {
      size_t b = h.face().asBoundaryLoop().getIndex();
      CK(b < nb && a.B[b], ctx, "exterior halfedge lies in a live boundary loop");
      a.face[i] = LOOP + b;
    }
  }
  for (size_t i = 0; i < nv; i++) if (a.V[i]) { a.vhe[i] = Vertex(&m, i).halfedge().getIndex(); CK(a.vhe[i] < nh && a.H[a.vhe[i]], ctx, "vertex.halfedge is live"); }
  for (size_t i = 0; i < ne; i++) if (a.E[i]) { a.ehe[i] = Edge(&m, i).halfedge().getIndex(); CK(a.ehe[i] < nh && a.H[a.ehe[i]], ctx, "edge.halfedge is live"); }
  for (size_t i = 0; i < nf; i++) if (a.F[i]) { a.fhe[i] = Face(&m, i).halfedge().getIndex(); CK(a.fhe[i] < nh && a.H[a.fhe[i]], ctx, "face.halfedge is live"); }
  for (size_t i = 0; i < nb; i++) if (a.B[i]) { a.bhe[i] = BoundaryLoop(&m, i).halfedge().getIndex(); CK(a.bhe[i] < nh && a.H[a.bhe[i]], ctx, "boundaryLoop.halfedge is live"); }
  return a;
}

// Full manifold-halfedge-mesh validity, in terms of the abstraction and the mesh's own counts.
inline void checkValid(ManifoldSurfaceMesh& m, const Abs& a, const char* ctx) {
  size_t nh = a.H.size();
  CK(a.cH() == m.nHalfedges(), ctx, "nHalfedges counts live halfedges");
  CK(a.cV() == m.nVertices(), ctx, "nVertices counts live vertices");
  CK(a.cE() == m.nEdges(), ctx, "nEdges counts live edges");
  CK(a.cF() == m.nFaces(), ctx, "nFaces counts live faces");
  CK(a.cB() == m.nBoundaryLoops(), ctx, "nBoundaryLoops counts live loops");
  CK(m.nHalfedges() == 2 * m.nEdges(), ctx, "nHalfedges == 2 nEdges");
  size_t ni = 0;
  std::vector<int> in(nh, 0);
  for (size_t h = 0; h < nh; h++) if (a.H[h]) {
    if (!a.ext(h)) ni++;
    in[a.next[h]]++;
    CK(a.twin[h] != h && a.twin[a.twin[h]] == h, ctx, "twin is a fixed-point-free involution");
    CK(a.edge[a.twin[h]] == a.edge[h], ctx, "twins share their edge");
    CK(a.vert[a.next[h]] == a.vert[a.twin[h]], ctx, "next starts where the halfedge ends");
    CK(a.face[a.next[h]] == a.face[h], ctx, "next stays in the face");
    CK(!(a.ext(h) && a.ext(a.twin[h])), ctx, "no edge with both sides exterior");
  }
  CK(ni == m.nInteriorHalfedges() && ni == m.nCorners(), ctx, "nInteriorHalfedges / nCorners count interior halfedges");
  CK(a.cH() - ni == m.nExteriorHalfedges(), ctx, "nExteriorHalfedges counts exterior halfedges");
  for (size_t h = 0; h < nh; h++) if (a.H[h]) CK(in[h] == 1, ctx, "next is a permutation");
  // faces and loops: exactly one next-orbit each, containing .halfedge()
  std::map<size_t, size_t> orbit;
  std::vector<char> seen(nh, 0);
  for (size_t h = 0; h < nh; h++) if (a.H[h] && !seen[h]) { for (size_t x : a.cycle(h)) seen[x] = 1; orbit[a.face[h]]++; }
  for (size_t f = 0; f < a.F.size(); f++) if (a.F[f]) { CK(orbit[f] == 1, ctx, "each face is one cycle of halfedges"); CK(a.face[a.fhe[f]] == f, ctx, "face.halfedge lies in the face"); }
  for (size_t b = 0; b < a.B.size(); b++) if (a.B[b]) { CK(orbit[LOOP + b] == 1, ctx, "each boundary loop is one cycle of halfedges"); CK(a.face[a.bhe[b]] == LOOP + b, ctx, "boundaryLoop.halfedge lies in the loop"); }
  // edges: exactly two halfedges
  std::vector<int> ec(a.E.size(), 0);
  for (size_t h = 0; h < nh; h++) if (a.H[h]) ec[a.edge[h]]++;
  for (size_t e = 0; e < a.E.size(); e++) if (a.E[e]) { CK(ec[e] == 2, ctx, "each edge has two halfedges"); CK(a.edge[a.ehe[e]] == e, ctx, "edge.halfedge lies on the edge"); CK(!a.ext(a.ehe[e]), ctx, "edge.halfedge is interior"); }
  // vertices: one orbit under twin.next, at most one boundary wedge, boundary vertices store the first interior halfedge
  std::map<size_t, size_t> vorb; std::fill(seen.begin(), seen.end(), 0);
  for (size_t h = 0; h < nh; h++) if (a.H[h] && !seen[h]) { size_t x = h; do { seen[x] = 1; x = a.next[a.twin[x]]; } while (!seen[x]); vorb[a.vert[h]]++; }
  std::vector<int> vext(a.V.size(), 0);
  for (size_t h = 0; h < nh; h++) if (a.H[h] && a.ext(h)) vext[a.vert[h]]++;
  for (size_t v = 0; v < a.V.size(); v++) if (a.V[v]) {
    CK(vorb[v] == 1, ctx, "each vertex has a single halfedge orbit");
    CK(a.vert[a.vhe[v]] == v, ctx, "vertex.halfedge starts at the vertex");
    CK(vext[v] <= 1, ctx, "at most one boundary wedge per vertex");
    if (vext[v]) CK(!a.ext(a.vhe[v]) && a.ext(a.twin[a.vhe[v]]), ctx, "boundary vertex stores the first interior halfedge");
  }
}
// validateConnectivity() accepts every valid mesh (it documents faces of degree < 2 as invalid)
inline void checkValidates(ManifoldSurfaceMesh& m, const Abs& a, const char* ctx) {
  for (size_t h = 0; h < a.H.size(); h++) if (a.H[h] && a.next[h] == h) return;
  bool ok = true; try { m.validateConnectivity(); } catch (const std::exception&) { ok = false; }
  CK(ok, ctx, "validateConnectivity() accepts the mesh");
}
inline Abs takeValid(ManifoldSurfaceMesh& m, const char* ctx) { Abs a = take(m, ctx); checkValid(m, a, ctx); checkValidates(m, a, ctx); return a; }

// ---------------------------------------------------------------- base states
// A symbolic gluing of polygons: side i of the flattened side list is glued to a symbolic later side or left on the
// boundary. Every oriented polygon complex with these face degrees arises. Vertices are the equivalence classes of
// corners. Returns false (path rejected) when a boundary corner class would be non-manifold - cannot happen here.
struct Glue {
  Polys polys; Twins twins; bool ok;
};
inline Glue makeGlue(const std::vector<int>& degs, const std::vector<int>& mate) { // mate[i] = other side or -1
  Glue g; g.ok = true;
  size_t n = 0; for (int d : degs) n += d;
  std::vector<size_t> f(n), k(n), nxt(n);
  { size_t c = 0; for (size_t i = 0; i < degs.size(); i++) { for (int j = 0; j < degs[i]; j++) { f[c + j] = i; k[c + j] = j; nxt[c + j] = c + (j + 1) % degs[i]; } c += degs[i]; } }
  std::vector<size_t> cls(n); for (size_t i = 0; i < n; i++) cls[i] = i; // corner i = tail of side i
  bool ch = true;
  while (ch) { ch = false;
    for (size_t i = 0; i < n; i++) if (mate[i] >= 0) { size_t j = mate[i];
      size_t a = std::min(cls[i], cls[nxt[j]]); if (cls[i] != a || cls[nxt[j]] != a) { cls[i] = cls[nxt[j]] = a; ch = true; }
    } }
  std::map<size_t, size_t> id; for (size_t i = 0; i < n; i++) if (!id.count(cls[i])) { size_t s = id.size(); id[cls[i]] = s; }
  size_t c = 0;
  for (size_t i = 0; i < degs.size(); i++) {
    std::vector<size_t> p; std::vector<std::tuple<size_t, size_t>> t;
    for (int j = 0; j < degs[i]; j++, c++) { p.push_back(id[cls[c]]); if (mate[c] < 0) t.emplace_back(INVALID_IND, INVALID_IND); else t.emplace_back(f[mate[c]], k[mate[c]]); }
    g.polys.push_back(p); g.twins.push_back(t);
  }
  for (auto& p : g.polys) for (size_t j = 0; j < p.size(); j++) if (p[j] == p[(j + 1) % p.size()]) g.ok = false; // constructor refuses self-edges
  return g;
}
inline std::vector<int> symGluing(size_t n, bool closed = false) {
  std::vector<int> mate(n, -2);
  for (size_t i = 0; i < n; i++) if (mate[i] == -2) {
    std::vector<int> opt; for (size_t j = i + 1; j < n; j++) if (mate[j] == -2) opt.push_back(j);
    char nm[16]; snprintf(nm, sizeof nm, "mate%zu", i);
    size_t o = opt.size() + (closed ? 0 : 1);
    if (o == 0) { gs_assume(false); }
    size_t c = gs_fork(gs_range(nm, 0, o - 1));
    if (c < opt.size()) { mate[i] = opt[c]; mate[opt[c]] = i; } else mate[i] = -1;
  }
  return mate;
}
inline std::unique_ptr<ManifoldSurfaceMesh> gluedMesh(const std::vector<int>& degs, bool closed = false) {
  size_t n = 0; for (int d : degs) n += d;
  Glue g = makeGlue(degs, symGluing(n, closed));
  gs_assume(g.ok);
  return std::unique_ptr<ManifoldSurfaceMesh>(new ManifoldSurfaceMesh(g.polys, g.twins));
}

// Concrete catalogue
inline const std::vector<Polys>& catalogue() {
  static std::vector<Polys> c;
  if (c.empty()) {
    c.push_back({{0, 1, 2}, {0, 2, 3}, {0, 3, 1}, {1, 3, 2}});                                                         // 0 tetrahedron
    c.push_back({{0, 1, 2}, {1, 3, 2}, {3, 4, 2}});                                                                     // 1 strip of three
    c.push_back({{0, 1, 2}, {0, 2, 3}, {0, 3, 4}, {0, 4, 1}});                                                          // 2 interior degree-4 vertex
    c.push_back({{0, 1, 2}, {0, 2, 3}, {0, 3, 1}});                                                                     // 3 interior degree-3 vertex
    c.push_back({{0, 2, 4}, {2, 1, 4}, {1, 3, 4}, {3, 0, 4}, {2, 0, 5}, {1, 2, 5}, {3, 1, 5}, {0, 3, 5}});              // 4 octahedron
    c.push_back({{0, 1, 4, 3}, {1, 2, 5, 4}, {3, 4, 7, 6}, {4, 5, 8, 7}});                                              // 5 2x2 quads
    c.push_back({{0, 3, 2, 1}, {4, 5, 6, 7}, {0, 1, 5, 4}, {1, 2, 6, 5}, {2, 3, 7, 6}, {3, 0, 4, 7}});                  // 6 cube
    c.push_back({{0, 1, 4}, {0, 4, 3}, {1, 2, 5}, {1, 5, 4}, {2, 0, 3}, {2, 3, 5}});                                    // 7 annulus (open prism)
    c.push_back({{0, 1, 3}, {0, 3, 2}, {1, 2, 4}, {1, 4, 3}, {2, 3, 5}, {2, 5, 4}, {3, 4, 6}, {3, 6, 5}, {4, 5, 0}, {4, 0, 6}, {5, 6, 1}, {5, 1, 0}, {6, 0, 2}, {6, 2, 1}}); // 8 seven-vertex torus
    c.push_back({{0, 1, 2, 3, 4}, {0, 4, 5}, {1, 0, 5, 6}});                                                            // 9 mixed polygons with boundary
    c.push_back({{0, 1, 2}, {3, 4, 5}, {3, 5, 6}});                                                                     // 10 two components
    c.push_back({{0, 1, 2}});                                                                                           // 11 single triangle
    c.push_back({{0, 1, 4}, {0, 4, 3}, {1, 2, 5}, {1, 5, 4}, {3, 4, 7}, {3, 7, 6}, {4, 5, 8}, {4, 8, 7}});              // 12 3x3 grid
    c.push_back({{0, 1, 2}, {0, 2, 1}});                                                                                // 13 pillow: two triangles, same vertices
    c.push_back({{0, 1, 2, 3}, {3, 2, 1, 0}});                                                                          // 14 two quads back to back
    c.push_back({{0, 1, 2}, {0, 2, 3}, {0, 3, 1}, {1, 3, 2}, {4, 5, 6}, {4, 6, 7}, {4, 7, 5}, {5, 7, 6}});              // 15 two tetrahedra
    c.push_back({{0, 1, 5, 4}, {1, 2, 6, 5}, {2, 3, 7, 6}, {4, 5, 9, 8}, {5, 6, 10, 9}, {6, 7, 11, 10}}); // 16 3x2 quads
    c.push_back({{0, 1, 5, 4}, {1, 2, 6, 5}, {2, 3, 7, 6}, {4, 5, 9, 8}, {5, 6, 10, 9}}); // 17 L of quads
    c.push_back({{0, 1, 5, 4}, {1, 2, 6, 5}, {2, 3, 7, 6}, {5, 6, 9, 8}, {6, 7, 10, 9}}); // 18 mirrored L of quads
  }
  return c;
}
inline std::unique_ptr<ManifoldSurfaceMesh> catMesh(size_t i) { return std::unique_ptr<ManifoldSurfaceMesh>(new ManifoldSurfaceMesh(catalogue()[i])); }
inline size_t pick(const char* name, const std::vector<size_t>& s) { gs_assume(!s.empty()); return s[gs_fork(gs_range(name, 0, s.size() - 1))]; }
inline size_t pickLive(const char* name, const std::vector<char>& live) { std::vector<size_t> s; for (size_t i = 0; i < live.size(); i++) if (live[i]) s.push_back(i); return pick(name, s); }
