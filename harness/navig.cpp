#include "mut_common.h"
#include <algorithm>
typedef std::vector<size_t> L;
template <class R> static L seq(R&& r, size_t cap = 200) { L v; for (auto x : r) { v.push_back(x.getIndex()); if (v.size() > cap) break; } return v; }
static L srt(L v) { std::sort(v.begin(), v.end()); return v; }
static L live(const std::vector<char>& c) { L r; for (size_t i = 0; i < c.size(); i++) if (c[i]) r.push_back(i); return r; }
#define SAME(x, y, what) gs_assert(srt(x) == srt(y), what)
static void ckNav(ManifoldSurfaceMesh& m) {
  Abs a = takeValid(m, "navigate");
  // collections: exactly the live elements, in index order, none twice
  gs_assert(seq(m.vertices()) == live(a.V), "vertices() yields exactly the live vertices in order");
  gs_assert(seq(m.edges()) == live(a.E), "edges() yields exactly the live edges in order");
  gs_assert(seq(m.faces()) == live(a.F), "faces() yields exactly the live faces in order");
  gs_assert(seq(m.halfedges()) == live(a.H), "halfedges() yields exactly the live halfedges in order");
  SAME(seq(m.boundaryLoops()), live(a.B), "boundaryLoops() yields exactly the live loops");
  L in, ex; for (size_t h = 0; h < a.H.size(); h++) if (a.H[h]) (a.ext(h) ? ex : in).push_back(h);
  gs_assert(seq(m.interiorHalfedges()) == in, "interiorHalfedges() yields exactly the live interior halfedges");
  gs_assert(seq(m.exteriorHalfedges()) == ex, "exteriorHalfedges() yields exactly the live exterior halfedges");
  gs_assert(seq(m.corners()) == in, "corners() yields exactly one corner per interior halfedge");
  // dense enumerations
  { auto x = m.getVertexIndices(); size_t i = 0; for (size_t v : live(a.V)) gs_assert(x[Vertex(&m, v)] == i++, "getVertexIndices() enumerates 0..n-1 in order"); }
  { auto x = m.getEdgeIndices(); size_t i = 0; for (size_t v : live(a.E)) gs_assert(x[Edge(&m, v)] == i++, "getEdgeIndices() enumerates 0..n-1 in order"); }
  { auto x = m.getFaceIndices(); size_t i = 0; for (size_t v : live(a.F)) gs_assert(x[Face(&m, v)] == i++, "getFaceIndices() enumerates 0..n-1 in order"); }
  { auto x = m.getHalfedgeIndices(); size_t i = 0; for (size_t v : live(a.H)) gs_assert(x[Halfedge(&m, v)] == i++, "getHalfedgeIndices() enumerates 0..n-1 in order"); }
  { auto x = m.getCornerIndices(); size_t i = 0; for (size_t v : in) gs_assert(x[Halfedge(&m, v).corner()] == i++, "getCornerIndices() enumerates 0..n-1 in order"); }
  { auto x = m.getBoundaryLoopIndices(); std::vector<char> s(a.cB(), 0); for (size_t v : live(a.B)) { size_t k = x[BoundaryLoop(&m, v)]; gs_assert(k < s.size() && !s[k], "getBoundaryLoopIndices() enumerates 0..n-1"); s[k] = 1; } }
  { auto x = m.getInteriorVertexIndices(); size_t i = 0, n = 0; for (size_t v : live(a.V)) { if (a.vBoundary(v)) gs_assert(x[Vertex(&m, v)] == INVALID_IND, "getInteriorVertexIndices() marks boundary vertices invalid"); else { gs_assert(x[Vertex(&m, v)] == i++, "getInteriorVertexIndices() enumerates interior vertices"); n++; } }
    gs_assert(m.nInteriorVertices() == n, "nInteriorVertices()"); }
  { auto x = m.getVertexBoundaryStatus(); for (size_t v : live(a.V)) gs_assert(x[Vertex(&m, v)] == a.vBoundary(v), "getVertexBoundaryStatus()"); }
  gs_assert(m.hasBoundary() == (a.cB() > 0), "hasBoundary()");
  gs_assert(m.nConnectedComponents() == a.components(), "nConnectedComponents()");
  { bool t = true; for (size_t f : live(a.F)) t = t && a.deg(a.fhe[f]) == 3; gs_assert(m.isTriangular() == t, "isTriangular()"); }
  // face-vertex list in dense numbering
  { auto P = m.getFaceVertexList(); L vi(a.V.size(), NONE); size_t n = 0; for (size_t v : live(a.V)) vi[v] = n++; size_t k = 0; gs_assert(P.size() == a.cF(), "getFaceVertexList() has one entry per face");
    for (size_t f : live(a.F)) { L q; for (size_t h : a.cycle(a.fhe[f])) q.push_back(vi[a.vert[h]]); gs_assert(P[k++] == q, "getFaceVertexList() lists each face's vertices from its halfedge"); } }
  // around a vertex
  for (size_t v : live(a.V)) {
    Vertex V(&m, v); L out = a.outgoing(v), inc, nb, ed, fc, co; bool bdy = false;
    for (size_t h : out) { inc.push_back(a.twin[h]); nb.push_back(a.tip(h)); ed.push_back(a.edge[h]); if (!a.ext(h)) { fc.push_back(a.face[h]); co.push_back(h); } else bdy = true; }
    L o = seq(V.outgoingHalfedges());
    SAME(o, out, "outgoingHalfedges() yields every halfedge leaving the vertex once");
    SAME(seq(V.incomingHalfedges()), inc, "incomingHalfedges() yields every halfedge entering the vertex once");
    SAME(seq(V.adjacentVertices()), nb, "Vertex::adjacentVertices() yields the other end of every edge end");
    SAME(seq(V.adjacentEdges()), ed, "Vertex::adjacentEdges() yields every edge end");
    SAME(seq(V.adjacentFaces()), fc, "Vertex::adjacentFaces() yields the face of every corner");
    SAME(seq(V.adjacentCorners()), co, "Vertex::adjacentCorners() yields every corner of the vertex");
    gs_assert(V.degree() == out.size() && V.faceDegree() == fc.size(), "Vertex::degree() / faceDegree()");
    gs_assert(V.isBoundary() == bdy, "Vertex::isBoundary()");
    gs_assert(V.isManifold() && V.isManifoldAndOriented(), "vertices of a manifold mesh are manifold and oriented");
    Corner c = V.corner(); gs_assert(c.vertex() == V && !a.ext(c.halfedge().getIndex()), "Vertex::corner() is a corner at the vertex");
    for (size_t w : live(a.V)) {
      Edge e = m.connectingEdge(V, Vertex(&m, w)); bool adj = std::count(nb.begin(), nb.end(), w) > 0;
      if (!adj) gs_assert(e == Edge(), "connectingEdge() is null for non-adjacent vertices");
      else { size_t x = e.getIndex(); gs_assert(x < a.E.size() && a.E[x] && ((a.vert[a.ehe[x]] == v && a.tip(a.ehe[x]) == w) || (a.vert[a.ehe[x]] == w && a.tip(a.ehe[x]) == v)), "connectingEdge() joins the two vertices"); }
    }
  }
  // halfedges and corners
  for (size_t h : live(a.H)) {
    Halfedge H(&m, h); size_t p = a.prev(h);
    gs_assert(H.prevOrbitFace().getIndex() == p && H.prevOrbitVertex().getIndex() == p, "prevOrbitFace()/prevOrbitVertex() give the previous halfedge of the face");
    gs_assert(H.sibling() == H.twin() && H.tailVertex().getIndex() == a.vert[h] && H.tipVertex().getIndex() == a.tip(h), "sibling, tailVertex, tipVertex");
    gs_assert(H.nextOutgoingNeighbor().getIndex() == a.next[a.twin[h]], "nextOutgoingNeighbor() is twin.next");
    { Halfedge N = H.nextIncomingNeighbor(); gs_assert(a.tip(N.getIndex()) == a.tip(h), "nextIncomingNeighbor() enters the same vertex"); }
    gs_assert(H.orientation() == (a.ehe[a.edge[h]] == h), "orientation() is that of the edge's halfedge");
    gs_assert(H.isInterior() == !a.ext(h), "isInterior()");
    if (!a.ext(h)) { Corner c = H.corner(); gs_assert(c.halfedge() == H && c.vertex() == H.vertex() && c.face() == H.face(), "corner of a halfedge"); }
  }
  // around an edge
  for (size_t e : live(a.E)) {
    Edge E(&m, e); size_t h = a.ehe[e], t = a.twin[h]; L fs{a.face[h]}, ih{h}; if (!a.ext(t)) { fs.push_back(a.face[t]); ih.push_back(t); }
    SAME(seq(E.adjacentHalfedges()), (L{h, t}), "Edge::adjacentHalfedges()"); SAME(seq(E.adjacentInteriorHalfedges()), ih, "Edge::adjacentInteriorHalfedges()"); SAME(seq(E.adjacentFaces()), fs, "Edge::adjacentFaces()");
    gs_assert(E.degree() == fs.size() && E.isBoundary() == (fs.size() == 1) && E.isManifold() && E.isOriented(), "Edge::degree(), isBoundary(), isManifold(), isOriented()");
    gs_assert(E.firstVertex().getIndex() == a.vert[h] && E.secondVertex().getIndex() == a.vert[t] && E.otherVertex(E.firstVertex()) == E.secondVertex() && E.otherVertex(E.secondVertex()) == E.firstVertex(), "Edge endpoints");
    { auto av = E.adjacentVertices(); gs_assert(av[0] == E.firstVertex() && av[1] == E.secondVertex(), "Edge::adjacentVertices()"); }
    bool dia = !a.ext(t) && a.deg(h) == 3 && a.deg(t) == 3, got = false; std::array<Halfedge, 4> d;
    try { d = E.diamondBoundary(); got = true; } catch (const std::exception&) {}
    gs_assert(got == dia, "diamondBoundary() succeeds exactly on interior edges of two triangles");
    if (got) gs_assert(d[0].getIndex() == a.next[h] && d[1].getIndex() == a.prev(h) && d[2].getIndex() == a.next[t] && d[3].getIndex() == a.prev(t), "diamondBoundary() lists the four outer sides");
  }
  // around a face / loop
  for (size_t f : live(a.F)) {
    Face F(&m, f); L c = a.cycle(a.fhe[f]), vs, es, fs; for (size_t h : c) { vs.push_back(a.vert[h]); es.push_back(a.edge[h]); if (!a.ext(a.twin[h])) fs.push_back(a.face[a.twin[h]]); }
    gs_assert(seq(F.adjacentHalfedges()) == c, "Face::adjacentHalfedges() walks the face from its halfedge");
    gs_assert(seq(F.adjacentCorners()) == c && seq(F.adjacentVertices()) == vs && seq(F.adjacentEdges()) == es, "Face corners, vertices, edges in order");
    SAME(seq(F.adjacentFaces()), fs, "Face::adjacentFaces() yields the face across every interior side");
    gs_assert(F.degree() == c.size() && F.isTriangle() == (c.size() == 3) && !F.isBoundaryLoop(), "Face::degree(), isTriangle(), isBoundaryLoop()");
  }
  for (size_t b : live(a.B)) {
    BoundaryLoop B(&m, b); L c = a.cycle(a.bhe[b]), vs, es; for (size_t h : c) { vs.push_back(a.vert[h]); es.push_back(a.edge[h]); }
    gs_assert(seq(B.adjacentHalfedges()) == c && seq(B.adjacentVertices()) == vs && seq(B.adjacentEdges()) == es && B.degree() == c.size(), "BoundaryLoop halfedges, vertices, edges, degree");
    gs_assert(B.asFace().isBoundaryLoop() && B.asFace().asBoundaryLoop() == B && B.asFace().halfedge() == B.halfedge(), "BoundaryLoop::asFace() round trip");
  }
  gs_cover(a.cB() ? "boundary" : "closed");
}
GS_HARNESS(cat) { overCat([](ManifoldSurfaceMesh& m) { ckNav(m); }); }
GS_HARNESS(glue) { static const std::vector<std::vector<int>> D = {{3, 3}, {3, 4}, {4, 4}, {3, 3, 3}, {5, 3}}; auto m = gluedMesh(D[gs_choose("shape", gs_tier() ? 5 : 2)]); ckNav(*m); }
// after an edit (deleted elements of every kind), and after compressing
static bool edit(ManifoldSurfaceMesh& m, const char* nm, size_t lim) { // false: rejected
  char b[24]; snprintf(b, sizeof b, "%s_el", nm);
  size_t k = gs_choose(nm, 6);
  auto lm = [&](VS s) { if (lim && s.size() > lim) { VS r; for (size_t i = 0; i < lim; i++) r.push_back(s[i * s.size() / lim]); s = r; } return s; };
  auto E = [&]() { return Edge(&m, pick(b, lm(liveE(m)))); };
  auto F = [&]() { return Face(&m, pick(b, lm(liveF(m)))); };
  try {
    if (k == 0) m.insertVertex(F()); else if (k == 1) m.triangulate(F());
    else if (k == 2) { Edge e = E(); if (!e.isBoundary()) m.removeEdge(e); } else if (k == 3) m.removeFaceAlongBoundary(F());
    else if (k == 4) { Edge e = E(); if (!e.isBoundary()) m.separateEdge(e); } else { Face f = F(); m.insertVertexAlongEdge(f.halfedge().edge()); m.connectVertices(f.halfedge(), f.halfedge().next().next()); }
  } catch (const std::exception&) { gs_cover("edit rejected"); return false; }
  return true;
}
static void edited(const VS& M, size_t n, size_t lim) {
  auto m = catMesh(M[gs_choose("mesh", M.size())]);
  for (size_t i = 0; i < n; i++) if (!edit(*m, i ? "op2" : "op1", i + 1 < n ? lim : 0)) return;
  ckNav(*m);
  if (gs_choose("compress", 2)) { m->compress(); ckNav(*m); }
}
GS_HARNESS(edited) { edited({2, 5, 7, 9, 12}, 1, 0); }
GS_HARNESS(edited2) { if (gs_tier()) edited({2, 5, 7, 9, 12, 6, 10}, 2, 6); else edited({2, 5}, 2, 2); }
