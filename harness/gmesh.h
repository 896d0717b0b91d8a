// The same for general (possibly non-manifold, non-oriented) SurfaceMesh: picture, validity, comparison with a polygon list.
#pragma once
#include "poly.h"
#include <algorithm>
struct GAbs {
  std::vector<char> H, V, E, F; std::vector<size_t> next, sib, vert, edge, face, on, in, vhe, ehe, fhe; std::vector<char> ori;
  size_t tip(size_t h) const { return vert[next[h]]; }
  std::vector<size_t> cyc(size_t h) const { std::vector<size_t> r; size_t x = h; do { r.push_back(x); x = next[x]; } while (x != h && r.size() < 500); return r; }
  std::vector<size_t> sibs(size_t h) const { std::vector<size_t> r; size_t x = h; do { r.push_back(x); x = sib[x]; } while (x != h && r.size() < 500); return r; }
};
inline GAbs gtake(SurfaceMesh& m, const char* ctx) {
  GAbs a; size_t nh = m.halfedgeIndexSize(), nv = m.vertexIndexSize(), ne = m.edgeIndexSize(), nf = m.faceIndexSize();
  CK(nh <= m.nHalfedgesCapacity() && nv <= m.nVerticesCapacity() && ne <= m.nEdgesCapacity() && nf <= m.nFacesCapacity(), ctx, "index ranges fit within capacities");
  for (size_t i = 0; i < nh; i++) a.H.push_back(!Halfedge(&m, i).isDead());
  for (size_t i = 0; i < nv; i++) a.V.push_back(!Vertex(&m, i).isDead());
  for (size_t i = 0; i < ne; i++) a.E.push_back(!Edge(&m, i).isDead());
  for (size_t i = 0; i < nf; i++) a.F.push_back(!Face(&m, i).isDead());
  a.next.assign(nh, NONE); a.sib = a.vert = a.edge = a.face = a.on = a.in = a.next; a.ori.assign(nh, 0);
  a.vhe.assign(nv, NONE); a.ehe.assign(ne, NONE); a.fhe.assign(nf, NONE);
  auto okH = [&](size_t i) { return i < nh && a.H[i]; };
  for (size_t i = 0; i < nh; i++) if (a.H[i]) {
    Halfedge h(&m, i);
    a.next[i] = h.next().getIndex(); a.sib[i] = h.sibling().getIndex(); a.vert[i] = h.vertex().getIndex(); a.edge[i] = h.edge().getIndex(); a.face[i] = h.face().getIndex();
    a.on[i] = h.nextOutgoingNeighbor().getIndex(); a.in[i] = h.nextIncomingNeighbor().getIndex(); a.ori[i] = h.orientation();
    CK(okH(a.next[i]) && okH(a.sib[i]) && okH(a.on[i]) && okH(a.in[i]), ctx, "halfedge neighbours are live");
    CK(a.vert[i] < nv && a.V[a.vert[i]] && a.edge[i] < ne && a.E[a.edge[i]] && a.face[i] < nf && a.F[a.face[i]], ctx, "halfedge vertex, edge, face are live");
    CK(h.isInterior() && h.twin() == h.sibling(), ctx, "general meshes have no exterior halfedges");
  }
  for (size_t i = 0; i < nv; i++) if (a.V[i]) { a.vhe[i] = Vertex(&m, i).halfedge().getIndex(); CK(okH(a.vhe[i]), ctx, "vertex.halfedge is live"); }
  for (size_t i = 0; i < ne; i++) if (a.E[i]) { a.ehe[i] = Edge(&m, i).halfedge().getIndex(); CK(okH(a.ehe[i]), ctx, "edge.halfedge is live"); }
  for (size_t i = 0; i < nf; i++) if (a.F[i]) { a.fhe[i] = Face(&m, i).halfedge().getIndex(); CK(okH(a.fhe[i]), ctx, "face.halfedge is live"); }
  return a;
}
inline void orbits(const std::vector<char>& live, const std::vector<size_t>& nx, const std::vector<size_t>& key, size_t nkeys, const std::vector<char>& keyLive, const char* ctx, const char* what) {
  std::vector<int> in(live.size(), 0), o(nkeys, 0);
  for (size_t i = 0; i < live.size(); i++) if (live[i]) { in[nx[i]]++; gs_assert(key[nx[i]] == key[i], (std::string(ctx) + ": " + what).c_str()); }
  std::vector<char> seen(live.size(), 0);
  for (size_t i = 0; i < live.size(); i++) if (live[i]) gs_assert(in[i] == 1, (std::string(ctx) + ": " + what).c_str());
  for (size_t i = 0; i < live.size(); i++) if (live[i] && !seen[i]) { o[key[i]]++; for (size_t x = i; !seen[x]; x = nx[x]) seen[x] = 1; }
  for (size_t k = 0; k < nkeys; k++) if (keyLive[k]) gs_assert(o[k] == 1, (std::string(ctx) + ": " + what).c_str());
}
inline void gcheckValid(SurfaceMesh& m, const GAbs& a, const char* ctx) {
  auto n = [](const std::vector<char>& v) { return Abs::count(v); };
  CK(n(a.H) == m.nHalfedges() && n(a.V) == m.nVertices() && n(a.E) == m.nEdges() && n(a.F) == m.nFaces(), ctx, "element counts match the live elements");
  CK(m.nInteriorHalfedges() == m.nHalfedges() && m.nCorners() == m.nHalfedges() && m.nExteriorHalfedges() == 0 && m.nBoundaryLoops() == 0, ctx, "every halfedge is interior and has a corner");
  size_t nh = a.H.size();
  std::vector<size_t> tips(nh, NONE); for (size_t h = 0; h < nh; h++) if (a.H[h]) tips[h] = a.tip(h);
  orbits(a.H, a.next, a.face, a.F.size(), a.F, ctx, "each face is one cycle of halfedges");
  orbits(a.H, a.sib, a.edge, a.E.size(), a.E, ctx, "the halfedges of each edge are one sibling cycle");
  orbits(a.H, a.on, a.vert, a.V.size(), a.V, ctx, "the outgoing halfedges of each vertex are one cycle");
  orbits(a.H, a.in, tips, a.V.size(), a.V, ctx, "the incoming halfedges of each vertex are one cycle");
  for (size_t v = 0; v < a.V.size(); v++) if (a.V[v]) CK(a.vert[a.vhe[v]] == v, ctx, "vertex.halfedge starts at the vertex");
  for (size_t f = 0; f < a.F.size(); f++) if (a.F[f]) CK(a.face[a.fhe[f]] == f, ctx, "face.halfedge lies in the face");
  for (size_t e = 0; e < a.E.size(); e++) if (a.E[e]) CK(a.edge[a.ehe[e]] == e, ctx, "edge.halfedge lies on the edge");
  for (size_t h = 0; h < nh; h++) if (a.H[h]) {
    size_t c = a.ehe[a.edge[h]];
    CK(up(a.vert[h], a.tip(h)) == up(a.vert[c], a.tip(c)), ctx, "the halfedges of an edge join the same two vertices");
    if (a.vert[h] != a.tip(h)) CK((a.ori[h] == a.ori[c]) == (a.vert[h] == a.vert[c]), ctx, "orientation tells which way a halfedge points along its edge");
  }
  bool ok = true; try { m.validateConnectivity(); } catch (const std::exception&) { ok = false; }
  CK(ok, ctx, "validateConnectivity() accepts the mesh");
}
inline GAbs gtakeValid(SurfaceMesh& m, const char* ctx) { GAbs a = gtake(m, ctx); gcheckValid(m, a, ctx); return a; }
typedef std::vector<size_t> L;
template <class R> L lseq(R&& r, size_t cap = 200) { L v; for (auto x : r) { v.push_back(x.getIndex()); if (v.size() > cap) break; } return v; }
inline L lsort(L v) { std::sort(v.begin(), v.end()); return v; }
// predicates and neighbourhoods of a valid general mesh, against their definitions
inline void gckQueries(SurfaceMesh& m, const GAbs& a, const char* ctx) {
  size_t nh = a.H.size(), nb = 0; bool eMan = true, ori = true, vMan = true;
  std::vector<char> vb(a.V.size(), 0), vNonManE(a.V.size(), 0), vNonOri(a.V.size(), 0);
  auto st1 = m.getEdgeManifoldStatus(); auto st2 = m.getEdgeOrientedStatus(); auto st3 = m.getVertexManifoldStatus(); auto st4 = m.getVertexBoundaryStatus();
  for (size_t e = 0; e < a.E.size(); e++) if (a.E[e]) {
    Edge E(&m, e); L s = a.sibs(a.ehe[e]); bool bd = s.size() == 1, mf = s.size() <= 2, orr = bd || (s.size() == 2 && a.ori[s[0]] != a.ori[s[1]]);
    eMan &= mf; ori &= orr; nb += bd; L fs; for (size_t h : s) fs.push_back(a.face[h]);
    size_t v = a.vert[s[0]], w = a.tip(s[0]);
    for (size_t x : {v, w}) { vb[x] |= bd; vNonManE[x] |= !mf; vNonOri[x] |= !orr; }
    CK(E.isBoundary() == bd && E.degree() == s.size() && E.isManifold() == mf && E.isOriented() == orr, ctx, "Edge::isBoundary/degree/isManifold/isOriented by the number and direction of its faces");
    CK(st1[E] == mf && st2[E] == orr, ctx, "edge status containers");
    CK(lsort(lseq(E.adjacentHalfedges())) == lsort(s) && lsort(lseq(E.adjacentFaces())) == lsort(fs) && lsort(lseq(E.adjacentInteriorHalfedges())) == lsort(s), ctx, "edge iterators yield its halfedges and faces");
    CK(E.firstVertex().getIndex() == v && E.secondVertex().getIndex() == w && E.otherVertex(Vertex(&m, v)).getIndex() == w && E.otherVertex(Vertex(&m, w)).getIndex() == v, ctx, "edge endpoints");
  }
  CK(m.isEdgeManifold() == eMan && m.isOriented() == (eMan && ori) && m.hasBoundary() == (nb > 0), ctx, "isEdgeManifold(), isOriented(), hasBoundary()");
  // fans: corners at a vertex joined through shared edges
  for (size_t v = 0; v < a.V.size(); v++) if (a.V[v]) {
    Vertex V(&m, v); L co, inc, ed, nbv, fc; std::map<size_t, size_t> cls;
    for (size_t h = 0; h < nh; h++) if (a.H[h]) {
      if (a.vert[h] == v) { co.push_back(h); fc.push_back(a.face[h]); cls[h] = h; }
      if (a.tip(h) == v) inc.push_back(h);
    }
    for (size_t e = 0; e < a.E.size(); e++) if (a.E[e]) { size_t c = a.ehe[e]; if (a.vert[c] == v) { ed.push_back(e); nbv.push_back(a.tip(c)); } if (a.tip(c) == v) { ed.push_back(e); nbv.push_back(a.vert[c]); } }
    for (size_t e : ed) { L cs[2]; for (size_t h : a.sibs(a.ehe[e])) { cs[!a.ori[h]].push_back(h); cs[a.ori[h]].push_back(a.next[h]); } // corners at either end
      for (auto& k : cs) for (size_t c : k) if (cls.count(c) && cls.count(k[0])) { size_t x = cls[c], y = cls[k[0]]; for (auto& z : cls) if (z.second == x) z.second = y; } }
    std::set<size_t> fans; for (auto& z : cls) fans.insert(z.second);
    bool mf = !vNonManE[v] && fans.size() == 1; vMan &= mf;
    CK(lsort(lseq(V.outgoingHalfedges())) == lsort(co), ctx, "outgoingHalfedges() yields every halfedge leaving the vertex once");
    CK(lsort(lseq(V.incomingHalfedges())) == lsort(inc), ctx, "incomingHalfedges() yields every halfedge entering the vertex once");
    CK(lsort(lseq(V.adjacentEdges())) == lsort(ed), ctx, "Vertex::adjacentEdges() yields every incident edge once");
    CK(lsort(lseq(V.adjacentVertices())) == lsort(nbv), ctx, "Vertex::adjacentVertices() yields the other end of every incident edge");
    CK(lsort(lseq(V.adjacentFaces())) == lsort(fc) && lsort(lseq(V.adjacentCorners())) == lsort(co), ctx, "Vertex::adjacentFaces()/adjacentCorners() yield every corner");
    CK(V.degree() == ed.size() && V.faceDegree() == co.size(), ctx, "Vertex::degree() / faceDegree()");
    CK(V.isBoundary() == (bool)vb[v] && st4[V] == (bool)vb[v], ctx, "Vertex::isBoundary() iff on a boundary edge");
    CK(V.isManifold() == mf && st3[V] == mf, ctx, "Vertex::isManifold() iff its edges are manifold and its faces form one fan");
    CK(V.isManifoldAndOriented() == (mf && !vNonOri[v]), ctx, "Vertex::isManifoldAndOriented() iff manifold with consistently oriented faces");
    for (size_t w = 0; w < a.V.size(); w++) if (a.V[w] && w != v) {
      Edge e = m.connectingEdge(V, Vertex(&m, w)); bool adj = std::count(nbv.begin(), nbv.end(), w) > 0;
      if (!adj) CK(e == Edge(), ctx, "connectingEdge() is null for non-adjacent vertices");
      else CK(e.getIndex() < a.E.size() && up(a.vert[a.ehe[e.getIndex()]], a.tip(a.ehe[e.getIndex()])) == up(v, w), ctx, "connectingEdge() joins the two vertices");
    }
  }
  CK(m.isManifold() == (eMan && vMan), ctx, "isManifold() iff all edges and vertices are");
  // faces
  std::vector<size_t> comp(a.V.size()); for (size_t i = 0; i < comp.size(); i++) comp[i] = i;
  bool tri = true;
  for (size_t f = 0; f < a.F.size(); f++) if (a.F[f]) {
    Face F(&m, f); L c = a.cyc(a.fhe[f]), vs, es, fs; tri &= c.size() == 3;
    for (size_t h : c) { vs.push_back(a.vert[h]); es.push_back(a.edge[h]); for (size_t s : a.sibs(h)) if (s != h) fs.push_back(a.face[s]); size_t x = comp[a.vert[h]], y = comp[a.vert[c[0]]]; for (auto& z : comp) if (z == x) z = y; }
    CK(lseq(F.adjacentHalfedges()) == c && lseq(F.adjacentVertices()) == vs && lseq(F.adjacentEdges()) == es && lseq(F.adjacentCorners()) == c, ctx, "face iterators walk the face");
    CK(lsort(lseq(F.adjacentFaces())) == lsort(fs), ctx, "Face::adjacentFaces() yields every other face across every side");
    CK(F.degree() == c.size() && F.isTriangle() == (c.size() == 3), ctx, "Face::degree(), isTriangle()");
  }
  CK(m.isTriangular() == tri, ctx, "isTriangular()");
  std::set<size_t> cc; for (size_t v = 0; v < a.V.size(); v++) if (a.V[v]) cc.insert(comp[v]);
  CK(m.nConnectedComponents() == cc.size(), ctx, "nConnectedComponents()");
}
