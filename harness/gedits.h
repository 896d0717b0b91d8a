#pragma once
#include "gmesh.h"
static const size_t GDEF = 1000000007;
// attached data: survives, new elements take the default, compress() relabels consistently
struct GTrack {
  SurfaceMesh& m; size_t id = 1; gcs::VertexData<size_t> v; gcs::HalfedgeData<size_t> h; gcs::CornerData<size_t> c; gcs::EdgeData<size_t> e; gcs::FaceData<size_t> f;
  L pv, ph, pe, pf;
  GTrack(SurfaceMesh& m_) : m(m_), v(m_, GDEF), h(m_, GDEF), c(m_, GDEF), e(m_, GDEF), f(m_, GDEF) {}
  template <class E, class D> void one(D& d, L& p, const std::vector<char>& live) {
    p.resize(live.size(), NONE);
    for (size_t i = 0; i < live.size(); i++) { E x(&m, i); if (!live[i]) { p[i] = NONE; continue; }
      if (p[i] == NONE) { gs_assert(d[x] == GDEF, "data: a new element holds the container's default value"); p[i] = d[x] = id++; } else gs_assert(d[x] == p[i], "data: values attached to surviving elements are unchanged"); }
  }
  void sync(const GAbs& a) {
    one<Vertex>(v, pv, a.V); one<Edge>(e, pe, a.E); one<Face>(f, pf, a.F);
    size_t n = ph.size(); L old = ph; one<Halfedge>(h, ph, a.H);
    for (size_t i = 0; i < a.H.size(); i++) if (a.H[i]) { size_t& x = c[Halfedge(&m, i).corner()]; if (i < n && old[i] != NONE) gs_assert(x == ph[i], "data: corner values are unchanged"); else { gs_assert(x == GDEF, "data: a new corner holds the default value"); x = ph[i]; } }
  }
  void compress(const GAbs& a) {
    m.compress();
    GAbs x = gtakeValid(m, "after compress");
    gs_assert(m.isCompressed() && x.H.size() == m.nHalfedges() && x.V.size() == m.nVertices() && x.E.size() == m.nEdges() && x.F.size() == m.nFaces(), "compress: index ranges are dense");
    std::map<size_t, size_t> nv, nh, ne, nf;
    for (size_t i = 0; i < x.V.size(); i++) nv[v[Vertex(&m, i)]] = i;
    for (size_t i = 0; i < x.H.size(); i++) nh[h[Halfedge(&m, i)]] = i;
    for (size_t i = 0; i < x.E.size(); i++) ne[e[Edge(&m, i)]] = i;
    for (size_t i = 0; i < x.F.size(); i++) nf[f[Face(&m, i)]] = i;
    for (size_t i = 0; i < a.V.size(); i++) if (a.V[i]) gs_assert(nv.count(pv[i]) && x.vhe[nv[pv[i]]] == nh[ph[a.vhe[i]]], "compress: vertices and their data are preserved");
    for (size_t i = 0; i < a.E.size(); i++) if (a.E[i]) gs_assert(ne.count(pe[i]) && x.ehe[ne[pe[i]]] == nh[ph[a.ehe[i]]], "compress: edges and their data are preserved");
    for (size_t i = 0; i < a.F.size(); i++) if (a.F[i]) gs_assert(nf.count(pf[i]) && x.fhe[nf[pf[i]]] == nh[ph[a.fhe[i]]], "compress: faces and their data are preserved");
    for (size_t i = 0; i < a.H.size(); i++) if (a.H[i]) {
      gs_assert(nh.count(ph[i]), "compress: halfedge data is preserved"); size_t j = nh[ph[i]];
      gs_assert(x.next[j] == nh[ph[a.next[i]]] && x.sib[j] == nh[ph[a.sib[i]]] && x.vert[j] == nv[pv[a.vert[i]]] && x.edge[j] == ne[pe[a.edge[i]]] && x.face[j] == nf[pf[a.face[i]]] && x.ori[j] == a.ori[i] && x.on[j] == nh[ph[a.on[i]]] && x.in[j] == nh[ph[a.in[i]]], "compress: connectivity is preserved");
      gs_assert(c[Halfedge(&m, j).corner()] == ph[i], "compress: corner data is preserved");
    }
  }
};
static bool sameExcept(const GAbs& a, const GAbs& b, const std::set<size_t>& hs) { // next, vertex, edge, face of all other old halfedges
  for (size_t h = 0; h < a.H.size(); h++) if (!hs.count(h)) if (a.next[h] != b.next[h] || a.vert[h] != b.vert[h] || a.edge[h] != b.edge[h] || a.face[h] != b.face[h]) return false;
  return true;
}
static bool sameSizes(const GAbs& a, const GAbs& b) { return a.H.size() == b.H.size() && a.V.size() == b.V.size() && a.E.size() == b.E.size() && a.F.size() == b.F.size(); }
static void ckInvert(SurfaceMesh& m, size_t f) {
  GAbs a = gtakeValid(m, "before invert"); L c = a.cyc(a.fhe[f]);
  m.invertOrientation(Face(&m, f));
  GAbs b = gtakeValid(m, "after invertOrientation");
  gs_assert(sameSizes(a, b) && sameExcept(a, b, std::set<size_t>(c.begin(), c.end())), "invertOrientation: other faces are untouched");
  for (size_t i = 0; i < c.size(); i++) { size_t h = c[i], p = c[(i + c.size() - 1) % c.size()]; gs_assert(b.next[h] == p && b.vert[h] == a.tip(h) && b.edge[h] == a.edge[h] && b.face[h] == f, "invertOrientation: every side of the face points the other way"); }
  gs_assert(b.fhe[f] == a.fhe[f], "invertOrientation: face.halfedge is kept");
  for (size_t e = 0; e < a.E.size(); e++) gs_assert(b.ehe[e] == a.ehe[e], "invertOrientation: edge.halfedge is kept");
  gs_cover("inverted");
}
static void ckDuplicate(SurfaceMesh& m, size_t f) {
  GAbs a = gtakeValid(m, "before duplicate"); L c = a.cyc(a.fhe[f]);
  Face n = m.duplicateFace(Face(&m, f));
  GAbs b = gtakeValid(m, "after duplicateFace");
  gs_assert(b.V.size() == a.V.size() && b.E.size() == a.E.size() && b.F.size() == a.F.size() + 1 && b.H.size() == a.H.size() + c.size(), "duplicateFace: adds exactly one face and its halfedges");
  gs_assert(n.getIndex() == a.F.size(), "duplicateFace: returns the new face");
  gs_assert(sameExcept(a, b, {}), "duplicateFace: existing faces are untouched");
  L d = b.cyc(b.fhe[n.getIndex()]); gs_assert(d.size() == c.size(), "duplicateFace: same degree");
  for (size_t i = 0; i < c.size(); i++) gs_assert(b.vert[d[i]] == a.vert[c[i]] && b.edge[d[i]] == a.edge[c[i]] && d[i] >= a.H.size() && b.ori[d[i]] == a.ori[c[i]], "duplicateFace: the copy has the same vertices and edges in order");
  for (size_t e = 0; e < a.E.size(); e++) gs_assert(b.ehe[e] == a.ehe[e], "duplicateFace: edge.halfedge is kept");
  gs_cover("duplicated");
}
static void ckGFlip(SurfaceMesh& m, size_t e, bool prevent) {
  GAbs a = gtakeValid(m, "before flip"); size_t h = a.ehe[e]; L s = a.sibs(h);
  bool legal = s.size() == 2 && a.cyc(s[0]).size() == 3 && a.cyc(s[1]).size() == 3; size_t t = 0, c = 0, d = 0;
  if (legal) { t = s[1]; legal = a.face[h] != a.face[t]; }
  bool dup = false;
  if (legal) { c = a.tip(a.next[h]); d = a.tip(a.next[t]); dup = c == d; for (size_t x = 0; x < a.E.size(); x++) dup |= up(a.vert[a.ehe[x]], a.tip(a.ehe[x])) == up(c, d); }
  if (s.size() == 2 && a.face[h] == a.face[s[1]]) { gs_cover("self-glued"); return; }
  bool r = m.flip(Edge(&m, e), prevent);
  GAbs b = gtakeValid(m, "after flip");
  gs_assert(r == (legal && !(prevent && dup)), "flip: succeeds exactly on an interior manifold edge of two triangles (and, if asked, only if the new edge does not exist yet)");
  if (!r) { gs_assert(sameSizes(a, b) && sameExcept(a, b, {}), "flip: a refused flip changes nothing"); gs_cover("flip refused"); return; }
  gs_assert(sameSizes(a, b), "flip: no elements are created");
  bool same = a.ori[h] == a.ori[t]; // faces oriented differently
  size_t h2 = a.next[h], h3 = a.next[h2], t2 = a.next[t], t3 = a.next[t2];
  // sides leaving the two ends of the flipped edge (t walked backwards if it points the same way)
  size_t vb = a.tip(h); // face h: va->vb, vb->c (h2), c->va (h3)
  size_t tb = same ? t2 : t3, ta = same ? t3 : t2; // side of t's face at vb / at va
  gs_assert(up(b.vert[h], b.tip(h)) == up(c, d) && b.edge[h] == e && b.edge[t] == e, "flip: the edge joins the two opposite vertices");
  std::set<size_t> fh{b.next[h], b.next[b.next[h]]}, ft{b.next[t], b.next[b.next[t]]};
  gs_assert(b.cyc(h).size() == 3 && b.cyc(t).size() == 3 && b.face[h] == a.face[h] && b.face[t] == a.face[t], "flip: both faces stay triangles");
  bool cw = fh == std::set<size_t>{h2, tb} && ft == std::set<size_t>{h3, ta}, ccw = fh == std::set<size_t>{h3, ta} && ft == std::set<size_t>{h2, tb};
  gs_assert(same ? cw || ccw : cw, "flip: the edge is rotated (clockwise, if the faces are oriented consistently): each new triangle has the two sides meeting at an end of the old edge");
  for (size_t x : {h2, h3, t2, t3}) gs_assert(b.edge[x] == a.edge[x] && up(b.vert[x], b.tip(x)) == up(a.vert[x], a.tip(x)), "flip: outer sides keep their edges");
  gs_assert((b.ori[h] == b.ori[t]) == same, "flip: relative orientation of the two faces is kept");
  gs_assert(cw ? b.vert[h2] == vb && b.tip(h2) == c : b.vert[h3] == c && b.tip(h3) == a.vert[h], "flip: the orientation of the first face is kept");
  gs_assert(sameExcept(a, b, {h, t, h2, h3, t2, t3}), "flip: other faces are untouched");
  for (size_t x = 0; x < a.E.size(); x++) gs_assert(b.ehe[x] == a.ehe[x], "flip: edge.halfedge is kept");
  gs_cover(same ? "flipped unoriented" : "flipped");
}
static void ckSepNew(SurfaceMesh& m, size_t x, size_t y) {
  GAbs a = gtakeValid(m, "before separateToNewEdge"); L s = a.sibs(x); bool ok = x != y && a.edge[x] == a.edge[y], got = false; Edge ne;
  try { ne = m.separateToNewEdge(Halfedge(&m, x), Halfedge(&m, y)); got = true; } catch (const std::exception&) {}
  GAbs b = gtakeValid(m, "after separateToNewEdge");
  gs_assert(got == ok, "separateToNewEdge: accepts exactly two distinct halfedges of one edge");
  if (!got || s.size() <= 2) { gs_assert(sameSizes(a, b) && sameExcept(a, b, {}), "separateToNewEdge: otherwise nothing changes"); if (got) gs_assert(ne.getIndex() == a.edge[x], "separateToNewEdge: returns the edge itself if it only has two halfedges"); gs_cover("nothing to separate"); return; }
  size_t n = ne.getIndex(), e = a.edge[x];
  gs_assert(b.E.size() == a.E.size() + 1 && b.H.size() == a.H.size() && b.F.size() == a.F.size() && b.V.size() == a.V.size() && n == a.E.size(), "separateToNewEdge: creates one edge");
  for (size_t h = 0; h < a.H.size(); h++) gs_assert(b.edge[h] == (h == x || h == y ? n : a.edge[h]) && b.next[h] == a.next[h] && b.vert[h] == a.vert[h] && b.face[h] == a.face[h], "separateToNewEdge: exactly the two halfedges move to the new edge");
  for (size_t k = 0; k < a.E.size(); k++) if (k != e) gs_assert(b.ehe[k] == a.ehe[k], "separateToNewEdge: other edges are untouched");
  for (size_t h : s) gs_assert(b.ori[h] == b.ori[x] ? a.ori[h] == a.ori[x] : a.ori[h] != a.ori[x], "separateToNewEdge: relative orientation is kept");
  gs_cover("edge separated");
}
static void ckSepAllE(SurfaceMesh& m) {
  GAbs a = gtakeValid(m, "before separateNonmanifoldEdges");
  m.separateNonmanifoldEdges();
  GAbs b = gtakeValid(m, "after separateNonmanifoldEdges");
  gs_assert(m.isEdgeManifold(), "separateNonmanifoldEdges: the result is edge-manifold");
  gs_assert(b.H.size() == a.H.size() && b.V.size() == a.V.size() && b.F.size() == a.F.size(), "separateNonmanifoldEdges: only edges are created");
  size_t expect = 0;
  for (size_t e = 0; e < a.E.size(); e++) { size_t k = a.sibs(a.ehe[e]).size(); expect += (k + 1) / 2; if (k <= 2) gs_assert(b.sibs(b.ehe[e]).size() == k, "separateNonmanifoldEdges: manifold edges are untouched"); }
  gs_assert(b.E.size() == expect, "separateNonmanifoldEdges: the halfedges of an edge are paired up");
  std::map<size_t, size_t> orig;
  for (size_t h = 0; h < a.H.size(); h++) {
    gs_assert(b.next[h] == a.next[h] && b.vert[h] == a.vert[h] && b.face[h] == a.face[h], "separateNonmanifoldEdges: faces are untouched");
    if (a.sibs(h).size() <= 2) gs_assert(b.edge[h] == a.edge[h], "separateNonmanifoldEdges: manifold edges are untouched");
    if (!orig.count(b.edge[h])) orig[b.edge[h]] = a.edge[h];
    gs_assert(orig[b.edge[h]] == a.edge[h], "separateNonmanifoldEdges: each new edge comes from one old edge");
  }
  gs_cover(b.E.size() > a.E.size() ? "edges separated" : "no non-manifold edge");
}
static void ckSepV(SurfaceMesh& m) {
  GAbs a = gtakeValid(m, "before separateNonmanifoldVertices"); bool eman = true, got = false;
  for (size_t e = 0; e < a.E.size(); e++) eman &= a.sibs(a.ehe[e]).size() <= 2;
  gcs::VertexData<Vertex> par;
  try { par = m.separateNonmanifoldVertices(); got = true; } catch (const std::exception&) {}
  gs_assert(got == eman, "separateNonmanifoldVertices: accepts exactly edge-manifold meshes");
  if (!got) { gs_cover("not edge manifold"); return; }
  GAbs b = gtakeValid(m, "after separateNonmanifoldVertices");
  gs_assert(m.isManifold(), "separateNonmanifoldVertices: the result is manifold");
  gs_assert(b.H.size() == a.H.size() && b.E.size() == a.E.size() && b.F.size() == a.F.size() && b.V.size() >= a.V.size(), "separateNonmanifoldVertices: only vertices are created");
  for (size_t v = 0; v < b.V.size(); v++) { size_t p = par[Vertex(&m, v)].getIndex(); gs_assert(p < a.V.size() && (v >= a.V.size() || p == v), "separateNonmanifoldVertices: every vertex has its original vertex as parent, originals are their own parent"); }
  for (size_t h = 0; h < a.H.size(); h++) gs_assert(b.next[h] == a.next[h] && b.edge[h] == a.edge[h] && b.face[h] == a.face[h] && par[Vertex(&m, b.vert[h])].getIndex() == a.vert[h], "separateNonmanifoldVertices: corners move only to copies of their vertex");
  size_t fans = 0; // number of edge-connected groups of corners overall
  { L c(a.H.size()); for (size_t i = 0; i < c.size(); i++) c[i] = i; auto join = [&](size_t x, size_t y) { x = c[x]; y = c[y]; if (x != y) for (auto& z : c) if (z == x) z = y; };
    for (size_t e = 0; e < a.E.size(); e++) { L s = a.sibs(a.ehe[e]); if (s.size() == 2) { if (a.ori[s[0]] == a.ori[s[1]]) { join(s[0], s[1]); join(a.next[s[0]], a.next[s[1]]); } else { join(s[0], a.next[s[1]]); join(a.next[s[0]], s[1]); } } }
    fans = std::set<size_t>(c.begin(), c.end()).size();
    for (size_t i = 0; i < c.size(); i++) for (size_t j = 0; j < i; j++) gs_assert((c[i] == c[j]) == (b.vert[i] == b.vert[j]), "separateNonmanifoldVertices: one vertex per edge-connected group of corners"); }
  gs_assert(b.V.size() == fans, "separateNonmanifoldVertices: vertex count");
  gs_cover(b.V.size() > a.V.size() ? "vertices separated" : "already manifold");
}
static void ckOrient(SurfaceMesh& m) {
  GAbs a = gtakeValid(m, "before greedilyOrientFaces");
  m.greedilyOrientFaces();
  GAbs b = gtakeValid(m, "after greedilyOrientFaces");
  gs_assert(sameSizes(a, b), "greedilyOrientFaces: no elements are created");
  std::vector<char> inv(a.F.size(), 0);
  for (size_t f = 0; f < a.F.size(); f++) {
    L c = a.cyc(a.fhe[f]); bool k = true, i = true;
    for (size_t h : c) { k &= b.next[h] == a.next[h] && b.vert[h] == a.vert[h]; i &= b.next[a.next[h]] == h && b.vert[h] == a.tip(h); gs_assert(b.edge[h] == a.edge[h] && b.face[h] == f, "greedilyOrientFaces: sides keep their edge and face"); }
    gs_assert(k || i, "greedilyOrientFaces: each face is kept or inverted as a whole"); inv[f] = !k;
  }
  // parity search over faces across manifold edges: consistent orientation possible?
  std::vector<int> par(a.F.size(), -1); std::vector<size_t> comp(a.F.size(), NONE); std::vector<char> okc;
  for (size_t f0 = 0; f0 < a.F.size(); f0++) if (par[f0] < 0) {
    size_t id = okc.size(); okc.push_back(1); par[f0] = 0; comp[f0] = id; L st{f0};
    while (!st.empty()) { size_t f = st.back(); st.pop_back();
      for (size_t h : a.cyc(a.fhe[f])) { L s = a.sibs(h); if (s.size() != 2) continue; size_t o = s[1]; int want = par[f] ^ (a.ori[h] == a.ori[o]); size_t g = a.face[o];
        if (par[g] < 0) { par[g] = want; comp[g] = id; st.push_back(g); } else if (par[g] != want) okc[id] = 0; } }
  }
  for (size_t e = 0; e < a.E.size(); e++) { L s = b.sibs(b.ehe[e]); if (s.size() == 2 && okc[comp[a.face[s[0]]]]) gs_assert(b.ori[s[0]] != b.ori[s[1]], "greedilyOrientFaces: orientable parts end up consistently oriented"); }
  bool all = true; for (char c : okc) all &= c; gs_cover(all ? "orientable" : "not orientable");
}
static void gop(SurfaceMesh& m, size_t k, size_t lim, const char* nm) {
  auto lm = [&](size_t n) { L r; size_t q = lim && lim < n ? lim : n; for (size_t i = 0; i < q; i++) r.push_back(i * n / q); return r; };
  switch (k) {
  case 0: ckInvert(m, pick(nm, lm(m.nFaces()))); break;
  case 1: ckDuplicate(m, pick(nm, lm(m.nFaces()))); break;
  case 2: ckGFlip(m, pick(nm, lm(m.nEdges())), true); break;
  case 3: ckGFlip(m, pick(nm, lm(m.nEdges())), false); break;
  case 4: { size_t x = pick(nm, lm(m.nHalfedges())); GAbs a = gtake(m, "x"); L o = a.sibs(x); o.push_back(a.next[x]); ckSepNew(m, x, pick("he2", o)); break; }
  case 5: ckSepAllE(m); break;
  case 6: ckSepV(m); break;
  case 7: ckOrient(m); break;
  }
}
static void go(SurfaceMesh& m, size_t steps, size_t lim, size_t last = 0) {
  GTrack t(m); t.sync(gtakeValid(m, "start"));
  for (size_t s = 0; s < steps; s++) {
    gop(m, gs_choose(s == 0 ? "op1" : s == 1 ? "op2" : "op3", 8), s + 1 < steps ? lim : last, s == 0 ? "el1" : s == 1 ? "el2" : "el3");
    GAbs a = gtakeValid(m, "after edit"); t.sync(a);
    if (s + 1 == steps) gckQueries(m, a, "after edit");
    if (s + 1 == steps || gs_choose("compress", 2)) { t.compress(a); if (s + 1 < steps) t.sync(gtake(m, "x")); }
  }
}
static Polys book() {
  Polys P; size_t n = 3 + gs_choose("pages", 2);
  for (size_t i = 0; i < n; i++) { std::vector<size_t> f{0, 1, 2 + i}; if (i && gs_choose("turn", 2)) std::swap(f[0], f[1]); P.push_back(f); }
  return P;
}
static const std::vector<Polys>& zoo() {
  static std::vector<Polys> z;
  if (z.empty()) {
    z.push_back({{0, 1, 2}, {2, 1, 3}, {3, 4, 2}});                       // strip
    z.push_back({{0, 1, 2}, {1, 2, 3}, {2, 3, 4}});                       // strip, mixed orientation
    z.push_back({{0, 1, 2}, {0, 3, 4}});                                  // two triangles touching at a vertex
    z.push_back({{0, 1, 2}, {0, 2, 3}, {0, 3, 1}, {0, 4, 5}});            // cone and triangle at its apex
    z.push_back({{0, 1, 3}, {1, 2, 4}, {2, 3, 5}, {3, 4, 0}, {4, 5, 1}, {5, 0, 2}, {0, 1, 4}}); // many shared vertices
    z.push_back({{0, 1, 2}, {1, 3, 2}, {2, 3, 4}, {3, 5, 4}, {4, 5, 0}, {5, 1, 0}});            // band
    z.push_back({{0, 1, 2}, {1, 3, 2}, {2, 3, 4}, {3, 0, 4}, {4, 0, 1}});                       // Moebius band
    z.push_back({{0, 1, 2, 3}, {0, 1, 4, 5}, {1, 0, 6, 7}});              // three quads along an edge
    z.push_back({{0, 1, 2}, {0, 2, 3}, {0, 3, 1}, {1, 3, 2}});            // tetrahedron
    z.push_back({{0, 1, 2}, {0, 2, 3}, {0, 3, 1}, {1, 3, 2}, {1, 2, 4}, {2, 3, 4}, {3, 1, 4}}); // tetrahedron glued on a tetrahedron: non-manifold edges
    z.push_back({{0, 1, 2}, {0, 1, 2}});                                  // same triangle twice
    z.push_back({{0, 1, 2}, {2, 1, 0}, {1, 2, 3}});
  }
  return z;
}
