// Identity tracking through attached containers: every live element carries a unique id, in every kind of MeshData.
#pragma once
#include "mut_common.h"
static const size_t DEF = 1000000007;
struct Track {
  ManifoldSurfaceMesh& m; size_t nextId = 1;
  gcs::VertexData<size_t> v; gcs::HalfedgeData<size_t> h; gcs::CornerData<size_t> c; gcs::EdgeData<size_t> e; gcs::FaceData<size_t> f; gcs::BoundaryLoopData<size_t> b;
  std::vector<size_t> pv, ph, pe, pf, pb; // id by index when last seen (NONE: dead)
  Track(ManifoldSurfaceMesh& m_) : m(m_), v(m_, DEF), h(m_, DEF), c(m_, DEF), e(m_, DEF), f(m_, DEF), b(m_, DEF) {}
  template <class E, class D> void one(D& d, std::vector<size_t>& p, const std::vector<char>& live, const char* ctx) {
    p.resize(live.size(), NONE);
    for (size_t i = 0; i < live.size(); i++) {
      E x(&m, i);
      if (!live[i]) { p[i] = NONE; continue; }
      if (p[i] == NONE) { CK(d[x] == DEF, ctx, "a new element holds the container's default value"); p[i] = d[x] = nextId++; }
      else CK(d[x] == p[i], ctx, "data attached to a surviving element is unchanged");
    }
  }
  void sync(const Abs& a, const char* ctx) {
    one<Vertex>(v, pv, a.V, ctx); one<Edge>(e, pe, a.E, ctx); one<Face>(f, pf, a.F, ctx); one<BoundaryLoop>(b, pb, a.B, ctx);
    std::vector<size_t> old = ph;
    one<Halfedge>(h, ph, a.H, ctx);
    for (size_t i = 0; i < a.H.size(); i++) if (a.H[i] && !a.ext(i)) {
      size_t& x = c[Halfedge(&m, i).corner()];
      if (i < old.size() && old[i] != NONE && x != DEF) CK(x == ph[i], ctx, "corner data of a surviving halfedge is unchanged");
      else { CK(x == DEF, ctx, "a new corner holds the container's default value"); x = ph[i]; }
    }
  }
  static bool toMap(const std::vector<size_t>& before, const std::vector<size_t>& after, VS& mp) { // index before -> after, by id
    std::map<size_t, size_t> w; size_t n = 0;
    for (size_t j = 0; j < after.size(); j++) { if (w.count(after[j])) return false; w[after[j]] = j; }
    mp.assign(before.size(), NONE);
    for (size_t i = 0; i < before.size(); i++) if (before[i] != NONE) { if (!w.count(before[i])) return false; mp[i] = w[before[i]]; n++; }
    return n == after.size();
  }
  // compress: a bijective relabelling under which the connectivity and all attached data are the same
  void compress(const Abs& a) {
    m.compress();
    Abs x = takeValid(m, "after compress");
    gs_assert(m.isCompressed(), "compress: isCompressed() afterwards");
    gs_assert(x.H.size() == x.cH() && x.V.size() == x.cV() && x.E.size() == x.cE() && x.F.size() == x.cF() && x.B.size() == x.cB(), "compress: index ranges are dense");
    std::vector<size_t> av, ah, ae, af, ab; VS mv, mh, me, mf, mb;
    for (size_t i = 0; i < x.V.size(); i++) av.push_back(v[Vertex(&m, i)]);
    for (size_t i = 0; i < x.H.size(); i++) ah.push_back(h[Halfedge(&m, i)]);
    for (size_t i = 0; i < x.E.size(); i++) ae.push_back(e[Edge(&m, i)]);
    for (size_t i = 0; i < x.F.size(); i++) af.push_back(f[Face(&m, i)]);
    for (size_t i = 0; i < x.B.size(); i++) ab.push_back(b[BoundaryLoop(&m, i)]);
    gs_assert(toMap(pv, av, mv), "compress: vertex data follows the vertices");
    gs_assert(toMap(ph, ah, mh), "compress: halfedge data follows the halfedges");
    gs_assert(toMap(pe, ae, me), "compress: edge data follows the edges");
    gs_assert(toMap(pf, af, mf), "compress: face data follows the faces");
    gs_assert(toMap(pb, ab, mb), "compress: boundary loop data is permuted");
    for (size_t i = 0; i < a.H.size(); i++) if (a.H[i]) {
      size_t j = mh[i];
      gs_assert(x.next[j] == mh[a.next[i]] && x.twin[j] == mh[a.twin[i]], "compress: halfedge data follows the halfedges (connectivity agrees)");
      gs_assert(x.vert[j] == mv[a.vert[i]], "compress: vertex data follows the vertices (connectivity agrees)");
      gs_assert(x.edge[j] == me[a.edge[i]], "compress: edge data follows the edges (connectivity agrees)");
      gs_assert(x.ext(j) == a.ext(i), "compress: exterior halfedges stay exterior");
      if (!a.ext(i)) gs_assert(x.face[j] == mf[a.face[i]], "compress: face data follows the faces (connectivity agrees)");
      else gs_assert(x.face[j] - LOOP == mb[a.face[i] - LOOP], "compress: boundary loop data follows the loops (connectivity agrees)");
      if (!a.ext(i)) gs_assert(c[Halfedge(&m, j).corner()] == ph[i], "compress: corner data follows the corners");
    }
    for (size_t i = 0; i < a.V.size(); i++) if (a.V[i]) gs_assert(x.vhe[mv[i]] == mh[a.vhe[i]], "compress: vertex.halfedge is preserved");
    for (size_t i = 0; i < a.E.size(); i++) if (a.E[i]) gs_assert(x.ehe[me[i]] == mh[a.ehe[i]], "compress: edge.halfedge is preserved");
    for (size_t i = 0; i < a.F.size(); i++) if (a.F[i]) gs_assert(x.fhe[mf[i]] == mh[a.fhe[i]], "compress: face.halfedge is preserved");
    pv = av; ph = ah; pe = ae; pf = af; pb = ab;
  }
};
static VS some(VS s, size_t n) { // at most n, spread
  if (n == 0 || s.size() <= n) return s;
  VS r; for (size_t i = 0; i < n; i++) r.push_back(s[i * s.size() / n]); return r;
}
// one checked operation; lim bounds the number of alternatives for its element (0: all)
static const size_t NOPS = 11;
static void op(ManifoldSurfaceMesh& m, size_t k, size_t lim, const char* nm) {
  auto E = [&]() { return pick(nm, some(liveE(m), lim)); };
  auto F = [&]() { return pick(nm, some(liveF(m), lim)); };
  switch (k) {
  case 0: ckFlip(m, E(), false); break;
  case 1: ckInsertAlong(m, E()); break;
  case 2: ckSplit(m, E()); break;
  case 3: ckInsertVertex(m, F()); break;
  case 4: ckTriangulate(m, F()); break;
  case 5: ckCollapse(m, E()); break;
  case 6: ckRemoveEdge(m, E()); break;
  case 7: ckRemoveFace(m, F()); break;
  case 8: ckRemoveVertex(m, pick(nm, some(liveV(m), lim))); break;
  case 9: ckSeparate(m, E()); break;
  case 10: { // connect a corner with the one two steps on
    size_t a = pick(nm, some(liveH(m), lim)); size_t b = HE(m, a).next().next().getIndex();
    ckConnect(m, a, b); break; }
  }
}
