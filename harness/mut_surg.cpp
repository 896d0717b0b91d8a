#include "mut_common.h"
DEF(separate, [](ManifoldSurfaceMesh& m) { ckSeparate(m, pick("edge", liveE(m))); })
DEF(switchSides, [](ManifoldSurfaceMesh& m) { ckSwitch(m, pick("edge", liveE(m))); })
#include "geometrycentral/surface/surgery.h"
// cutAlongEdges: a cut that is a simple path (what the function supports), with at most one end on the boundary.
static void ckCut(ManifoldSurfaceMesh& m, const VS& cut) {
  Abs a = takeValid(m, "before cutAlongEdges");
  gcs::EdgeData<char> c(m, 0);
  for (size_t e : cut) c[Edge(&m, e)] = 1;
  std::unique_ptr<ManifoldSurfaceMesh> out; gcs::HalfedgeData<Halfedge> par;
  std::tie(out, par) = gcs::cutAlongEdges(m, c);
  gs_assert(same(a, takeValid(m, "input of cutAlongEdges")), "cutAlongEdges: the input mesh is not modified");
  ManifoldSurfaceMesh& o = *out;
  Abs b = takeValid(o, "after cutAlongEdges");
  gs_assert(b.cF() == a.cF() && b.cE() == a.cE() + cut.size(), "cutAlongEdges: same faces, one extra edge per cut edge");
  std::set<size_t> hit;
  for (size_t h = 0; h < b.H.size(); h++) if (b.H[h]) {
    Halfedge P = par[HE(o, h)];
    if (b.ext(h)) {
      size_t pt = par[HE(o, b.twin[h])].getIndex();
      if (has(cut, a.edge[pt])) gs_assert(P == Halfedge(), "cutAlongEdges: exterior halfedges along the cut have no parent");
      continue;
    }
    gs_assert(P != Halfedge() && P.getMesh() == &m && P.getIndex() < a.H.size() && a.H[P.getIndex()] && !a.ext(P.getIndex()), "cutAlongEdges: every interior halfedge has an interior parent in the original mesh");
    size_t p = P.getIndex();
    gs_assert(hit.insert(p).second, "cutAlongEdges: parents are distinct");
    gs_assert(par[HE(o, b.next[h])] == HE(m, a.next[p]), "cutAlongEdges: faces keep their sides in order");
    bool isCut = has(cut, a.edge[p]), wasB = a.ext(a.twin[p]);
    gs_assert(b.ext(b.twin[h]) == (isCut || wasB), "cutAlongEdges: exactly the cut and original boundary edges are boundary");
    if (!isCut && !wasB) gs_assert(par[HE(o, b.twin[h])] == HE(m, a.twin[p]), "cutAlongEdges: uncut edges keep both their sides");
  }
  gs_cover("cut");
}
GS_HARNESS(cut_path) {
  // tetrahedron, octahedron, grid, torus, cube, fans: paths of 1..3 (thorough 4) edges
  static const VS M = {0, 2, 4, 6, 12, 8, 5, 16};
  auto m = catMesh(M[gs_choose("mesh", gs_tier() ? 8 : 5)]);
  Abs a = takeValid(*m, "cut input");
  size_t L = 1 + gs_choose("len", gs_tier() ? 4 : 3);
  VS hs; std::set<size_t> vis;
  VS all; for (size_t h = 0; h < a.H.size(); h++) all.push_back(h);
  size_t h = pick("start", all);
  vis.insert(a.vert[h]);
  for (size_t i = 0; i < L; i++) {
    if (i) { VS o; for (size_t y : a.outgoing(a.tip(hs.back()))) if (!vis.count(a.tip(y)) && !a.eBoundary(a.edge[y])) o.push_back(y); h = pick("step", o); }
    gs_assume(!a.eBoundary(a.edge[h]));
    gs_assume(vis.insert(a.tip(h)).second);
    hs.push_back(h);
  }
  size_t nb = 0; for (size_t v : vis) nb += a.vBoundary(v);
  bool endB = a.vBoundary(a.vert[hs[0]]) || a.vBoundary(a.tip(hs.back()));
  gs_assume(nb == 0 || (nb == 1 && endB));
  VS cut; for (size_t y : hs) cut.push_back(a.edge[y]);
  ckCut(*m, cut);
}
