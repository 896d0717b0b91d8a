// Robust intrinsic processing: tufted cover, mollification, length-based Delaunay flipping.
#include "gmesh.h"
#include "geo.h"
#include "geometrycentral/surface/tufted_laplacian.h"
#include "geometrycentral/surface/intrinsic_mollification.h"
#include "geometrycentral/surface/simple_idt.h"

// ---- tufted cover
static void tufted(const Polys& P) {
  Reading r = readPolys(P);
  if (!r.degOk || !r.dense || r.selfEdge) return;
  gs_mode_real();
  SurfaceMesh m(P); size_t nF = P.size(), nV = m.nVertices(), nE0 = m.nEdges();
  EdgeData<double> l(m); std::map<std::pair<size_t, size_t>, double> want;
  for (Edge e : m.edges()) { double v = gs_double("len", 1 + e.getIndex()); gs_assume(v > 0); l[e] = v; want[up(e.halfedge().tailVertex().getIndex(), e.halfedge().tipVertex().getIndex())] = v; }
  std::map<std::pair<size_t, size_t>, size_t> deg; size_t sides = 0;
  for (auto& p : P) for (size_t j = 0; j < 3; j++) { deg[up(p[j], p[(j + 1) % 3])]++; sides++; }
  buildIntrinsicTuftedCover(m, l);
  GAbs a = gtakeValid(m, "tufted cover");
  gs_assert(m.nFaces() == 2 * nF && m.nVertices() == nV && m.nEdges() == sides, "tufted cover: two sheets of every face, the same vertices, one edge per pair of sides");
  // match the sheets: original faces keep index and order, each has one reversed copy
  std::vector<size_t> other(a.H.size(), NONE); std::vector<char> used(a.F.size(), 0);
  for (size_t f = 0; f < nF; f++) {
    L c = a.cyc(a.fhe[f]); gs_assert(c.size() == 3, "tufted cover: faces stay triangles");
    std::vector<size_t> v; for (size_t h : c) v.push_back(a.vert[h]);
    gs_assert(v == P[f] || (v[1] == P[f][0] && v[2] == P[f][1]) || (v[2] == P[f][0] && v[0] == P[f][1]), "tufted cover: the front sheet keeps the face's vertices and orientation");
    size_t b = nF; bool ok = false;
    for (; b < a.F.size() && !ok; b++) if (!used[b]) { L d = a.cyc(a.fhe[b]); for (size_t s = 0; s < 3 && !ok; s++) { bool g = d.size() == 3; for (size_t j = 0; j < 3 && g; j++) g = a.vert[d[(s + 3 - j) % 3]] == a.tip(c[j]); // d runs backwards: starts where c ends
          if (g) { ok = true; used[b] = 1; for (size_t j = 0; j < 3; j++) { other[c[j]] = d[(s + 3 - j) % 3]; other[d[(s + 3 - j) % 3]] = c[j]; } } } }
    gs_assert(ok, "tufted cover: every face has a back sheet with the opposite orientation");
  }
  for (size_t h = 0; h < a.H.size(); h++) if (a.H[h]) {
    gs_assert(a.sib[h] != h && a.sib[a.sib[h]] == h, "tufted cover: every edge joins exactly two sides (edge-manifold, no boundary)");
    gs_assert(a.vert[a.sib[h]] == a.tip(h) && a.tip(a.sib[h]) == a.vert[h], "tufted cover: neighbouring sheets are consistently oriented");
  }
  if ([&] { std::map<std::vector<size_t>, int> n; for (auto p : P) { std::sort(p.begin(), p.end()); if (n[p]++) return false; } return true; }()) // distinct faces: the sheets are matched uniquely
    for (size_t h = 0; h < a.H.size(); h++) if (a.H[h]) {
      size_t n = 0, x = h; do { x = a.sib[other[x]]; n++; } while (x != h && n < 50);
      gs_assert(n == deg[up(a.vert[h], a.tip(h))], "tufted cover: sheets around an edge form one cycle through all its faces");
    }
  gs_assert(m.isEdgeManifold() && m.isOriented() && !m.hasBoundary(), "tufted cover: reported as closed, oriented, edge-manifold");
  for (size_t e = 0; e < a.E.size(); e++) if (a.E[e]) EQ(l[Edge(&m, e)], (want[up(a.vert[a.ehe[e]], a.tip(a.ehe[e]))]), "tufted cover: edges keep their lengths");
  (void)nE0;
}
GS_HARNESS(tuft) { Polys P; if (gs_tier() && gs_choose("more", 2)) P = growPolys({3, 3, 3, 3}, true); else P = growPolys({3, 3, 3}, true); tufted(P); }
GS_HARNESS(tuftfan) { tufted({{0, 1, 2}, {1, 0, 3}, {0, 1, 4}, {0, 1, 5}}); tufted({{0, 1, 2}, {0, 2, 3}, {0, 3, 1}, {0, 4, 5}}); }

// ---- mollification
static void moll(size_t i) {
  gs_mode_real();
  MeshP m = geoMesh(i); size_t k = 0; EdgeData<double> l(*m);
  for (Edge e : m->edges()) { double v = gs_double("len", k % 3 == 2 ? 3. : 1. + .1 * k); k++; gs_assume(v > 0); l[e] = v; }
  double f = gs_double("factor", .125), d = f; gs_assume(f > 0);
  EdgeData<double> o = l; bool rel = gs_choose("relative", 2);
  if (rel) { double s = 0; for (Edge e : m->edges()) s += o[e]; d = f * s / (double)m->nEdges(); mollifyIntrinsic(*m, l, f); } else mollifyIntrinsicAbsolute(*m, l, f);
  double off = 0; bool first = true, tight = false, need = false;
  for (Edge e : m->edges()) { double q = l[e] - o[e]; if (first) off = q; else EQ(q, off, "mollification lengthens every edge by the same amount"); first = false; }
  for (Face F : m->faces()) { double a[3]; len3(o, F.halfedge(), a[0], a[1], a[2]);
    for (int j = 0; j < 3; j++) { double g = a[j] + a[(j + 1) % 3] - a[(j + 2) % 3], h = g + off - d; need |= g < d; tight |= h == 0; gs_assert(h >= 0 || gs_close(h, 0, 1e-9), "after mollification every triangle satisfies its inequality with the requested slack"); } }
  if (need) { gs_assert(off > 0 || gs_close(off, 0, 1e-12), "mollification lengthens edges when some triangle is too thin"); } else EQ(off, 0., "mollification leaves good lengths unchanged");
  double worst = 0; for (Face F : m->faces()) { double a[3]; len3(o, F.halfedge(), a[0], a[1], a[2]); for (int j = 0; j < 3; j++) { double g = d - (a[j] + a[(j + 1) % 3] - a[(j + 2) % 3]); if (g > worst) worst = g; } }
  EQ(off, worst, "mollification adds no more than necessary"); (void)tight;
}
GS_HARNESS(moll) { size_t s[] = {11, 100, 200, 1, 0}; moll(s[gs_choose("mesh", gs_tier() ? 5 : 3)]); }

// ---- Delaunay flipping
static double hscore(SurfaceMesh& m, const EdgeData<double>& l, Halfedge h) { double a, b, c; len3(l, h, a, b, c); return (b * b + c * c - a * a) / (a * b * c); }
static double hcot(SurfaceMesh& m, const EdgeData<double>& l, Halfedge h) { double a, b, c; len3(l, h, a, b, c); double s = (a + b + c) * (a + b - c) * (b + c - a) * (c + a - b); return (b * b + c * c - a * a) / std::sqrt(s) / 2; }
static void idt(size_t i, FlipType t, double eps, size_t f0, size_t f1, bool scalene = false) {
  gs_mode_real();
  MeshP m = i == 300 ? MeshP(new SurfaceMesh({{0, 1, 2}, {0, 1, 3}})) : geoMesh(i); bool hyp = t == FlipType::Hyperbolic; EdgeData<double> l(*m); size_t k = 0;
  double sc = f1 == NONE ? gs_double("scale", 1) : 1; gs_assume(sc > 0);
  const double other[] = {2, 1.75, 2.5, 1.5, 2.25};
  for (Edge e : m->edges()) { size_t deg = 0; for (Halfedge h : e.adjacentHalfedges()) deg += h.isInterior(); double v = sc * (scalene ? (deg == 2 ? 3. : other[k]) : k == (f0 + 2) % 5 ? 1. : 2.); if (k == f0 || k == f1) { v = gs_double("len", 1.25); gs_assume(v > 0); } k++; l[e] = v; }
  for (Face f : m->faces()) { double a, b, c; len3(l, f.halfedge(), a, b, c); gs_assume(a + b > c); gs_assume(b + c > a); gs_assume(c + a > b); }
  size_t nE = m->nEdges(), nF = m->nFaces(); EdgeData<double> o = l; std::map<size_t, std::pair<size_t, size_t>> ends;
  for (Edge e : m->edges()) ends[e.getIndex()] = up(e.halfedge().tailVertex().getIndex(), e.halfedge().tipVertex().getIndex());
  // what one flip of an edge makes of its length
  std::map<size_t, double> once; std::map<size_t, bool> bad;
  for (Edge e : m->edges()) { size_t deg = 0; for (Halfedge h : e.adjacentHalfedges()) deg += h.isInterior(); if (deg != 2) continue;
    Halfedge a = e.halfedge(), b = a.sibling(); if (!m->usesImplicitTwin()) {} double c, p, q, c2, r, s; len3(o, a, c, p, q); len3(o, b, c2, r, s); if (a.tailVertex() == b.tailVertex()) std::swap(r, s);
    if (hyp) { once[e.getIndex()] = (p * r + q * s) / c; bad[e.getIndex()] = hscore(*m, o, a) + hscore(*m, o, b) < 0 - eps; }
    else { // law of cosines in the quad: angle at the tail of a is the sum of the two corners there
      double ca = (c * c + q * q - p * p) / (2 * c * q), cb = (c * c + r * r - s * s) / (2 * c * r), A = std::sqrt((c + p + q) * (c + p - q) * (p + q - c) * (q + c - p)) / (2 * c * q), B = std::sqrt((c + r + s) * (c + r - s) * (r + s - c) * (s + c - r)) / (2 * c * r);
      once[e.getIndex()] = q * q + r * r - 2 * q * r * (ca * cb - A * B); bad[e.getIndex()] = hcot(*m, o, a) + hcot(*m, o, b) < 0 - eps; } }
  size_t nb = 0; for (auto& p : bad) nb += gs_fork(p.second);
  size_t n = flipToDelaunay(*m, l, t, eps);
  gs_assert(m->nEdges() == nE && m->nFaces() == nF, "flipping keeps the element counts");
  bool ok = true; try { m->validateConnectivity(); } catch (const std::exception&) { ok = false; } gs_assert(ok, "flipping keeps the mesh valid");
    gs_assert((n > 0) == (nb > 0), "an edge is flipped exactly when some edge violates the Delaunay condition");
  if (n == 0) { for (Edge e : m->edges()) EQ(l[e], o[e], "lengths are unchanged when nothing is flipped"); gs_cover("already Delaunay"); return; }
  gs_cover("flipped");
  for (Edge e : m->edges()) { size_t deg = 0; for (Halfedge h : e.adjacentHalfedges()) deg += h.isInterior();
    if (deg != 2) { EQ(l[e], o[e], "boundary edges keep their lengths"); continue; }
    double w = hyp ? hscore(*m, l, e.halfedge()) + hscore(*m, l, e.halfedge().sibling()) : 0;
    if (hyp) gs_assert(w >= 0 - eps || gs_close(w, 0 - eps, 1e-9), "every interior edge is Delaunay in the end");
    if (n == 1) { if (up(e.halfedge().tailVertex().getIndex(), e.halfedge().tipVertex().getIndex()) != ends[e.getIndex()]) EQ(hyp ? l[e] : l[e] * l[e], once[e.getIndex()], "a flipped edge gets the length of the other diagonal"); else EQ(l[e], o[e], "edges that are not flipped keep their lengths"); } }
}
GS_HARNESS(idthyp) { size_t s[] = {100, 300, 201, 1}; size_t i = s[gs_choose("mesh", gs_tier() ? 4 : 2)], f = gs_choose("free", 5); idt(i, FlipType::Hyperbolic, gs_choose("eps", 2) ? 0. : 1e-6, f, (f + 1) % 5); }
GS_HARNESS(idteuc) { size_t s[] = {100, 300}; size_t i = s[gs_choose("mesh", 2)], f = gs_choose("free", 5); idt(i, FlipType::Euclidean, gs_choose("eps", 2) ? 0. : 1e-6, f, NONE); }
GS_HARNESS(idtscal) { size_t s[] = {100, 300}; size_t i = s[gs_choose("mesh", 2)], f = gs_choose("free", 5); bool hyp = gs_choose("hyp", 2); idt(i, hyp ? FlipType::Hyperbolic : FlipType::Euclidean, gs_choose("eps", 2) ? 0. : 1e-6, f, NONE, true); }
