// Normal coordinates: flip, split and insertion formulas against explicit arc counting; curves traced after flips.
#include "geo.h"
#include "geometrycentral/surface/normal_coordinates.h"
template <typename F> static bool throws(F f) { try { f(); } catch (std::exception&) { return true; } return false; }
typedef long long L;
static L pos(L x) { return x > 0 ? x : 0; }
static L mx(L a, L b) { return a > b ? a : b; }
static L num(const char* n, L lo, L hi) { return (L)gs_range(n, 0, hi - lo) + lo; }
// arcs in triangle with counts a, b, c across its sides; deg = arcs from the vertex opposite a; clip = arcs cutting it off
static L deg(L a, L b, L c) { return pos(pos(a) - pos(b) - pos(c)); }
static L clip(L a, L b, L c) { a = pos(a); b = pos(b); c = pos(c); return pos(b + c - a - deg(b, c, a) - deg(c, a, b)) / 2; }
static bool legal(L a, L b, L c) { a = pos(a); b = pos(b); c = pos(c); return deg(a, b, c) + deg(b, c, a) + deg(c, a, b) > 0 || (a + b + c) % 2 == 0; }
static L hi() { return gs_tier() ? 5 : 3; }
static L overlap(L a, L b, L n) { return pos(a + b - n); } // first a of n against last b of n
// two triangles ijk, ilj sharing ij: crossings of kl (negative: arcs along it)
static L flipped(L ij, L jk, L ki, L il, L lj) {
  L p = pos(ij), ui = clip(jk, ki, ij), uj = clip(ki, ij, jk), uk = deg(ij, jk, ki), li = clip(lj, ij, il), lj_ = clip(il, lj, ij), ll = deg(ij, il, lj);
  // arcs crossing ij in order from i: above, the first ui cut i, the last uj cut j, the rest end at k; below likewise
  L cross = overlap(ui, lj_, p) + overlap(li, uj, p), kl = mx(0, (p - uj < p - lj_ ? p - uj : p - lj_) - mx(ui, li)); (void)uk; (void)ll;
  cross += clip(ij, jk, ki) + clip(ij, il, lj) + deg(jk, ki, ij) + deg(ki, ij, jk) + deg(lj, ij, il) + deg(il, lj, ij) + pos(-ij);
  return cross > 0 ? cross : -kl;
}
static void flips(L neg) {
  L h = hi(), ij = num("ij", -neg, h), jk = num("jk", -neg, h), ki = num("ki", -neg, h), il = num("il", -neg, h), lj = num("lj", -neg, h);
  gs_assume(legal(ij, jk, ki)); gs_assume(legal(ij, il, lj));
  L kl = flipped(ij, jk, ki, il, lj); gs_assert(flipNormalCoordinates(ij, jk, ki, il, lj) == kl, "crossings of the flipped edge");
}
GS_HARNESS(flip_formula) { flips(2); }
GS_HARNESS(flip_back) { // flipping twice more rotates the edge back
  L h = hi() + 1, ij = num("ij", -1, h), jk = num("jk", 0, h), ki = num("ki", 0, h), il = num("il", 0, h), lj = num("lj", 0, h); gs_assume(legal(ij, jk, ki)); gs_assume(legal(ij, il, lj));
  L kl = flipNormalCoordinates(ij, jk, ki, il, lj); gs_assert(flipNormalCoordinates(kl, lj, jk, ki, il) == ij, "flipping the flipped edge gives the original crossings");
}
GS_HARNESS(corner_formula) {
  L h = 2 * hi(), a = num("a", -2, h), b = num("b", -2, h), c = num("c", -2, h); gs_assume(legal(a, b, c));
  gs_assert((L)strictDegree(a, b, c) == deg(a, b, c), "arcs leaving a corner"); gs_assert((L)strictCornerCoord(a, b, c) == clip(a, b, c), "arcs cutting off a corner"); if (clip(a, b, c) > 0) gs_assert(cornerCoord(a, b, c) == clip(a, b, c), "corner coordinate"); else gs_assert(cornerCoord(a, b, c) <= 0, "a corner not cut off has no positive coordinate");
}
GS_HARNESS(flip_round) {
  L h = hi(), nki = num("ki", -2, h), nlj = num("lj", -2, h), njk = num("jk", -2, h), nil = num("il", -2, h), nkl = num("kl", -2, h), nij = num("ij", -2, 2), dk = num("dk", 0, 4), dl = num("dl", 0, 4), rki = num("rki", 0, 3), rlj = num("rlj", 0, 3);
  gs_assume(dk == 0 || rki < dk); gs_assume(dl == 0 || rlj < dl);
  auto r = flipRoundabouts(nij, njk, nki, nil, nlj, nkl, rki, rlj, dk, dl); L a = rki + pos(-nki) + deg(nil, nki, nkl), b = rlj + pos(-nlj) + deg(njk, nlj, nkl);
  gs_assert((L)r.first == (dk ? a % dk : 0) && (L)r.second == (dl ? b % dl : 0), "order of the flipped edge around its end points");
}
// -------------------------------------------------------------- splits
struct T2 { std::unique_ptr<ManifoldSurfaceMesh> m; std::unique_ptr<EdgeLengthGeometry> g; Edge e; L ij, jk, ki, il, lj; };
static T2 two(bool below) {
  T2 t; L h = hi(); t.ij = num("ij", -1, h + 1); t.jk = num("jk", -1, h); t.ki = num("ki", -1, h); t.il = below ? num("il", -1, h) : 0; t.lj = below ? num("lj", -1, h) : 0;
  gs_assume(legal(t.ij, t.jk, t.ki)); if (below) gs_assume(legal(t.ij, t.il, t.lj));
  t.m.reset(below ? new ManifoldSurfaceMesh({{0, 1, 2}, {0, 3, 1}}) : new ManifoldSurfaceMesh({{0, 1, 2}})); t.g.reset(new EdgeLengthGeometry(*t.m, EdgeData<double>(*t.m, 1.)));
  for (Edge e : t.m->edges()) if (below ? !e.isBoundary() : e == t.m->face(0).halfedge().edge()) t.e = e;
  return t;
}
static void put(NormalCoordinates& n, T2& t, bool below) { Halfedge h = t.e.halfedge(); n[t.e] = t.ij; n[h.next().edge()] = t.jk; n[h.next().next().edge()] = t.ki; if (below) { h = h.twin(); n[h.next().edge()] = t.il; n[h.next().next().edge()] = t.lj; } }
// crossings of the edge from the opposite vertex to a point after the first s crossings
static L toPoint(L ij, L jk, L ki, L s) { if (ij < 0) return mx(0, mx(jk, ki)); return pos(clip(jk, ki, ij) - s) + pos(clip(ki, ij, jk) - (ij - s)) + clip(ij, jk, ki) + deg(jk, ki, ij) + deg(ki, ij, jk); }
GS_HARNESS(split) {
  T2 t = two(true); NormalCoordinates n(*t.m); put(n, t, true); L s = num("seg", 0, hi() + 1); gs_assume(s <= pos(t.ij));
  auto r = n.computeInteriorEdgeSplitDataCombinatorial(*t.g, t.e, s);
  gs_assert(r[1] == (t.ij < 0 ? t.ij : t.ij - s) && r[3] == (t.ij < 0 ? t.ij : s), "the halves of a split edge share its crossings"); gs_assert(r[2] == toPoint(t.ij, t.jk, t.ki, s), "crossings of the new edge on the near side"); gs_assert(r[0] == toPoint(pos(t.ij) == t.ij ? t.ij : t.ij, t.il, t.lj, t.ij - s < 0 ? 0 : t.ij - s) || t.ij < 0, "crossings of the new edge on the far side"); if (t.ij < 0) gs_assert(r[0] == mx(0, mx(t.il, t.lj)), "crossings of the new edge on the far side");
}
// -------------------------------------------------------------- sequences of flips on a mesh
static void check(ManifoldSurfaceMesh& m, NormalCoordinates& n, std::multiset<std::pair<size_t, size_t>> ends) {
  for (Face f : m.faces()) { Halfedge h = f.halfedge(); L a = n[h.edge()], b = n[h.next().edge()], c = n[h.next().next().edge()]; gs_assert(legal(a, b, c), "the crossings of a triangle's sides pair up"); }
  for (Vertex v : m.vertices()) { L d = n.roundaboutDegrees[v]; for (Halfedge h : v.outgoingHalfedges()) { if (!h.isInterior()) continue; Halfedge k = h.next().next().twin(); Halfedge o = h.next(); L step = pos(-n[h.edge()]) + deg(n[o.edge()], n[o.next().edge()], n[h.edge()]); if (k.isInterior() || n[k.edge()] < 0) gs_assert(d == 0 || (n.roundabouts[h] + step) % d == n.roundabouts[k], "roundabouts count the curves leaving a vertex in order"); } }
  std::multiset<std::pair<size_t, size_t>> got; L used = 0;
  for (auto& c : n.topologicalTraceAllCurves()) { Halfedge h = c.crossings.front().second; size_t a, b; if (c.crossings.front().first < 0) { gs_assert(c.crossings.size() == 1 && c.crossings.front().first == -1, "one curve along the edge"); a = h.vertex().getIndex(); b = h.next().vertex().getIndex(); } else { a = h.next().next().vertex().getIndex(); Halfedge z = c.crossings.back().second.twin(); b = z.next().next().vertex().getIndex(); used += c.crossings.size(); for (auto& x : c.crossings) gs_assert(x.first < n[x.second.edge()], "crossings are numbered along the edge"); if (a > b) std::swap(a, b); got.insert({a, b}); continue; } if (a > b) std::swap(a, b); got.insert({a, b}); got.insert({a, b}); }
  L total = 0; for (Edge e : m.edges()) total += pos(n[e]); std::multiset<std::pair<size_t, size_t>> want; for (auto& x : ends) { want.insert(x); want.insert(x); }
  gs_assert(used == 2 * total, "tracing every curve from both ends meets every crossing twice"); gs_assert(got == want, "the curves are the original edges");

}
// every curve drawn with equally spaced crossings
static void drawn(ManifoldSurfaceMesh& m, NormalCoordinates& n) {
  auto curves = n.topologicalTraceAllCurves(); auto pts = n.generateAnyGeometry(); gs_assert(curves.size() == pts.size(), "a polyline for every curve");
  for (size_t i = 0; i < curves.size() && i < pts.size(); i++) {
    auto& c = curves[i].crossings; auto& q = pts[i]; Halfedge h0 = c.front().second;
    if (c.front().first < 0) { gs_assert(q.size() == 2 && q[0].vertex == h0.tailVertex() && q[1].vertex == h0.tipVertex(), "a curve along an edge is that edge"); continue; }
    bool startsAtVertex = !h0.edge().isBoundary() || c.size() == 1, endsAtVertex = !c.back().second.edge().isBoundary(), loop = c.size() > 1 && c.front() == c.back(); size_t k = 0;
    if (loop) startsAtVertex = endsAtVertex = false;
    gs_assert(q.size() == c.size() + (startsAtVertex ? 1 : 0) + (endsAtVertex ? 1 : 0), "a polyline has its end vertices and one point for each crossing");
    if (startsAtVertex) { gs_assert(q[0].type == SurfacePointType::Vertex && q[0].vertex == h0.next().tipVertex(), "a polyline starts at the vertex its curve leaves"); k = 1; }
    for (auto& x : c) { if (k >= q.size()) break; SurfacePoint& p = q[k++]; double t = double(x.first + 1) / double(n[x.second.edge()] + 1); gs_assert(p.type == SurfacePointType::Edge && p.edge == x.second.edge() && gs_close(p.tEdge, x.second == p.edge.halfedge() ? t : 1 - t, 1e-9), "a polyline meets an edge at evenly spaced points"); }
    if (endsAtVertex && k < q.size()) gs_assert(q[k].type == SurfacePointType::Vertex && q[k].vertex == c.back().second.twin().next().tipVertex(), "a polyline ends at the vertex its curve reaches");
  }
}
static void run(size_t mi, size_t steps) {
  auto sm = catMesh(mi); ManifoldSurfaceMesh& m = *static_cast<ManifoldSurfaceMesh*>(sm.get()); NormalCoordinates n(m); n.setCurvesFromEdges(m);
  std::multiset<std::pair<size_t, size_t>> ends; for (Edge e : m.edges()) { size_t a = e.firstVertex().getIndex(), b = e.secondVertex().getIndex(); if (a > b) std::swap(a, b); ends.insert({a, b}); }
  check(m, n, ends);
  for (size_t s = 0; s < steps; s++) { Edge e = m.edge(gs_choose("edge", m.nEdges())); if (e.isBoundary()) gs_stop(); auto d = n.computeFlippedData(e); if (!m.flip(e, false)) gs_stop(); n.applyFlippedData(e, d); }
  check(m, n, ends); drawn(m, n);
}
// -------------------------------------------------------------- arbitrary legal coordinates: arcs followed one by one
typedef std::pair<Halfedge, L> X; // crossing number i (from the tail) of a halfedge, entering the halfedge's face... leaving its twin's
// the arc entering face of h at crossing i: the side it leaves by (number counted along the twin) or no halfedge if it ends at the opposite vertex
static X through(NormalCoordinates& n, Halfedge h, L i) {
  L a = n[h.edge()], b = n[h.next().edge()], c = n[h.next().next().edge()], tail = clip(b, c, a), tip = clip(c, a, b); Halfedge p = h.next().next(), q = h.next();
  if (i < tail) return {p.twin(), i}; if (i >= pos(a) - tip) return {q.twin(), pos(b) - 1 - (pos(a) - 1 - i)}; return {Halfedge(), 0};
}
static void traces(size_t mi, L top) {
  auto sm = catMesh(mi); ManifoldSurfaceMesh& m = *static_cast<ManifoldSurfaceMesh*>(sm.get()); NormalCoordinates n(m); size_t k = 0;
  for (Edge e : m.edges()) { int x = (int)num(("n" + std::to_string(k)).c_str(), -1, top); k++; n[e] = x; }
  for (Face f : m.faces()) { Halfedge h = f.halfedge(); gs_assume(legal(n[h.edge()], n[h.next().edge()], n[h.next().next().edge()])); }
  for (Edge e : m.edges()) n[e] = (int)gs_fork(n[e]);
  // from every crossing, in both directions
  for (Edge e : m.edges()) for (Halfedge h : {e.halfedge(), e.halfedge().twin()}) for (L i = 0; i < n[e]; i++) {
    if (!h.twin().isInterior()) continue; // the curve runs into the face of the twin
    std::vector<X> want{{h, i}}; X at{h, i};
    while (true) { Halfedge t = at.first.twin(); X nx = through(n, t, n[t.edge()] - 1 - at.second); // crossing numbers along the twin run backwards
      if (nx.first == Halfedge()) break; at = {nx.first.twin(), n[nx.first.edge()] - 1 - nx.second}; at = {at.first, at.second}; (void)nx;
      want.push_back(at); if (at == X{h, i} || at.first.edge().isBoundary() || want.size() > 60) break; }
    auto got = n.topologicalTrace(h, (int)i).crossings; bool same = got.size() == want.size(); for (size_t j = 0; same && j < got.size(); j++) same = got[j].second.edge() == want[j].first.edge();
    gs_assert(same, "a traced curve crosses the edges its arcs lead through");
    for (size_t j = 0; same && j < got.size(); j++) gs_assert(got[j].second == want[j].first && got[j].first == (int)want[j].second, "crossings of a traced curve are numbered along its halfedges");
  }
  // both ways from a crossing
  for (Edge e : m.edges()) for (Halfedge h : {e.halfedge(), e.halfedge().twin()}) for (L i = 0; i < n[e] && !e.isBoundary(); i++) {
    auto fw = n.topologicalTrace(h, (int)i).crossings; if (fw.size() > 1 && fw.front() == fw.back()) { gs_assert(throws([&] { n.topologicalTraceBidirectional(h, (int)i); }), "a closed curve has no two ends"); continue; }
    auto bw = n.topologicalTrace(h.twin(), (int)(n[e] - 1 - i)).crossings; std::vector<std::pair<int, Halfedge>> want; for (size_t j = bw.size(); j-- > 0;) want.push_back({n[bw[j].second.edge()] - 1 - bw[j].first, bw[j].second.twin()}); for (size_t j = 1; j < fw.size(); j++) want.push_back(fw[j]);
    std::tuple<NormalCoordinatesCurve, int> got; bool threw = throws([&] { got = n.topologicalTraceBidirectional(h, (int)i); }); gs_assert(!threw, "a curve with two ends is traced both ways"); if (!threw) gs_assert(std::get<0>(got).crossings == want && std::get<1>(got) == (int)bw.size() - 1, "tracing both ways joins the two halves at the crossing");
  }
  // together the curves use every crossing once
  EdgeData<std::vector<int>> uses(m); for (Edge e : m.edges()) uses[e].assign(n[e] > 0 ? n[e] : 0, 0); std::vector<int> fromEnds; L along = 0;
  for (auto& c : n.topologicalTraceAllCurves()) {
    if (c.crossings.front().first < 0) { along++; gs_assert(c.crossings.size() == 1 && c.crossings.front().first == n[c.crossings.front().second.edge()], "arcs along an edge are reported together"); continue; }
    bool loop = c.crossings.size() > 1 && c.crossings.front() == c.crossings.back(); size_t len = c.crossings.size() - (loop ? 1 : 0);
    for (size_t j = 0; j < len; j++) { Edge e = c.crossings[j].second.edge(); int i = c.crossings[j].first; bool in = i >= 0 && i < n[e]; gs_assert(in, "crossings are numbered along the edge"); if (!in) continue; if (c.crossings[j].second != e.halfedge()) i = n[e] - 1 - i; uses[e][i]++; }
  }
  for (Edge e : m.edges()) { for (int u : uses[e]) gs_assert(u == 1 || u == 2, "every crossing is on a traced curve"); if (n[e] < 0) along--; }
  gs_assert(along == 0, "arcs along edges are reported"); drawn(m, n);
}
GS_HARNESS(trace_one) { traces(11, gs_tier() ? 4 : 3); }
GS_HARNESS(trace_strip) { traces(1, gs_tier() ? 2 : 1); }
GS_HARNESS(trace_fan) { traces(3, gs_tier() ? 2 : 1); }
GS_HARNESS(trace_tet) { traces(0, gs_tier() ? 3 : 2); }
GS_HARNESS(trace_pillow) { traces(13, gs_tier() ? 4 : 2); }
// -------------------------------------------------------------- a vertex inserted among straight arcs
static void inserted(size_t top) {
  gs_mode_real(); std::array<size_t, 3> n; size_t tot = 0; for (size_t i = 0; i < 3; i++) { n[i] = gs_choose("n", top + 1); tot += n[i]; } gs_assume(legal(n[0], n[1], n[2])); if (tot > top + 2) gs_stop();
  std::array<std::vector<double>, 3> t; for (size_t i = 0; i < 3; i++) { double last = 0; for (size_t j = 0; j < n[i]; j++) { double x = gs_double("t", double(j + 1) / double(n[i] + 1)); gs_assume(x >= last + 0.05 && x <= 0.95); t[i].push_back(x); last = x; } }
  double u = gs_double("u", 0.3), v = gs_double("v", 0.45); gs_assume(u >= 0.02 && v >= 0.02 && u + v <= 0.98); Vector3 b{u, v, 1 - u - v};
  Vector2 P[3] = {{0, 0}, {1, 0}, {0, 1}}, p = P[0] * b.x + P[1] * b.y + P[2] * b.z; std::array<L, 3> want{0, 0, 0};
  auto at = [&](size_t e, size_t k) { return P[e] * (1 - t[e][k]) + P[(e + 1) % 3] * t[e][k]; };
  auto side = [&](Vector2 a, Vector2 c, Vector2 x) { return (c.x - a.x) * (x.y - a.y) - (c.y - a.y) * (x.x - a.x); };
  for (size_t w = 0; w < 3; w++) { // corner w lies between edges w (leaving) and w+2 (arriving); opposite edge w+1
    size_t out = w, in = (w + 2) % 3, opp = (w + 1) % 3; L c = clip(n[opp], n[in], n[out]), d = deg(n[opp], n[in], n[out]);
    for (L k = 0; k < c; k++) { Vector2 A = at(in, n[in] - 1 - k), B = at(out, k); double s = side(A, B, p); gs_assume(s != 0); double sw = side(A, B, P[w]); if ((s > 0) == (sw > 0)) { want[(w + 1) % 3]++; want[(w + 2) % 3]++; } else want[w]++; }
    for (L k = 0; k < d; k++) { Vector2 B = at(opp, clip(n[in], n[out], n[opp]) + k); double s = side(P[w], B, p); gs_assume(s != 0); if (s > 0) want[(w + 1) % 3]++; else want[(w + 2) % 3]++; }
  }
  auto got = computeVertexInsertionCrossingCounts(b, t); for (size_t i = 0; i < 3; i++) gs_assert(got[i] == want[i], "a segment from a corner to the new vertex crosses the arcs that separate them");
}
GS_HARNESS(insert_counts) { inserted(gs_tier() ? 3 : 2); }
GS_HARNESS(split_boundary) { // nothing crosses the edge
  T2 t = two(false); NormalCoordinates n(*t.m); gs_assume(t.ij <= 0); put(n, t, false); auto r = n.computeBoundaryEdgeSplitDataGeodesic(*t.g, t.e, 0.5);
  gs_assert(r[0] == t.ij && r[2] == t.ij && r[1] == mx(0, mx(t.jk, t.ki)), "crossings of the edge added by splitting a boundary edge");
}
GS_HARNESS(seq_strip) { run(1, gs_tier() ? 8 : 5); }
GS_HARNESS(seq_fan) { run(3, gs_tier() ? 5 : 3); }
GS_HARNESS(seq_tet) { run(0, gs_tier() ? 4 : 3); }
GS_HARNESS(seq_pillow) { run(13, gs_tier() ? 5 : 3); }
GS_HARNESS(seq_deg4) { run(2, gs_tier() ? 5 : 3); }
