// Level sets on triangle meshes: which faces carry a segment, where its ends lie, how it is oriented, how segments chain.
#include "geo.h"
#include "geometrycentral/surface/marching_triangles.h"
struct Node { bool vert; size_t i; bool operator<(const Node& o) const { return std::make_pair(vert, i) < std::make_pair(o.vert, o.i); } bool operator==(const Node& o) const { return vert == o.vert && i == o.i; } };
typedef std::pair<Node, Node> Seg;
static void march(size_t mi, size_t nSym, size_t from = 0) {
  gs_mode_real(); auto mp = geoMesh(mi); SurfaceMesh& m = *mp; EdgeData<double> l(m); size_t k = 0; for (Edge e : m.edges()) l[e] = 1. + .0625 * (k++ % 5);
  EdgeLengthGeometry g(m, l); VertexData<double> u(m); k = 0; double iso = gs_choose("level", 2) ? .5 : 0;
  for (Vertex v : m.vertices()) { if (k >= from && k < from + nSym) u[v] = gs_double("u", (k % 3) * .75 - .25); else { char c[8]; snprintf(c, 8, "s%zu", k); u[v] = iso + ((double)gs_choose(c, k < (gs_tier() ? 7 : 5) ? 3 : 2) - 1) * (1 + .25 * (k % 4)); } k++; }
  // sign of every vertex decides everything
  std::map<size_t, int> sg; for (Vertex v : m.vertices()) { bool lo = u[v] < iso, hi = u[v] > iso; sg[v.getIndex()] = lo ? -1 : hi ? 1 : 0; if (lo) { gs_assume(u[v] <= iso - 1. / 64); gs_assume(u[v] > iso - 4); } if (hi) { gs_assume(u[v] >= iso + 1. / 64); gs_assume(u[v] < iso + 4); } } // away from rounding
  std::map<Seg, int> want; std::map<size_t, std::set<std::pair<size_t, size_t>>> flat; // flat: edges inside the level set, orientations allowed by their faces
  for (Face f : m.faces()) {
    size_t v[3], e[3]; int s[3], z = 0, j = 0; for (Halfedge h : f.adjacentHalfedges()) { v[j] = h.vertex().getIndex(); e[j] = h.edge().getIndex(); s[j] = sg[v[j]]; z += !s[j]; j++; }
    if (z == 3) continue;
    if (z == 2) { int c = s[0] ? 0 : s[1] ? 1 : 2; size_t a = v[(c + 1) % 3], b = v[(c + 2) % 3]; flat[e[(c + 1) % 3]].insert(s[c] > 0 ? std::make_pair(b, a) : std::make_pair(a, b)); continue; }
    if (z == 1) { int c = !s[0] ? 0 : !s[1] ? 1 : 2, b = (c + 1) % 3, d = (c + 2) % 3; if (s[b] == s[d]) continue; Node n{true, v[c]}, p{false, e[b]}; want[s[b] < 0 ? Seg{p, n} : Seg{n, p}]++; continue; }
    if (s[0] == s[1] && s[1] == s[2]) continue;
    int c = s[1] == s[2] ? 0 : s[0] == s[2] ? 1 : 2; Node out{false, e[c]}, in{false, e[(c + 2) % 3]}; want[s[c] < 0 ? Seg{out, in} : Seg{in, out}]++;
  }
  auto curves = marchingTriangles(g, u, iso);
  std::map<Seg, int> got; size_t nFlat = 0;
  auto node = [&](const SurfacePoint& p) -> Node {
    gs_assert(p.type == SurfacePointType::Vertex || p.type == SurfacePointType::Edge, "level sets run through vertices and edges");
    if (p.type == SurfacePointType::Vertex) { gs_assert(sg[p.vertex.getIndex()] == 0, "level sets pass through vertices that have the level exactly"); return {true, p.vertex.getIndex()}; }
    size_t a = p.edge.halfedge().tailVertex().getIndex(), b = p.edge.halfedge().tipVertex().getIndex(); gs_assert(sg[a] * sg[b] == -1, "level sets cross edges whose ends lie on both sides");
    EQ((1 - p.tEdge) * u[m.vertex(a)] + p.tEdge * u[m.vertex(b)], iso, "crossing points have the level value"); gs_assert(p.tEdge > 0 && p.tEdge < 1, "crossing points lie inside their edge");
    return {false, p.edge.getIndex()}; };
  std::vector<std::pair<Node, Node>> ends;
  for (auto& c : curves) {
    gs_assert(c.size() >= 2, "a curve has at least one segment"); std::vector<Node> n; for (auto& p : c) n.push_back(node(p));
    for (size_t i = 0; i + 1 < n.size(); i++) {
      if (n[i].vert && n[i + 1].vert) { Edge e; for (Edge q : m.edges()) if (flat.count(q.getIndex()) && (flat[q.getIndex()].count({n[i].i, n[i + 1].i}))) { e = q; flat.erase(q.getIndex()); nFlat++; break; } gs_assert(e != Edge(), "an edge inside the level set appears once, with smaller values on its left"); continue; }
      got[Seg{n[i], n[i + 1]}]++;
    }
    ends.push_back({n.front(), n.back()});
  }
  gs_assert(flat.empty(), "every edge inside the level set appears");
  gs_assert(got == want, "every face the level set crosses has exactly one segment, oriented with smaller values on its left");
  for (size_t i = 0; i < ends.size(); i++) for (size_t j = 0; j < ends.size(); j++) if (i != j) gs_assert(!(ends[i].second == ends[j].first), "segments are chained into curves that are as long as possible");
}
GS_HARNESS(marchone) { march(11, 3); }
GS_HARNESS(marchsmall) { static const size_t M[] = {1, 0, 13, 2, 100}; march(M[gs_choose("mesh", 5)], gs_tier() ? 3 : 1, gs_choose("free", gs_tier() ? 3 : 2)); }
GS_HARNESS(marchbig) { static const size_t M[] = {4, 7, 102, 12}; march(M[gs_choose("mesh", gs_tier() ? 4 : 2)], 1, gs_choose("free", gs_tier() ? 5 : 1)); }
