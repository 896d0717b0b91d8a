// Symbolic polygon lists and an independent (set-based) reading of them.
#pragma once
#include "mesh.h"
#include <Eigen/Dense>
// Faces of the given degrees with vertices numbered in order of first appearance (every such list arises once);
// distinct vertices within a face if `dis`.
inline Polys growPolys(const std::vector<int>& degs, bool dis, size_t reuse = 0) { // reuse: each later face shares >= reuse vertices with earlier faces
  Polys P; size_t n = 0;
  for (int d : degs) {
    std::vector<size_t> f; size_t n0 = n, sh = 0;
    for (int j = 0; j < d; j++) {
      std::vector<size_t> opt;
      for (size_t v = 0; v < n; v++) { bool u = false; if (dis) for (size_t w : f) u |= w == v; if (!u) opt.push_back(v); }
      if (P.empty() || reuse <= sh + (d - 1 - j)) opt.push_back(n);
      char nm[16]; snprintf(nm, sizeof nm, "v%zu_%d", P.size(), j);
      size_t v = pick(nm, opt);
      if (v == n) n++; else if (v < n0) sh++;
      f.push_back(v);
    }
    P.push_back(f);
  }
  return P;
}
// arbitrary lists over [0,nv)
inline Polys anyPolys(const std::vector<int>& degs, size_t nv) {
  Polys P;
  for (int d : degs) { std::vector<size_t> f; for (int j = 0; j < d; j++) { char nm[16]; snprintf(nm, sizeof nm, "a%zu_%d", P.size(), j); f.push_back(gs_choose(nm, nv)); } P.push_back(f); }
  return P;
}
struct Reading { // what a polygon list means, by the definitions
  size_t nv = 0, ne = 0, ncorner = 0, comps = 0, nBdyEdges = 0; bool degOk = true, dense = true, selfEdge = false;
  bool directedUnique = true;      // no directed edge twice
  bool edgeManifold = true;        // every unordered pair used at most twice
  bool oriented = true;            // and twice only in opposite directions
  std::map<std::pair<size_t, size_t>, std::vector<std::pair<size_t, size_t>>> uses; // unordered pair -> (face, side)
  std::map<std::pair<size_t, size_t>, int> dir;
  std::vector<char> vBdy, vOne;    // on a boundary edge; corners form one chain or one cycle (edge-manifold, oriented)
  std::vector<size_t> vFans;       // number of edge-connected groups of corners at the vertex
  bool vertexManifold = true;
};
inline std::pair<size_t, size_t> up(size_t a, size_t b) { return a < b ? std::make_pair(a, b) : std::make_pair(b, a); }
inline Reading readPolys(const Polys& P) {
  Reading r;
  for (auto& p : P) { if (p.size() < 3) r.degOk = false; for (size_t v : p) r.nv = std::max(r.nv, v + 1); }
  std::vector<char> used(r.nv, 0);
  std::vector<std::tuple<size_t, size_t, size_t>> corner; // face, side, vertex
  for (size_t f = 0; f < P.size(); f++) for (size_t j = 0; j < P[f].size(); j++) {
    size_t a = P[f][j], b = P[f][(j + 1) % P[f].size()]; used[a] = 1; r.ncorner++; corner.emplace_back(f, j, a);
    if (a == b) r.selfEdge = true;
    if (++r.dir[{a, b}] > 1) r.directedUnique = false;
    r.uses[up(a, b)].emplace_back(f, j);
  }
  for (char c : used) if (!c) r.dense = false;
  r.ne = r.uses.size(); r.vBdy.assign(r.nv, 0); r.vOne.assign(r.nv, 0); r.vFans.assign(r.nv, 0);
  for (auto& u : r.uses) {
    if (u.second.size() > 2) r.edgeManifold = false;
    if (u.second.size() == 1) { r.nBdyEdges++; r.vBdy[u.first.first] = r.vBdy[u.first.second] = 1; }
    if (u.second.size() == 2) { auto &x = u.second[0], &y = u.second[1]; if (P[x.first][x.second] == P[y.first][y.second] && u.first.first != u.first.second) r.oriented = false; }
  }
  // corners joined across shared edges
  std::vector<size_t> cl(corner.size()), vcl(r.nv);
  for (size_t i = 0; i < cl.size(); i++) cl[i] = i;
  for (size_t i = 0; i < r.nv; i++) vcl[i] = i;
  std::map<std::pair<size_t, size_t>, size_t> cid; for (size_t i = 0; i < corner.size(); i++) cid[{std::get<0>(corner[i]), std::get<1>(corner[i])}] = i;
  auto join = [](std::vector<size_t>& c, size_t a, size_t b) { size_t x = c[a], y = c[b]; if (x != y) for (auto& z : c) if (z == y) z = x; };
  auto ends = [&](std::pair<size_t, size_t> s) { size_t n = P[s.first].size(); return std::make_pair(cid[s], cid[{s.first, (s.second + 1) % n}]); };
  for (auto& u : r.uses) for (size_t k = 1; k < u.second.size(); k++) {
    auto a = ends(u.second[0]), b = ends(u.second[k]);
    for (size_t x : {a.first, a.second}) for (size_t y : {b.first, b.second}) if (std::get<2>(corner[x]) == std::get<2>(corner[y])) join(cl, x, y);
  }
  for (auto& p : P) for (size_t j = 1; j < p.size(); j++) join(vcl, p[0], p[j]);
  std::set<size_t> cc(vcl.begin(), vcl.end()); r.comps = cc.size();
  for (size_t v = 0; v < r.nv; v++) { std::set<size_t> s; for (size_t i = 0; i < cl.size(); i++) if (std::get<2>(corner[i]) == v) s.insert(cl[i]); r.vFans[v] = s.size(); if (s.size() != 1) r.vertexManifold = false; }
  return r;
}
inline void closedPolys() {}
