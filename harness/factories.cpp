// Factories and Eigen views: positions and texture coordinates end up at the right elements.
#include "poly.h"
#include "mut_common.h"
#include "geometrycentral/surface/halfedge_factories.h"
#include "geometrycentral/surface/surface_mesh_factories.h"
#include "geometrycentral/utilities/eigen_interop_helpers.h"
#include <cstring>
using geometrycentral::Vector2; using geometrycentral::Vector3;
static uint64_t bits(double d) { uint64_t u; memcpy(&u, &d, 8); return u; }
static double symd(const char* b, size_t i) { char nm[16]; snprintf(nm, sizeof nm, "%s%zu", b, i); return gs_double(nm, 0.5 + i); }
struct In { Polys P; Twins T; std::vector<Vector3> x; std::vector<std::vector<Vector2>> uv; };
static In input(bool gen) {
  In r; size_t k = gs_choose("mesh", 6); static const size_t M[] = {1, 5, 9, 13, 0};
  if (k < 5) r.P = catalogue()[M[k]]; else r.P = gen ? Polys{{0, 1, 2}, {0, 1, 3}, {4, 1, 0}, {0, 2, 3, 4}} : Polys{{2, 0, 1}, {0, 2, 3, 4}, {5, 4, 3}};
  size_t nv = 0, c = 0; for (auto& p : r.P) for (size_t v : p) nv = std::max(nv, v + 1);
  for (size_t i = 0; i < nv; i++) r.x.push_back(Vector3{symd("x", i), symd("y", i), symd("z", i)});
  for (auto& p : r.P) { r.uv.emplace_back(); for (size_t j = 0; j < p.size(); j++, c++) r.uv.back().push_back(Vector2{symd("u", c), symd("v", c)}); }
  std::map<std::pair<size_t, size_t>, std::tuple<size_t, size_t>> s;
  for (size_t f = 0; f < r.P.size(); f++) for (size_t j = 0; j < r.P[f].size(); j++) s[{r.P[f][j], r.P[f][(j + 1) % r.P[f].size()]}] = std::make_tuple(f, j);
  for (size_t f = 0; f < r.P.size(); f++) { r.T.emplace_back(); for (size_t j = 0; j < r.P[f].size(); j++) { auto it = s.find({r.P[f][(j + 1) % r.P[f].size()], r.P[f][j]}); r.T.back().push_back(it == s.end() ? std::make_tuple(INVALID_IND, INVALID_IND) : it->second); } }
  return r;
}
template <class M> void ck(M& m, gcs::VertexPositionGeometry& g, const In& in, gcs::CornerData<Vector2>* uv) {
  gs_assert(m.getFaceVertexList() == in.P && m.nVertices() == in.x.size(), "factory: the mesh is the given polygon list");
  gs_assert(&g.mesh == &m, "factory: the geometry lives on the mesh");
  uint64_t bad = 0; for (size_t i = 0; i < in.x.size(); i++) for (int c = 0; c < 3; c++) bad |= bits(g.vertexPositions[m.vertex(i)][c]) ^ bits(in.x[i][c]);
  gs_assert(!bad, "factory: vertex i is at position i");
  if (uv) for (size_t f = 0; f < in.P.size(); f++) { Halfedge h = m.face(f).halfedge(); for (size_t j = 0; j < in.P[f].size(); j++, h = h.next()) { gs_assert(h.vertex().getIndex() == in.P[f][j], "factory: corner order"); for (int c = 0; c < 2; c++) bad |= bits((*uv)[h.corner()][c]) ^ bits(in.uv[f][j][c]); } }
  gs_assert(!bad, "factory: every corner has its texture coordinate");
}
GS_HARNESS(manifold) {
  In in = input(false);
  switch (gs_choose("how", 6)) {
  case 0: { auto t = gcs::makeManifoldSurfaceMeshAndGeometry(in.P, in.x); ck(*std::get<0>(t), *std::get<1>(t), in, nullptr); break; }
  case 1: { auto t = gcs::makeManifoldSurfaceMeshAndGeometry(in.P, in.T, in.x, in.uv); ck(*std::get<0>(t), *std::get<1>(t), in, std::get<2>(t).get()); break; }
  case 2: { auto t = gcs::makeParameterizedManifoldSurfaceMeshAndGeometry(in.P, in.x, in.uv); ck(*std::get<0>(t), *std::get<1>(t), in, std::get<2>(t).get()); break; }
  case 3: { auto t = gcs::makeHalfedgeAndGeometry(in.P, in.x); ck(*std::get<0>(t), *std::get<1>(t), in, nullptr); break; }
  case 4: { auto t = gcs::makeHalfedgeAndGeometry(in.P, in.T, in.x); ck(*std::get<0>(t), *std::get<1>(t), in, nullptr); break; }
  case 5: { for (auto& p : in.P) if (p.size() != in.P[0].size()) { gs_cover("not a matrix"); return; }
      Eigen::MatrixXd V(in.x.size(), 3); Eigen::MatrixXi F(in.P.size(), in.P[0].size()); for (size_t i = 0; i < in.x.size(); i++) for (int c = 0; c < 3; c++) V(i, c) = in.x[i][c]; for (size_t i = 0; i < in.P.size(); i++) for (size_t j = 0; j < in.P[i].size(); j++) F(i, j) = in.P[i][j];
      auto t = gcs::makeManifoldSurfaceMeshAndGeometry(V, F); ck(*std::get<0>(t), *std::get<1>(t), in, nullptr);
      Eigen::Matrix<size_t, -1, -1> Q = std::get<0>(t)->template getFaceVertexMatrix<size_t>(); bool ok = (size_t)Q.rows() == in.P.size() && (size_t)Q.cols() == in.P[0].size(); for (size_t i = 0; ok && i < in.P.size(); i++) for (size_t j = 0; j < in.P[i].size(); j++) ok &= Q(i, j) == in.P[i][j];
      gs_assert(ok, "getFaceVertexMatrix() returns the face matrix"); break; }
  }
  gs_cover("manifold");
}
GS_HARNESS(general) {
  In in = input(true);
  switch (gs_choose("how", 5)) {
  case 0: { auto t = gcs::makeSurfaceMeshAndGeometry(in.P, in.x); ck(*std::get<0>(t), *std::get<1>(t), in, nullptr); break; }
  case 1: { auto t = gcs::makeParameterizedSurfaceMeshAndGeometry(in.P, in.x, in.uv); ck(*std::get<0>(t), *std::get<1>(t), in, std::get<2>(t).get()); break; }
  case 2: { auto t = gcs::makeGeneralHalfedgeAndGeometry(in.P, in.x); ck(*std::get<0>(t), *std::get<1>(t), in, nullptr); break; }
  case 3: { for (auto& p : in.P) if (p.size() != in.P[0].size()) { gs_cover("not a matrix"); return; }
      Eigen::MatrixXd V(in.x.size(), 3); Eigen::MatrixXi F(in.P.size(), in.P[0].size()); for (size_t i = 0; i < in.x.size(); i++) for (int c = 0; c < 3; c++) V(i, c) = in.x[i][c]; for (size_t i = 0; i < in.P.size(); i++) for (size_t j = 0; j < in.P[i].size(); j++) F(i, j) = in.P[i][j];
      auto t = gcs::makeSurfaceMeshAndGeometry(V, F); ck(*std::get<0>(t), *std::get<1>(t), in, nullptr); break; }
  case 4: { // too few or absent texture coordinates leave zeros
      auto t = gcs::makeSurfaceMeshAndGeometry(in.P, {}, in.x, {}); ck(*std::get<0>(t), *std::get<1>(t), in, nullptr); bool z = true; for (Corner c : std::get<0>(t)->corners()) z &= (*std::get<2>(t))[c] == Vector2::zero(); gs_assert(z, "factory: without texture coordinates the corner data is zero"); break; }
  }
  gs_cover("general");
}
// Eigen views of container buffers
GS_HARNESS(views) {
  static const VS M{1, 5, 3}; auto m = catMesh(M[gs_choose("mesh", 3)]); gcs::VertexData<Vector3> d(*m); std::vector<Vector3> x; size_t n = m->nVertices();
  for (size_t i = 0; i < n; i++) { x.push_back(Vector3{symd("x", i), symd("y", i), symd("z", i)}); d[m->vertex(i)] = x[i]; }
  auto A = geometrycentral::EigenMap<double, 3>(d); auto F = geometrycentral::FlattenedEigenMap<double, 3>(d); const auto& cd = d; auto B = geometrycentral::EigenMap<double, 3>(cd); auto G = geometrycentral::FlattenedEigenMap<double, 3>(cd);
  gs_assert((size_t)A.rows() == n && A.cols() == 3 && (size_t)F.rows() == 3 * n && (size_t)B.rows() == n && (size_t)G.rows() == 3 * n, "Eigen views have one row per element");
  uint64_t bad = 0; for (size_t i = 0; i < n; i++) for (int c = 0; c < 3; c++) bad |= (bits(A(i, c)) ^ bits(x[i][c])) | (bits(F(3 * i + c)) ^ bits(x[i][c])) | (bits(B(i, c)) ^ bits(x[i][c])) | (bits(G(3 * i + c)) ^ bits(x[i][c]));
  gs_assert(!bad, "Eigen views show the element values");
  double w = symd("w", 0); A(1, 2) = w; F(0) = w; gs_assert(bits(d[m->vertex(1)].z) == bits(w) && bits(d[m->vertex(0)].x) == bits(w), "writing through an Eigen view changes the container"); gs_cover("views");
}
