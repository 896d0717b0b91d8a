// Shared by the geometry harnesses: base meshes, symbolic edge lengths, index orders, matrix entry reads.
#pragma once
#include "mesh.h"
#include "geometrycentral/surface/edge_length_geometry.h"
#include "geometrycentral/surface/vertex_position_geometry.h"
#include <cmath>
#include <complex>
using namespace geometrycentral;
using namespace geometrycentral::surface;
typedef std::unique_ptr<SurfaceMesh> MeshP;
#define TOL 1e-8
#define EQ(a, b, what) gs_assert(gs_close((a), (b), TOL), what)
inline void eq2(Vector2 a, Vector2 b, const char* w) { EQ(a.x, b.x, w); EQ(a.y, b.y, w); }
inline void eq3(Vector3 a, Vector3 b, const char* w) { EQ(a.x, b.x, w); EQ(a.y, b.y, w); EQ(a.z, b.z, w); }
inline Vector2 cmul(Vector2 a, Vector2 b) { return {a.x * b.x - a.y * b.y, a.x * b.y + a.y * b.x}; }
inline Vector2 cconj(Vector2 a) { return {a.x, -a.y}; }
// mesh i, or a variant whose vertex 0, first edges and a face are deleted slots:
// 100 = two triangles; 102 = fan of four around an interior vertex; general meshes 200 (three triangles on an edge) and 201 (not oriented)
inline MeshP geoMesh(size_t i) {
  if (i == 100 || i == 102) {
    std::unique_ptr<ManifoldSurfaceMesh> m(new ManifoldSurfaceMesh(i == 100 ? Polys{{0, 1, 2}, {0, 2, 3}, {0, 3, 1}, {1, 3, 4}} : Polys{{0, 1, 2}, {0, 2, 3}, {0, 3, 1}, {1, 3, 4}, {1, 4, 5}, {1, 5, 2}}));
    gs_assert(m->removeVertex(m->vertex(0)) != Face(), "a degree-three vertex can be removed");
    return m;
  }
  if (i == 200) return MeshP(new SurfaceMesh({{0, 1, 2}, {1, 0, 3}, {0, 1, 4}}));
  if (i == 201) return MeshP(new SurfaceMesh({{0, 1, 2}, {0, 1, 3}, {2, 1, 4}}));
  return catMesh(i);
}
// index of every live element in iteration order, found without the library's own index containers
struct Order {
  std::map<size_t, size_t> v, e, f, h;
  Order(SurfaceMesh& m) {
    for (size_t i = 0; i < m.nVerticesCapacity(); i++) if (!Vertex(&m, i).isDead()) { size_t n = v.size(); v[i] = n; if (n + 1 == m.nVertices()) break; }
    for (size_t i = 0; i < m.nEdgesCapacity(); i++) if (!Edge(&m, i).isDead()) { size_t n = e.size(); e[i] = n; if (n + 1 == m.nEdges()) break; }
    for (size_t i = 0; i < m.nFacesCapacity(); i++) if (!Face(&m, i).isDead()) { size_t n = f.size(); f[i] = n; if (n + 1 == m.nFaces()) break; }
  }
};
// does h point the same way as its edge's own halfedge?
inline bool along(Halfedge h) { return h.vertex() == h.edge().halfedge().vertex(); }
inline void len3(const EdgeData<double>& l, Halfedge h, double& a, double& b, double& c) { a = l[h.edge()]; h = h.next(); b = l[h.edge()]; h = h.next(); c = l[h.edge()]; }
// Every edge length is symbolic; each face satisfies the strict triangle inequalities.
inline EdgeData<double> symLengths(SurfaceMesh& m) {
  EdgeData<double> l(m);
  size_t k = 0;
  for (Edge e : m.edges()) { double v = gs_double("len", 1. + .05 * k++); gs_assume(v > 0); l[e] = v; }
  for (Face f : m.faces()) { double a, b, c; len3(l, f.halfedge(), a, b, c); gs_assume(a + b > c); gs_assume(b + c > a); gs_assume(c + a > b); }
  return l;
}
inline double at(const Eigen::SparseMatrix<double>& M, size_t i, size_t j) { return M.coeff(i, j); }
inline std::complex<double> at(const Eigen::SparseMatrix<std::complex<double>>& M, size_t i, size_t j) { return M.coeff(i, j); }
inline void eqc(std::complex<double> a, std::complex<double> b, const char* w) { EQ(a.real(), b.real(), w); EQ(a.imag(), b.imag(), w); }
typedef std::map<std::pair<size_t, size_t>, double> Acc;
typedef std::map<std::pair<size_t, size_t>, std::complex<double>> AccC;
inline void same(const Eigen::SparseMatrix<double>& M, Acc& A, size_t r, size_t c, const char* w) {
  gs_assert((size_t)M.rows() == r && (size_t)M.cols() == c, w);
  for (size_t i = 0; i < r; i++) for (size_t j = 0; j < c; j++) EQ(at(M, i, j), (A[{i, j}]), w);
}
inline void same(const Eigen::SparseMatrix<std::complex<double>>& M, AccC& A, size_t r, size_t c, const char* w) {
  gs_assert((size_t)M.rows() == r && (size_t)M.cols() == c, w);
  for (size_t i = 0; i < r; i++) for (size_t j = 0; j < c; j++) eqc(at(M, i, j), A[{i, j}], w);
}
