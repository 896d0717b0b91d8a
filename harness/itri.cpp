#include "itri.h"
#include "geometrycentral/surface/integer_coordinates_intrinsic_triangulation.h"
typedef IntegerCoordinatesIntrinsicTriangulation ICIT;
static void normals(Tri& T, ICIT& t) { for (Edge e : T.m.edges()) gs_assert(t.normalCoordinates[e] == (T.onInput(e) ? -1 : (int)T.crossings(e)), "normal coordinates count the input edges crossed, and are -1 along the input"); }
static void flips(size_t kind, size_t n) {
  gs_mode_real(); Flat F(kind); ICIT t(*F.m, *F.g); Tri T(F, t); T.check(); normals(T, t);
  size_t k = gs_choose("flips", n + 1);
  for (size_t i = 0; i < k; i++) { char c[8]; snprintf(c, 8, "e%zu", i); flipOne(T, t.intrinsicMesh->edge(gs_choose(c, t.intrinsicMesh->nEdges()))); T.check(); normals(T, t); }
  switch (gs_choose("then", 4)) {
  case 0: T.traceInput(); break;
  case 1: T.traceIntrinsic(); T.traceInput(); break;
  case 2: T.subdivision(); break;
  case 3: t.flipToDelaunay(); T.check(); normals(T, t); gs_assert(t.isDelaunay(), "flipToDelaunay makes the triangulation Delaunay");
    for (Edge e : t.intrinsicMesh->edges()) if (!e.isBoundary()) { double s = 0; for (Halfedge h : e.adjacentHalfedges()) { Vector2 x = T.pos(h.next().tipVertex()), u = T.pos(h.tailVertex()) - x, w = T.pos(h.tipVertex()) - x; s += dot(u, w) / std::abs(cross(u, w)); } gs_assert(s > -1e-6, "flipToDelaunay makes the triangulation Delaunay"); }
    T.traceInput(); break;
  }
}
GS_HARNESS(iflip) { static const size_t K[] = {0, 1, 3}; size_t i = gs_choose("input", gs_tier() ? 3 : 2); flips(K[i], i == 0 ? 4 : gs_tier() ? 3 : 2); }

// inserting vertices
GS_HARNESS(iequiv) { // places of points on the intrinsic mesh
  gs_mode_real(); Flat F(gs_choose("input", gs_tier() ? 3 : 2)); ICIT t(*F.m, *F.g); Tri T(F, t); presets(T, 6); bool face = gs_choose("in face", 2);
  SurfacePoint q = somewhere(T.m, face, 8, false); if (face) generic(T, q); SurfacePoint r = t.equivalentPointOnInput(q); near2(F.at(r), T.at(q), "equivalentPointOnInput keeps the place");
  for (Vertex v : T.m.vertices()) near2(F.at(t.equivalentPointOnInput(SurfacePoint(v))), T.pos(v), "equivalentPointOnInput keeps the place");
}
static void finish(Tri& T) { T.m.compress(); if (gs_choose("locate", 2)) { for (Face f : T.m.faces()) { SurfacePoint q(f, Vector3{.296875, .328125, .375}); near2(T.F.at(T.t.equivalentPointOnInput(q)), T.at(q), "equivalentPointOnInput keeps the place"); } for (Edge e : T.m.edges()) for (double s : {.15625, .578125}) { SurfacePoint q(e, s); near2(T.F.at(T.t.equivalentPointOnInput(q)), T.at(q), "equivalentPointOnInput keeps the place"); } return; } switch (gs_choose("then", 3)) { case 0: T.traceInput(); break; case 1: T.traceIntrinsic(); T.traceInput(); break; case 2: T.subdivision(); break; } }
GS_HARNESS(iinsert) {
  gs_mode_real(); Flat F(gs_choose("input", gs_tier() ? 2 : 1)); ICIT t(*F.m, *F.g); Tri T(F, t); presets(T, gs_tier() ? 5 : 2); insertOne(T, chosen(T.m, "", false)); T.check(); normals(T, t);
  size_t n = gs_choose("more", 3); if (n == 1) { insertOne(T, chosen(T.m, "2", true)); T.check(); normals(T, t); } if (n == 2) { flipOne(T, T.m.edge(gs_choose("e", T.m.nEdges()))); T.check(); normals(T, t); }
  finish(T);
}
GS_HARNESS(ipass) { // an input edge passing through an inserted vertex between two transversal pieces
  gs_mode_real(); Flat F(gs_choose("input", gs_tier() ? 3 : 2) ? 1 : 2); ICIT t(*F.m, *F.g); Tri T(F, t); std::vector<Edge> inner; for (Edge e : T.m.edges()) if (!e.isBoundary()) inner.push_back(e);
  Edge e = inner[gs_choose("el", inner.size())]; static const double W[] = {.34375, .71875}; double s = W[gs_choose("where", 2)];
  Vertex v = insertOne(T, SurfacePoint(e, s)); T.check(); normals(T, t);
  { std::vector<Edge> opp; for (Halfedge h : v.outgoingHalfedges()) if (h.isInterior()) { Edge o = h.next().edge(); if (canFlip(T, o)) opp.push_back(o); } size_t k = gs_choose("o", opp.size() + 1); if (k) { flipOne(T, opp[k - 1]); T.check(); normals(T, t); } }
  for (int k = 0; k < 2; k++) for (Edge q : v.adjacentEdges()) if (t.normalCoordinates[q] == -1 && canFlip(T, q)) { flipOne(T, q); T.check(); normals(T, t); break; }
  if (gs_tier() && gs_choose("more", 2)) { flipOne(T, T.m.edge(gs_choose("e", T.m.nEdges()))); T.check(); normals(T, t); }
  finish(T);
}
GS_HARNESS(iremove) { // an inserted vertex can be taken away again
  gs_mode_real(); Flat F(gs_choose("input", gs_tier() ? 2 : 1)); ICIT t(*F.m, *F.g); Tri T(F, t); presets(T, gs_tier() ? 5 : 3); size_t nV = T.m.nVertices(), nE = T.m.nEdges(); Vertex v = insertOne(T, chosen(T.m, "", false)); bool bd = v.isBoundary();
  if (gs_choose("flip", 2)) { flipOne(T, T.m.edge(gs_choose("e", T.m.nEdges()))); }
  Face f = t.removeInsertedVertex(v); if (!bd) gs_assert(f != Face(), "inserted interior vertices can be removed");
  if (f != Face()) { gs_assert(T.m.nVertices() == nV && T.m.nEdges() == nE, "removing the inserted vertex restores the element counts"); }
  T.check(); normals(T, t); finish(T);
  for (Vertex q : F.m->vertices()) gs_assert(t.removeInsertedVertex(T.m.vertex(q.getIndex())) == Face(), "input vertices cannot be removed");
}
GS_HARNESS(irefine) { gs_mode_real(); static const size_t K[] = {1, 0, 3}; Flat F(K[gs_choose("input", gs_tier() ? 3 : 2)]); ICIT t(*F.m, *F.g); Tri T(F, t); presets(T, gs_tier() ? 4 : 2); refining(T, gs_tier() ? 5 : 2, [&] { T.check(); normals(T, t); }); T.m.compress(); if (gs_choose("trace", 2)) T.traceInput(); else T.subdivision(); }
