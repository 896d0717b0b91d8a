// Signpost triangulations of flat, convex input, compared with plane geometry.
#include "itri.h"
#include "geometrycentral/surface/signpost_intrinsic_triangulation.h"
typedef SignpostIntrinsicTriangulation SP;
static void posts(Tri& T, SP& t) { // angles between halfedges at a vertex are those of the plane; bases follow the input's
  for (Vertex v : T.m.vertices()) { std::vector<Halfedge> hs; for (Halfedge h : v.outgoingHalfedges()) hs.push_back(h); Halfedge h0 = v.isBoundary() ? v.halfedge() : hs[0]; Vector2 d0 = T.pos(h0.tipVertex()) - T.pos(v);
    for (Halfedge h : hs) { Vector2 d = T.pos(h.tipVertex()) - T.pos(v); double a = std::atan2(cross(d0, d), dot(d0, d)), b = t.signpostAngle[h] - t.signpostAngle[h0]; near(std::cos(a), std::cos(b), "signposts record the angles between the halfedges at a vertex"); near(std::sin(a), std::sin(b), "signposts record the angles between the halfedges at a vertex"); } }
}
static void check(Tri& T, SP& t) {
  Abs a = take(T.m, "intrinsic mesh"); checkValid(T.m, a, "intrinsic mesh");
  for (Edge e : T.m.edges()) near(t.edgeLengths[e], (T.pos(e.halfedge().tailVertex()) - T.pos(e.halfedge().tipVertex())).norm(), "intrinsic edge lengths are the straight distances between the vertices' locations");
  for (Vertex v : T.F.m->vertices()) gs_assert(t.vertexLocations[T.m.vertex(v.getIndex())] == SurfacePoint(v), "input vertices stay where they are");
  for (Edge e : T.m.edges()) if (t.checkEdgeOriginal(e)) gs_assert(T.onInput(e), "edges called original lie on the input");
  posts(T, t); T.vertexVectors();
}
static void line(const std::vector<Vector2>& w, Vector2 a, Vector2 b, const char* what) { // as straight(), but repeated points are allowed
  gs_assert(w.size() >= 2, what); near2(w.front(), a, what); near2(w.back(), b, what); double last = -1e-6;
  for (auto& x : w) { near(cross(b - a, x - a), 0, what); double s = dot(x - a, b - a) / (b - a).norm2(); gs_assert(s > last - 1e-6, what); last = s; }
}
static bool clear(Tri& T, Vertex v) { Vector2 x = T.pos(v); if (v.getIndex() < T.F.p.size()) return true; for (Edge i : T.F.m->edges()) if (!sgn(orient(T.ip(i.halfedge().tailVertex().getIndex()), T.ip(i.halfedge().tipVertex().getIndex()), x))) return false; return true; }
static void traces(Tri& T, SP& t) {
  for (Edge e : T.m.edges()) for (Halfedge h : e.adjacentHalfedges()) { auto tr = t.traceIntrinsicHalfedgeAlongInput(h); std::vector<Vector2> w; for (auto& q : tr) w.push_back(T.F.at(q)); line(w, T.pos(h.tailVertex()), T.pos(h.tipVertex()), "intrinsic edges trace straight lines over the input"); if (!T.onInput(e) && clear(T, h.tailVertex()) && clear(T, h.tipVertex())) gs_assert(tr.size() == T.crossings(e) + 2, "intrinsic edges meet exactly the input edges they cross"); }
  for (Edge i : T.F.m->edges()) for (Halfedge h : i.adjacentHalfedges()) { auto tr = t.traceInputHalfedgeAlongIntrinsic(h); std::vector<Vector2> w; for (auto& q : tr) w.push_back(T.at(q)); line(w, T.ip(h.tailVertex().getIndex()), T.ip(h.tipVertex().getIndex()), "input edges trace straight lines over the intrinsic mesh"); bool ok = T.stops(i) > 0; for (Vertex v : T.m.vertices()) ok = ok && clear(T, v); if (ok) gs_assert(tr.size() == T.stops(i) + 2, "input edges meet exactly the intrinsic edges they cross"); }
}
static void locate(Tri& T, SP& t) {
  for (Face f : T.m.faces()) { SurfacePoint q(f, Vector3{.296875, .328125, .375}); near2(T.F.at(t.equivalentPointOnInput(q)), T.at(q), "equivalentPointOnInput keeps the place"); }
  for (Edge e : T.m.edges()) for (double s : {.15625, .578125}) { SurfacePoint q(e, s); near2(T.F.at(t.equivalentPointOnInput(q)), T.at(q), "equivalentPointOnInput keeps the place"); }
  for (Face f : T.F.m->faces()) { SurfacePoint q(f, Vector3{.296875, .328125, .375}); near2(T.at(t.equivalentPointOnIntrinsic(q)), T.F.at(q), "equivalentPointOnIntrinsic keeps the place"); }
  for (Edge e : T.F.m->edges()) for (double s : {.15625, .578125}) { SurfacePoint q(e, s); near2(T.at(t.equivalentPointOnIntrinsic(q)), T.F.at(q), "equivalentPointOnIntrinsic keeps the place"); }
  for (Vertex v : T.m.vertices()) near2(T.F.at(t.equivalentPointOnInput(SurfacePoint(v))), T.pos(v), "equivalentPointOnInput keeps the place"); for (Vertex v : T.F.m->vertices()) near2(T.at(t.equivalentPointOnIntrinsic(SurfacePoint(v))), T.F.at(SurfacePoint(v)), "equivalentPointOnIntrinsic keeps the place");
}
static void last(Tri& T, SP& t) {
  T.m.compress(); bool plain = true; for (Vertex v : T.m.vertices()) plain = plain && clear(T, v); for (Edge e : T.m.edges()) plain = plain && t.checkEdgeOriginal(e) == T.onInput(e);
  switch (gs_choose("then", plain ? 4 : 3)) { case 3: T.subdivision(); break; case 0: traces(T, t); break; case 1: locate(T, t); break;
  case 2: t.flipToDelaunay(); check(T, t); gs_assert(t.isDelaunay(), "flipToDelaunay makes the triangulation Delaunay"); traces(T, t); break; }
}
GS_HARNESS(sflip) {
  gs_mode_real(); static const size_t K[] = {0, 1, 3}; size_t ii = gs_choose("input", gs_tier() ? 3 : 2); Flat F(K[ii]); SP t(*F.m, *F.g); Tri T(F, t); check(T, t);
  size_t k = gs_choose("flips", (ii == 0 ? 4 : gs_tier() ? 3 : 2) + 1); for (size_t i = 0; i < k; i++) { char c[8]; snprintf(c, 8, "e%zu", i); flipOne(T, T.m.edge(gs_choose(c, T.m.nEdges()))); check(T, t); } last(T, t);
}
GS_HARNESS(sinsert) {
  gs_mode_real(); Flat F(gs_choose("input", gs_tier() ? 2 : 1)); SP t(*F.m, *F.g); Tri T(F, t); presets(T, gs_tier() ? 5 : 2); insertOne(T, chosen(T.m, "", false)); check(T, t);
  size_t n = gs_choose("more", 3); if (n == 1) { insertOne(T, chosen(T.m, "2", true)); check(T, t); } if (n == 2) { flipOne(T, T.m.edge(gs_choose("e", T.m.nEdges()))); check(T, t); } last(T, t);
}
GS_HARNESS(sremove) {
  gs_mode_real(); Flat F(gs_choose("input", gs_tier() ? 2 : 1)); SP t(*F.m, *F.g); Tri T(F, t); presets(T, gs_tier() ? 5 : 3); size_t nV = T.m.nVertices(), nE = T.m.nEdges(); Vertex v = insertOne(T, chosen(T.m, "", false)); bool bd = v.isBoundary();
  if (gs_choose("flip", 2)) flipOne(T, T.m.edge(gs_choose("e", T.m.nEdges())));
  Face f = t.removeInsertedVertex(v); if (!bd) gs_assert(f != Face(), "inserted interior vertices can be removed"); if (f != Face()) gs_assert(T.m.nVertices() == nV && T.m.nEdges() == nE, "removing the inserted vertex restores the element counts");
  check(T, t); last(T, t); for (Vertex q : F.m->vertices()) gs_assert(t.removeInsertedVertex(T.m.vertex(q.getIndex())) == Face(), "input vertices cannot be removed");
}
GS_HARNESS(sreuse) { // removal may free elements with the input's indices
  gs_mode_real(); Flat F(1); SP t(*F.m, *F.g); Tri T(F, t); presets(T, gs_tier() ? 6 : 4); Vertex v = insertOne(T, SurfacePoint(T.m.face(gs_choose("el", T.m.nFaces())), Vector3{.28125, .34375, .375}));
  flipOne(T, T.m.edge(gs_choose("e", T.m.nEdges()))); if (gs_tier()) flipOne(T, T.m.edge(gs_choose("e2", T.m.nEdges())));
  Face f = t.removeInsertedVertex(v); gs_assert(f != Face(), "inserted interior vertices can be removed"); check(T, t); T.m.compress(); traces(T, t);
}
GS_HARNESS(srefine) { gs_mode_real(); static const size_t K[] = {1, 0, 3}; Flat F(K[gs_choose("input", gs_tier() ? 3 : 2)]); SP t(*F.m, *F.g); Tri T(F, t); presets(T, gs_tier() ? 4 : 2); refining(T, gs_tier() ? 5 : 2, [&] { check(T, t); }, false); T.m.compress(); traces(T, t); }
