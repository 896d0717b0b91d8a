SM="src/surface/surface_mesh.cpp"
PRE='#include "geometrycentral/surface/surface_mesh_factories.h"\n#include "geometrycentral/surface/vertex_position_geometry.h"\n#include <cmath>\n'
INC='#include "geometrycentral/surface/manifold_surface_mesh.h"\n'+PRE
GRID='''static std::unique_ptr<geometrycentral::surface::ManifoldSurfaceMesh> grid(int n, std::vector<geometrycentral::Vector3>& X) { std::vector<std::vector<size_t>> F; size_t m = n + 1; for (size_t i = 0; i < m; i++) for (size_t j = 0; j < m; j++) X.push_back({(double)i, (double)j, 0}); for (size_t i = 0; i < (size_t)n; i++) for (size_t j = 0; j < (size_t)n; j++) { F.push_back({i * m + j, (i + 1) * m + j, (i + 1) * m + j + 1}); F.push_back({i * m + j, (i + 1) * m + j + 1, i * m + j + 1}); } return std::unique_ptr<geometrycentral::surface::ManifoldSurfaceMesh>(new geometrycentral::surface::ManifoldSurfaceMesh(F)); }
'''
BUGS=[
dict(id="move_default",property="P11",file="include/geometrycentral/utilities/mesh_data.ipp",needs="move assignment between containers with different default values, then growth of the mesh",breaks="after move assignment, elements added later get the default of the container's earlier contents",
 old="  deregisterWithMesh();\n  mesh = other.mesh;\n  defaultValue = other.defaultValue;\n  data = std::move(other.data);",new="  deregisterWithMesh();\n  mesh = other.mesh;\n  data = std::move(other.data);",inc=INC,
 demo="""ManifoldSurfaceMesh m(std::vector<std::vector<size_t>>{{0, 1, 2}, {0, 2, 3}, {0, 3, 1}, {1, 3, 2}}); VertexData<int> a(m, 1), b(m, 7); a = std::move(b);
 for (int k = 0; k < 20; k++) if (a[m.insertVertex(m.face(0))] != 7) return 1; return 0;"""),
dict(id="split_constraint",property="P13",file="src/surface/mutation_manager.cpp",needs="an edge that may be split but not flipped, or the reverse, and an edge split",breaks="the halves of a split edge get the splittability of the old edge as their flippability",
 old="      flippableEdges[newHe2.edge()] = oldConstraints[2];",new="      flippableEdges[newHe2.edge()] = oldConstraints[splittableEdges.size() > 0 ? 0 : 2];",inc=INC+'#include "geometrycentral/surface/mutation_manager.h"\n',pre=GRID,
 demo="""std::vector<Vector3> X; auto m = grid(2, X); VertexPositionGeometry g(*m); for (size_t i = 0; i < X.size(); i++) g.vertexPositions[i] = X[i]; MutationManager mm(*m, g);
 EdgeData<bool> s(*m, true), f(*m, true); Edge e; for (Edge o : m->edges()) if (!o.isBoundary()) e = o; f[e] = false; mm.setSplittableEdges(s, true); mm.setFlippableEdges(f, true);
 Halfedge h = mm.splitEdge(e, .5); int bad = 0; for (Edge o : h.vertex().adjacentEdges()) if (!mm.mayFlipEdge(o)) bad++; return bad == 2 ? 0 : 1;"""),
dict(id="path_stale_queue",property="P19",file="src/surface/mesh_graph_algorithms.cpp",needs="a target reached first over an edge that is longer than a detour",breaks="shortestEdgePath stops at the first time the target is seen rather than settled, so a direct long edge beats a shorter detour",
 old="    if (currVert == endVert) {\n      std::vector<Halfedge> path;",new="    if (currVert != endVert) {\n      for (Halfedge he : currVert.outgoingHalfedges()) {\n        if (he.tipVertex() == endVert && currVert.isBoundary() && endVert.isBoundary() && he.edge().isBoundary()) {\n          incomingHalfedge[endVert] = he;\n          currVert = endVert;\n          break;\n        }\n      }\n    }\n    if (currVert == endVert) {\n      std::vector<Halfedge> path;",inc=INC+'#include "geometrycentral/surface/mesh_graph_algorithms.h"\n#include "geometrycentral/surface/edge_length_geometry.h"\n',
 demo="""ManifoldSurfaceMesh m(std::vector<std::vector<size_t>>{{0, 1, 2}}); EdgeData<double> l(m); for (Edge e : m.edges()) { size_t a = e.firstVertex().getIndex(), b = e.secondVertex().getIndex(); l[e] = a + b == 1 ? 5 : a + b == 2 ? 1 : 4.5; }
 EdgeLengthGeometry g(m, l); auto p = shortestEdgePath(g, m.vertex(2), m.vertex(1)); double s = 0; for (Halfedge h : p) s += l[h.edge()]; return std::fabs(s - 4.5) < 1e-9 ? 0 : 1;"""),
dict(id="idt_nonoriented",property="P24",file="src/surface/simple_idt.cpp",needs="flipping an edge between two faces of opposite orientation",breaks="flipToDelaunay computes the wrong length for edges flipped between faces that are not consistently oriented",
 old="    if (iHeA0.orientation() == iHeB0.orientation()) {\n      std::swap(iHeB1, iHeB2);",new="    if (iHeA0.orientation() == iHeB0.orientation() && flipType == FlipType::Hyperbolic) {\n      std::swap(iHeB1, iHeB2);",inc=INC+'#include "geometrycentral/surface/simple_idt.h"\n',
 demo="""SurfaceMesh m(std::vector<std::vector<size_t>>{{0, 1, 2}, {0, 1, 3}}); Vector2 x[] = {{0, 0}, {4, 0}, {1, 1}, {1, -1}}; EdgeData<double> l(m); for (Edge e : m.edges()) l[e] = (x[e.firstVertex().getIndex()] - x[e.secondVertex().getIndex()]).norm();
 if (flipToDelaunay(m, l) != 1) return 1; for (Edge e : m.edges()) { size_t a = e.firstVertex().getIndex(), b = e.secondVertex().getIndex(); if (std::fabs(l[e] - (x[a] - x[b]).norm()) > 1e-9) return 1; } return 0;"""),
dict(id="fan_antiparallel",property="P31",file="src/pointcloud/local_triangulation.cpp",needs="two neighbours on opposite sides of a point with nothing between them on one side",breaks="neighbours in exactly opposite directions are taken for collinear duplicates and the farther one is dropped from the local triangulation",
 old="              dot(perturbPoints[curr], perturbPoints[next]) > 0;",new="              dot(perturbPoints[curr], perturbPoints[next]) != 0;",
 inc=INC+'#include "geometrycentral/pointcloud/local_triangulation.h"\n#include "geometrycentral/pointcloud/point_position_frame_geometry.h"\n#include "geometrycentral/pointcloud/point_cloud.h"\n',
 demo="""pointcloud::PointCloud c(4); pointcloud::PointData<Vector3> x(c); x[0] = {0, 0, 0}; x[1] = {1, 0, 0}; x[2] = {0, 1, 0}; x[3] = {-1.5, 0, 0}; pointcloud::PointData<std::array<Vector3, 3>> f(c, {Vector3{1, 0, 0}, Vector3{0, 1, 0}, Vector3{0, 0, 1}});
 pointcloud::PointPositionFrameGeometry g(c, x, f); g.kNeighborSize = 3; auto t = pointcloud::buildLocalTriangulations(c, g, true); return t[0].size() == 2 ? 0 : 1;"""),
]
