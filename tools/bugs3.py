import runpy, os
B2 = runpy.run_path(os.path.join(os.path.dirname(os.path.abspath(__file__)), "bugs2.py")); INC = B2["INC"]; GRID = B2["GRID"]
BUGS=[
dict(id="transport_boundary",property="P14",file="src/surface/intrinsic_geometry_interface.cpp",needs="a boundary edge whose end points have different angles",breaks="transport along the exterior halfedge of a boundary edge is not the inverse of the transport along its twin",
 old="    transportVectorsAlongHalfedge[heB] = rot.inv();",new="    transportVectorsAlongHalfedge[heB] = heB.isInterior() ? rot.inv() : rot;",inc=INC,
 demo="""ManifoldSurfaceMesh m(std::vector<std::vector<size_t>>{{0, 1, 2}, {0, 2, 3}}); VertexPositionGeometry g(m); Vector3 x[] = {{0, 0, 0}, {2, 0, 0}, {3, 1, 0}, {.5, 2, 0}}; for (size_t i = 0; i < 4; i++) g.vertexPositions[i] = x[i];
 g.requireTransportVectorsAlongHalfedge(); for (Halfedge h : m.halfedges()) { Vector2 r = g.transportVectorsAlongHalfedge[h] * g.transportVectorsAlongHalfedge[h.twin()]; if ((r - Vector2{1, 0}).norm() > 1e-9) return 1; } return 0;"""),
dict(id="subdivide_boundary_mark",property="P22",file="src/surface/subdivide.cpp",needs="linear subdivision of a mesh with boundary",breaks="halves of split boundary edges are split again by linearSubdivide",
 old="""    isOrigVert[newV] = false;
    isOrigEdge[newHe.edge()] = false;
    isOrigEdge[newHe.twin().next().edge()] = false;

    GC_SAFETY_ASSERT(isOrigVert[newHe.twin().vertex()] && isOrigVert[newHe.twin().next().twin().vertex()], "???");

    newPositions[newV] = newPos;
  }

  // Subdivide faces
  FaceData<bool> isOrigFace(mesh, true);
  for (Face f : mesh.faces()) {
    if (!isOrigFace[f]) continue;

    Vector3 newPos = splitFacePositions[f];

    // split the face
    Vertex newV = mesh.insertVertex(f);
    isOrigVert[newV] = false;
    newPositions[newV] = newPos;

    for (Face f : newV.adjacentFaces()) {
      isOrigFace[f] = false;
    }

    // get incoming halfedges before we start deleting edges
    std::vector<Halfedge> incomingHalfedges;
    for (Halfedge he : newV.incomingHalfedges()) {
      incomingHalfedges.push_back(he);
    }

    for (Halfedge he : incomingHalfedges) {
      if (isOrigVert[he.vertex()]) {
        Face mergedF = mesh.removeEdge(he.edge());
        if (mergedF == Face()) {
          std::cout << "merge was impossible?" << std::endl;
        } else {
          isOrigFace[mergedF] = false;
        }
      }
    }
  }

  mesh.compress();
  geo.inputVertexPositions = newPositions;
  geo.refreshQuantities();
}

void catmull""",inc=INC+'#include "geometrycentral/surface/subdivide.h"\n',
 demo="""ManifoldSurfaceMesh m(std::vector<std::vector<size_t>>{{0, 1, 2}, {0, 2, 3}}); VertexPositionGeometry g(m); Vector3 x[] = {{0, 0, 0}, {2, 0, 0}, {3, 1, 0}, {.5, 2, 0}}; for (size_t i = 0; i < 4; i++) g.vertexPositions[i] = x[i];
 Vector3 s = Vector3::zero(); linearSubdivide(m, g); if (m.nVertices() != 11 || m.nFaces() != 6) return 1; bool found = false; for (Vertex v : m.vertices()) if ((g.vertexPositions[v] - (x[0] + x[1] + x[2]) / 3).norm() < 1e-9) found = true; if (!found) return 1; for (Face f : m.faces()) if (f.degree() != 4) return 1; return 0;"""),
dict(id="fmm_characteristic",property="P30",file="src/surface/fast_marching_method.cpp",needs="a front that reaches an acute triangle from outside it, so that the distance goes along one edge",breaks="the eikonal solution is used although its characteristic does not pass through the triangle, giving distances below the true ones",
 old="    if (u < sign * t && a * cTheta < y && y < a / cTheta) {",new="    if (u < sign * t && y < a / cTheta) {",inc=INC+'#include "geometrycentral/surface/fast_marching_method.h"\n#include "geometrycentral/surface/edge_length_geometry.h"\n',
 demo="""ManifoldSurfaceMesh m(std::vector<std::vector<size_t>>{{0, 1, 2}}); EdgeData<double> l(m, 1.); EdgeLengthGeometry g(m, l);
 auto d = FMMDistance(g, std::vector<std::pair<Vertex, double>>{{m.vertex(0), 0.}, {m.vertex(1), .6}}); return std::fabs(d[m.vertex(2)] - 1) < 1e-6 ? 0 : 1;"""),
dict(id="delaunay_requeue",property="P25",file="src/surface/remeshing.cpp",needs="a chain of flips in which an already accepted edge becomes non-Delaunay through a flip of its neighbour",breaks="fixDelaunay forgets to check one of the four edges around a flipped edge again, so it can stop at a triangulation that is not Delaunay",
 old="    std::array<Edge, 4> neighboringEdges{he.next().edge(), he.next().next().edge(), he.twin().next().edge(),\n                                         he.twin().next().next().edge()};",
 new="    std::array<Edge, 4> neighboringEdges{he.next().edge(), he.next().next().edge(), he.twin().next().edge(),\n                                         he.twin().next().twin().edge()};",
 inc=INC+'#include "geometrycentral/surface/remeshing.h"\n#include <random>\n',pre=GRID,
 demo="""std::mt19937 r(5); auto R = [&]() { return (double)(r() % 1000) / 1000 * 6; };
 for (int k = 0; k < 60; k++) { ManifoldSurfaceMesh m(std::vector<std::vector<size_t>>{{0, 1, 2}, {0, 2, 3}}); std::vector<Vector3> x{{0, 0, 0}, {6, 0, 0}, {6, 6, 0}, {0, 6, 0}}; 
  for (int i = 0; i < 12; i++) { Vector3 p{R(), R(), 0}; for (Face f : m.faces()) { std::vector<Vector3> c; for (Vertex v : f.adjacentVertices()) c.push_back(x[v.getIndex()]); bool in = true; for (int j = 0; j < 3; j++) in = in && cross(c[(j + 1) % 3] - c[j], p - c[j]).z > .05; if (in) { m.insertVertex(f); x.push_back(p); break; } } }
  VertexPositionGeometry g(m); for (size_t i = 0; i < x.size(); i++) g.vertexPositions[i] = x[i]; g.refreshQuantities(); fixDelaunay(m, g);
  for (Edge e : m.edges()) { if (e.isBoundary()) continue; double s = 0; for (Halfedge h : {e.halfedge(), e.halfedge().twin()}) { Vector3 a = g.vertexPositions[h.tailVertex()], b = g.vertexPositions[h.tipVertex()], c = g.vertexPositions[h.next().tipVertex()]; s += std::acos(dot(unit(a - c), unit(b - c))); } if (s > 3.14159265358979 + 1e-6) return 1; } }
 return 0;"""),
]
B = BUGS[1]; B["new"] = B["old"].replace("    isOrigEdge[newHe.twin().next().edge()] = false;", "    if (!newHe.edge().isBoundary()) isOrigEdge[newHe.twin().next().edge()] = false;")
