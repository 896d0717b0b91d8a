MM="src/surface/manifold_surface_mesh.cpp"; SM="src/surface/surface_mesh.cpp"
V='#include "geometrycentral/surface/manifold_surface_mesh.h"\n#include "geometrycentral/surface/surgery.h"\n'
G="std::vector<std::vector<size_t>> P"
BUGS=[
dict(id="flip_dup_boundary",property="P04",file=SM,needs="self-edge prevention on, opposite vertices already joined, and the shared neighbour on the boundary",breaks="flip with self-edge prevention creates a duplicate edge",
 old="      if (v == vd) return false;",new="      if (v == vd && !v.isBoundary()) return false;",
 demo="""ManifoldSurfaceMesh m(std::vector<std::vector<size_t>>{{0, 1, 2}, {0, 2, 3}, {0, 3, 1}});
 for (Edge e : m.edges()) { if (e.isBoundary()) continue; if (m.flip(e, true)) return 1; } return 0;"""),
dict(id="along_vertex_rep",property="P05",file=MM,needs="an interior tail vertex whose stored halfedge is the edge's canonical halfedge",breaks="vertex.halfedge() starts at a different vertex after insertVertexAlongEdge",
 old="  if (oldVBottom.halfedge() == heACenter) {",new="  if (oldVBottom.halfedge() == heACenter && isBoundary) {",
 demo="""for (int k = 0; k < 6; k++) { ManifoldSurfaceMesh m(std::vector<std::vector<size_t>>{{0, 1, 2}, {0, 2, 3}, {0, 3, 1}, {1, 3, 2}});
 Halfedge r = m.insertVertexAlongEdge(m.edge(k)); m.insertVertexAlongEdge(r.edge()); for (Vertex v : m.vertices()) if (v.halfedge().vertex() != v) return 1; } return 0;"""),
dict(id="collapse_bdy_rep",property="P06",file=MM,needs="collapsing a degree-3 interior vertex next to a boundary vertex opposite the kept face",breaks="boundary vertex no longer stores the first interior halfedge, so boundary iteration is wrong",
 old="""      heFaceArr[heA1.getIndex()] = fC.getIndex();
      fHalfedgeArr[fC.getIndex()] = heC0.getIndex();
      // boundary vertex already safe with boundary edge
      if (!vB.isBoundary()) {
        vHalfedgeArr[vB.getIndex()] = heA1.getIndex();
      }
      if (!vC.isBoundary()) {
        vHalfedgeArr[vC.getIndex()] = heC0.getIndex();
      }
      if (!vD.isBoundary()) {
        vHalfedgeArr[vD.getIndex()] = heB2.getIndex();
      }

      // Actually delete
      deleteEdgeBundle(e);
      deleteEdgeBundle(heB1.edge());
      deleteEdgeBundle(heA2.edge());
      deleteElement(vA);
      deleteElement(fA);
      deleteElement(fB);

      return vB;
    }

    else {""",new="""      heFaceArr[heA1.getIndex()] = fC.getIndex();
      fHalfedgeArr[fC.getIndex()] = heC0.getIndex();
      // boundary vertex already safe with boundary edge
      if (!vB.isBoundary()) {
        vHalfedgeArr[vB.getIndex()] = heA1.getIndex();
      }
      if (!vC.isBoundary()) {
        vHalfedgeArr[vC.getIndex()] = heC0.getIndex();
      }
      vHalfedgeArr[vD.getIndex()] = heB2.getIndex();

      // Actually delete
      deleteEdgeBundle(e);
      deleteEdgeBundle(heB1.edge());
      deleteEdgeBundle(heA2.edge());
      deleteElement(vA);
      deleteElement(fA);
      deleteElement(fB);

      return vB;
    }

    else {""",
 demo="""for (int k = 0; k < 9; k++) { ManifoldSurfaceMesh m(std::vector<std::vector<size_t>>{{0, 1, 3}, {1, 2, 3}, {2, 0, 3}, {1, 0, 4}});
 if ((size_t)k >= m.nEdges()) break; Edge e = m.edge(k); if (e.isBoundary()) continue; m.collapseEdgeTriangular(e);
 for (Vertex v : m.vertices()) { bool b = false; for (Halfedge h : m.halfedges()) if (h.vertex() == v && !h.isInterior()) b = true; if (b != v.isBoundary()) return 1; } } return 0;"""),
dict(id="cut_parent_twin",property="P07",file="src/surface/surgery.cpp",inc=V,needs="a cut edge whose second side gets a new halfedge",breaks="parent map sends the far side of a cut edge to nothing",
 old="    parentHalfedges[newHeOpp] = oldParentT;",new="    if (parentHalfedges[newHeOpp] != Halfedge()) parentHalfedges[newHeOpp] = oldParentT;",
 demo="""for (int k = 0; k < 6; k++) { ManifoldSurfaceMesh m(std::vector<std::vector<size_t>>{{0, 1, 2}, {0, 2, 3}, {0, 3, 1}, {1, 3, 2}});
 EdgeData<char> c(m, 0); c[m.edge(k)] = 1; auto r = cutAlongEdges(m, c); for (Halfedge h : std::get<0>(r)->interiorHalfedges()) if (std::get<1>(r)[h] == Halfedge() || std::get<1>(r)[h].face().getIndex() != h.face().getIndex()) return 1; } return 0;"""),
]
