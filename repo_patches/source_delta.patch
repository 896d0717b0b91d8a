From a82330d9dc6d85afe2d16d3853faa4f9c6b60720 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:45:10 +0000
Subject: [PATCH 01/56] fix: flip() with preventSelfEdges must refuse a flip
 whose endpoints would coincide

---
 src/surface/surface_mesh.cpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/surface/surface_mesh.cpp b/src/surface/surface_mesh.cpp
index 4d0bdeb..7b3d382 100644
--- a/src/surface/surface_mesh.cpp
+++ b/src/surface/surface_mesh.cpp
@@ -878,7 +878,8 @@ bool SurfaceMesh::flip(Edge eFlip, bool preventSelfEdges) {
   Vertex vd = hb3.vertex();
 
   if (preventSelfEdges) {
-    // If enabled, make sure it is not a duplicate
+    // If enabled, make sure it is neither a self edge nor a duplicate
+    if (vc == vd) return false;
     for (Vertex v : vc.adjacentVertices()) {
       if (v == vd) return false;
     }
-- 
2.43.0


From f18cd67d8c779fadc603010d6751b7c0c83c937d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:53:17 +0000
Subject: [PATCH 02/56] fix: removeFaceAlongBoundary() must update the interior
 halfedge count

---
 src/surface/manifold_surface_mesh.cpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/surface/manifold_surface_mesh.cpp b/src/surface/manifold_surface_mesh.cpp
index a9cd376..0837545 100644
--- a/src/surface/manifold_surface_mesh.cpp
+++ b/src/surface/manifold_surface_mesh.cpp
@@ -1364,6 +1364,7 @@ bool ManifoldSurfaceMesh::removeFaceAlongBoundary(Face f) {
     // Update refs
     for (Halfedge he : f.adjacentHalfedges()) {
       heFaceArr[he.getIndex()] = bLoop.getIndex();
+      nInteriorHalfedgesCount--; // no longer interior
     }
 
     // Next refs
-- 
2.43.0


From e9d3029d4cddbfa19e05e796b2ffab7f5766e324 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:53:17 +0000
Subject: [PATCH 03/56] fix: separateEdge() must update the interior halfedge
 count

---
 src/surface/manifold_surface_mesh.cpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/surface/manifold_surface_mesh.cpp b/src/surface/manifold_surface_mesh.cpp
index 0837545..ae42546 100644
--- a/src/surface/manifold_surface_mesh.cpp
+++ b/src/surface/manifold_surface_mesh.cpp
@@ -739,6 +739,7 @@ std::tuple<Halfedge, Halfedge> ManifoldSurfaceMesh::separateEdge(Edge e) {
 
     fHalfedgeArr[fB.getIndex()] = heN1.getIndex();
     fHalfedgeArr[blN.getIndex()] = heT.getIndex();
+    nInteriorHalfedgesCount--; // heT is no longer interior
 
     vHalfedgeArr[vA.getIndex()] = he.getIndex();
     vHalfedgeArr[vB.getIndex()] = heN1.getIndex();
@@ -780,6 +781,7 @@ std::tuple<Halfedge, Halfedge> ManifoldSurfaceMesh::separateEdge(Edge e) {
     heVertexArr[heCurr.getIndex()] = vN.getIndex();
 
     heFaceArr[heT.getIndex()] = bl.asFace().getIndex();
+    nInteriorHalfedgesCount--; // heT is no longer interior
     // std::cout << heFaceArr[heT.getIndex()] << std::endl;
     heFaceArr[heN1.getIndex()] = fB.getIndex();
     heFaceArr[heN2.getIndex()] = bl.asFace().getIndex();
-- 
2.43.0


From e61c94f1a2eb74d2d978e69197b2b54d1cdbc0d2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:53:17 +0000
Subject: [PATCH 04/56] fix: separateEdge() walked around the split vertex as
 if all faces were triangles

---
 src/surface/manifold_surface_mesh.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/surface/manifold_surface_mesh.cpp b/src/surface/manifold_surface_mesh.cpp
index ae42546..288d9c5 100644
--- a/src/surface/manifold_surface_mesh.cpp
+++ b/src/surface/manifold_surface_mesh.cpp
@@ -776,7 +776,7 @@ std::tuple<Halfedge, Halfedge> ManifoldSurfaceMesh::separateEdge(Edge e) {
     Halfedge heCurr = he;
     do { // set new outgoing halfedge from vN
       heVertexArr[heCurr.getIndex()] = vN.getIndex();
-      heCurr = heCurr.next().next().twin();
+      heCurr = heCurr.prevOrbitFace().twin();
     } while (heCurr != heBN);
     heVertexArr[heCurr.getIndex()] = vN.getIndex();
 
-- 
2.43.0


From 5e18adda2e9059a1e2bf8f478e1c99b32cf823ab Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:58:34 +0000
Subject: [PATCH 05/56] fix: collapseEdgeTriangular() on the outer edge of an
 ear collapsed a different edge

---
 src/surface/manifold_surface_mesh.cpp | 22 ++++++++++++++++++----
 1 file changed, 18 insertions(+), 4 deletions(-)

diff --git a/src/surface/manifold_surface_mesh.cpp b/src/surface/manifold_surface_mesh.cpp
index 288d9c5..bf62106 100644
--- a/src/surface/manifold_surface_mesh.cpp
+++ b/src/surface/manifold_surface_mesh.cpp
@@ -1056,10 +1056,6 @@ Vertex ManifoldSurfaceMesh::collapseEdgeTriangular(Edge e) {
   if (e.isBoundary()) {
     // Gather some values
     Halfedge heA0 = e.halfedge();
-    if (heA0.vertex().degree() == 2) {
-      heA0 = heA0.next().next();
-      e = heA0.edge();
-    }
 
     // check if edge is part of a 'pinch' triangle
     if (heA0.twin().next().next().next() == heA0.twin()) {
@@ -1101,6 +1097,24 @@ Vertex ManifoldSurfaceMesh::collapseEdgeTriangular(Edge e) {
     Halfedge heB0next = heB0.next();
     Face fB = heB0.face(); // boundary loop
 
+    if (!heC2.isInterior()) {
+      // vA is the tip of an ear: only the opposite edge remains, and it joins the boundary loop
+      heNextArr[heB0prev.getIndex()] = heA1.getIndex();
+      heNextArr[heA1.getIndex()] = heC0.getIndex();
+      heFaceArr[heA1.getIndex()] = fB.getIndex();
+      nInteriorHalfedgesCount--; // heA1 is no longer interior
+      fHalfedgeArr[fB.getIndex()] = heA1.getIndex();
+      vHalfedgeArr[vC.getIndex()] = heA1.twin().getIndex();
+
+      deleteEdgeBundle(e);
+      deleteEdgeBundle(heA2.edge());
+      deleteElement(vA);
+      deleteElement(fA);
+      ensureEdgeHasInteriorHalfedge(heA1.edge());
+
+      return vB;
+    }
+
     // Reassign connections
     std::vector<Halfedge> toReassignVertex;
     for (Halfedge he : vA.outgoingHalfedges()) {
-- 
2.43.0


From 278ec609c518f4f9e219ef21f2a280b4db0c7ddc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:00:46 +0000
Subject: [PATCH 06/56] fix: removeFaceAlongBoundary() only examined one vertex
 of a non-triangular face

---
 src/surface/manifold_surface_mesh.cpp | 10 +++++++---
 1 file changed, 7 insertions(+), 3 deletions(-)

diff --git a/src/surface/manifold_surface_mesh.cpp b/src/surface/manifold_surface_mesh.cpp
index bf62106..9b3c79c 100644
--- a/src/surface/manifold_surface_mesh.cpp
+++ b/src/surface/manifold_surface_mesh.cpp
@@ -1373,8 +1373,10 @@ bool ManifoldSurfaceMesh::removeFaceAlongBoundary(Face f) {
 
 
     // Opposite vertex must not be a bounary vertex or this creates a nonmanifold mesh (imagine hourglass)
-    if (heBPrev.vertex().isBoundary()) {
-      return false;
+    for (Halfedge he = heBNext.next(); he != heB; he = he.next()) {
+      if (he.vertex().isBoundary()) {
+        return false;
+      }
     }
 
     // Update refs
@@ -1389,7 +1391,9 @@ bool ManifoldSurfaceMesh::removeFaceAlongBoundary(Face f) {
 
     // Vertex halfedges
     vHalfedgeArr[heTNext.vertex().getIndex()] = heBPrev.twin().getIndex();
-    ensureVertexHasBoundaryHalfedge(heBPrev.vertex());
+    for (Halfedge he = heBNext; he != heBPrev; he = he.next()) {
+      ensureVertexHasBoundaryHalfedge(he.next().vertex());
+    }
 
     fHalfedgeArr[bLoop.getIndex()] = heTNext.getIndex();
 
-- 
2.43.0


From 42f1a1338cc1bbdb5d4fcfc3f2e041821fdf9059 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:10:59 +0000
Subject: [PATCH 07/56] fix: insertVertexAlongEdge() on an edge whose tail
 vertex has degree one broke the face cycle

---
 src/surface/manifold_surface_mesh.cpp | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/src/surface/manifold_surface_mesh.cpp b/src/surface/manifold_surface_mesh.cpp
index 9b3c79c..fef7e47 100644
--- a/src/surface/manifold_surface_mesh.cpp
+++ b/src/surface/manifold_surface_mesh.cpp
@@ -575,13 +575,16 @@ Halfedge ManifoldSurfaceMesh::insertVertexAlongEdge(Edge e) {
   heFaceArr[heANew.getIndex()] = fA.getIndex();
 
   // New halfedge B
-  heNextArr[heBNew.getIndex()] = heBNext.getIndex();
+  // (if the tail vertex has degree one, the next of B is A itself, whose tail half is now the new halfedge)
+  heNextArr[heBNew.getIndex()] = (heBNext == heACenter) ? heANew.getIndex() : heBNext.getIndex();
   heVertexArr[heBNew.getIndex()] = newV.getIndex();
   heFaceArr[heBNew.getIndex()] = fB.getIndex();
 
   // Fix pointers for old halfedges
   heNextArr[heBCenter.getIndex()] = heBNew.getIndex();
-  heNextArr[heAPrev.getIndex()] = heANew.getIndex();
+  if (heAPrev != heBCenter) {
+    heNextArr[heAPrev.getIndex()] = heANew.getIndex();
+  }
   heVertexArr[heACenter.getIndex()] = newV.getIndex();
 
   // Only set this if we broke it, to preseve boundary convention
-- 
2.43.0


From 8afeb1a1686dcd03e7315b8ee8e961390ade4d4f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:10:59 +0000
Subject: [PATCH 08/56] fix: switchHalfedgeSides() broke the face cycle at an
 endpoint of degree one

---
 src/surface/manifold_surface_mesh.cpp | 17 +++++++++++++----
 1 file changed, 13 insertions(+), 4 deletions(-)

diff --git a/src/surface/manifold_surface_mesh.cpp b/src/surface/manifold_surface_mesh.cpp
index fef7e47..3ec5a29 100644
--- a/src/surface/manifold_surface_mesh.cpp
+++ b/src/surface/manifold_surface_mesh.cpp
@@ -849,10 +849,19 @@ Halfedge ManifoldSurfaceMesh::switchHalfedgeSides(Edge e) {
   Vertex vB = heT.vertex();
 
   // Set references
-  heNextArr[he.getIndex()] = heTN.getIndex();
-  heNextArr[heTP.getIndex()] = he.getIndex();
-  heNextArr[heT.getIndex()] = heN.getIndex();
-  heNextArr[heP.getIndex()] = heT.getIndex();
+  // (at an endpoint of degree one, the two halfedges follow each other)
+  if (heTN == he) {
+    heNextArr[he.getIndex()] = heT.getIndex();
+  } else {
+    heNextArr[he.getIndex()] = heTN.getIndex();
+    heNextArr[heP.getIndex()] = heT.getIndex();
+  }
+  if (heN == heT) {
+    heNextArr[heT.getIndex()] = he.getIndex();
+  } else {
+    heNextArr[heT.getIndex()] = heN.getIndex();
+    heNextArr[heTP.getIndex()] = he.getIndex();
+  }
 
   heFaceArr[he.getIndex()] = fB.getIndex();
   heFaceArr[heT.getIndex()] = fA.getIndex();
-- 
2.43.0


From 6a4fcd3b5e58d76e94908ff9a05ae2fc629b2b80 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:33:20 +0000
Subject: [PATCH 09/56] fix: compress() permuted boundary loop data in reverse
 order

---
 src/surface/surface_mesh.cpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/surface/surface_mesh.cpp b/src/surface/surface_mesh.cpp
index 7b3d382..9f1efcd 100644
--- a/src/surface/surface_mesh.cpp
+++ b/src/surface/surface_mesh.cpp
@@ -1874,6 +1874,8 @@ void SurfaceMesh::compressFaces() {
       }
     }
   }
+  // boundary loops are indexed from the back of the face list
+  std::reverse(newBLIndMap.begin(), newBLIndMap.end());
 
 
   // Permute & resize all per-face arrays
-- 
2.43.0


From 98b9f96969582f8433870636d4a1657e7fc6c91c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:40:11 +0000
Subject: [PATCH 10/56] fix: genus() subtracted the boundary loops twice
 (annulus had genus -1)

---
 src/surface/manifold_surface_mesh.cpp | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/src/surface/manifold_surface_mesh.cpp b/src/surface/manifold_surface_mesh.cpp
index 3ec5a29..16b9a5f 100644
--- a/src/surface/manifold_surface_mesh.cpp
+++ b/src/surface/manifold_surface_mesh.cpp
@@ -519,9 +519,8 @@ int ManifoldSurfaceMesh::eulerCharacteristic() const {
 }
 
 int ManifoldSurfaceMesh::genus() const {
-  int chi = eulerCharacteristic();
-  int boundaryLoops = nBoundaryLoops();
-  return (2 - boundaryLoops - chi) / 2;
+  int chi = eulerCharacteristic(); // counts boundary loops as faces, so this is the value for the closed-up surface
+  return (2 - chi) / 2;
 }
 
 
-- 
2.43.0


From 31331ee64329921a9e6b24d050261c0cf4a94a75 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:47:21 +0000
Subject: [PATCH 11/56] fix: nConnectedComponents() missed edges whose next
 sibling is itself or points the same way

---
 src/surface/surface_mesh.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/surface/surface_mesh.cpp b/src/surface/surface_mesh.cpp
index 9f1efcd..b0ecc7b 100644
--- a/src/surface/surface_mesh.cpp
+++ b/src/surface/surface_mesh.cpp
@@ -443,7 +443,7 @@ size_t SurfaceMesh::nConnectedComponents() {
   VertexData<size_t> vertInd = getVertexIndices();
   DisjointSets dj(nVertices());
   for (Edge e : edges()) {
-    dj.merge(vertInd[e.halfedge().vertex()], vertInd[e.halfedge().twin().vertex()]);
+    dj.merge(vertInd[e.firstVertex()], vertInd[e.secondVertex()]);
   }
   std::unordered_set<size_t> distinctComponents;
   for (size_t i = 0; i < nVertices(); i++) {
-- 
2.43.0


From 1add6b1102f369184a6b475496d2e6b482f0d861 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:47:21 +0000
Subject: [PATCH 12/56] fix: Vertex::isManifoldAndOriented() was false for
 boundary vertices of a general mesh

---
 .../surface/halfedge_element_types.ipp        | 19 +++++--------------
 1 file changed, 5 insertions(+), 14 deletions(-)

diff --git a/include/geometrycentral/surface/halfedge_element_types.ipp b/include/geometrycentral/surface/halfedge_element_types.ipp
index cea15c1..9427483 100644
--- a/include/geometrycentral/surface/halfedge_element_types.ipp
+++ b/include/geometrycentral/surface/halfedge_element_types.ipp
@@ -46,21 +46,12 @@ inline bool Vertex::isBoundary() const {
   }
 }
 inline bool Vertex::isManifoldAndOriented() const {
-  // TODO this routine is actually pretty nontrivial, it probably deserves some more thought
-  // strategy: bootstrap off of the adjacency iterator, which already has functionality for nonmanifold vertices
   if(mesh->usesImplicitTwin()) return true;
-  size_t d = degree(); 
-  size_t kManif = 0; 
-  Halfedge firstHe = halfedge();
-  Halfedge currHe = firstHe;
-  do {
-    kManif++;
-    currHe = currHe.twin().next();
-    if(currHe.vertex() != *this) return false;
-    if(kManif > d) return false;
-  } while(currHe != firstHe);
-
-  return kManif == d;
+  if(!isManifold()) return false;
+  for(Edge e : adjacentEdges()) {
+    if(!e.isOriented()) return false;
+  }
+  return true;
 }
 inline bool Vertex::isManifold() const { 
   if(mesh->usesImplicitTwin()) return true;
-- 
2.43.0


From 8eaa65ae013f2bf4dae58d6cf47d03305bc286ca Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:51:44 +0000
Subject: [PATCH 13/56] fix: duplicateFace() must count its halfedges as
 interior

---
 src/surface/surface_mesh.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/surface/surface_mesh.cpp b/src/surface/surface_mesh.cpp
index b0ecc7b..8afb178 100644
--- a/src/surface/surface_mesh.cpp
+++ b/src/surface/surface_mesh.cpp
@@ -812,7 +812,7 @@ Face SurfaceMesh::duplicateFace(Face f) {
   bool first = true;
   Halfedge prevNewHe, firstNewHe;
   for (Halfedge oldHe : f.adjacentHalfedges()) {
-    Halfedge newHe = getNewHalfedge(false);
+    Halfedge newHe = getNewHalfedge(true);
 
     if (first) {
       fHalfedgeArr[newFace.getIndex()] = newHe.getIndex();
-- 
2.43.0


From 3ed5679f8772deeda1c9debc0fce3f64c3e3241f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:05:12 +0000
Subject: [PATCH 14/56] fix: a moved-from MeshData stayed registered with the
 mesh without any data

---
 include/geometrycentral/utilities/mesh_data.ipp | 10 ++++++++++
 1 file changed, 10 insertions(+)

diff --git a/include/geometrycentral/utilities/mesh_data.ipp b/include/geometrycentral/utilities/mesh_data.ipp
index 8b60ebd..0c5345d 100644
--- a/include/geometrycentral/utilities/mesh_data.ipp
+++ b/include/geometrycentral/utilities/mesh_data.ipp
@@ -48,6 +48,10 @@ template <typename E, typename T>
 MeshData<E, T>::MeshData(MeshData<E, T>&& other) noexcept
     : mesh(other.mesh), defaultValue(other.defaultValue), data(std::move(other.data)) {
   registerWithMesh();
+
+  // the moved-from container no longer holds any data, so it must not respond to further callbacks from the mesh
+  other.deregisterWithMesh();
+  other.mesh = nullptr;
 }
 
 
@@ -64,12 +68,18 @@ MeshData<E, T>& MeshData<E, T>::operator=(const MeshData<E, T>& other) {
 
 template <typename E, typename T>
 MeshData<E, T>& MeshData<E, T>::operator=(MeshData<E, T>&& other) noexcept {
+  if (this == &other) return *this;
+
   deregisterWithMesh();
   mesh = other.mesh;
   defaultValue = other.defaultValue;
   data = std::move(other.data);
   registerWithMesh();
 
+  // the moved-from container no longer holds any data, so it must not respond to further callbacks from the mesh
+  other.deregisterWithMesh();
+  other.mesh = nullptr;
+
   return *this;
 }
 
-- 
2.43.0


From bee5d41ca72ba84e5374d3424e82e399d1c915d3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:05:12 +0000
Subject: [PATCH 15/56] fix: reinterpretTo() must not copy the raw buffer,
 whose size and layout may differ on the target

---
 include/geometrycentral/utilities/mesh_data.ipp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/include/geometrycentral/utilities/mesh_data.ipp b/include/geometrycentral/utilities/mesh_data.ipp
index 0c5345d..e2f5c4c 100644
--- a/include/geometrycentral/utilities/mesh_data.ipp
+++ b/include/geometrycentral/utilities/mesh_data.ipp
@@ -265,8 +265,9 @@ template <typename E, typename T>
 inline MeshData<E, T> MeshData<E, T>::reinterpretTo(ParentMeshT& targetMesh) const {
   GC_SAFETY_ASSERT(nElements<E>(mesh) == nElements<E>(&targetMesh),
                    "meshes must have same number of elements to reinterpret");
+  // copy element by element: the buffers may have different sizes, or unused entries in different places
   MeshData<E, T> newData(targetMesh, defaultValue);
-  newData.data = data;
+  newData.fromVector(toVector());
   return newData;
 }
 
-- 
2.43.0


From 111bac11d2efaec4921b96d33d276abfbb5861c1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:05:12 +0000
Subject: [PATCH 16/56] fix: setDefault() left the first entry at the old
 default if there are no elements yet

---
 include/geometrycentral/utilities/mesh_data.ipp | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/include/geometrycentral/utilities/mesh_data.ipp b/include/geometrycentral/utilities/mesh_data.ipp
index e2f5c4c..2abea9d 100644
--- a/include/geometrycentral/utilities/mesh_data.ipp
+++ b/include/geometrycentral/utilities/mesh_data.ipp
@@ -282,11 +282,11 @@ inline void MeshData<E, T>::setDefault(T newDefault) {
   // TODO this is pretty sloppy, and probably indicates a flaw in the design of this class... The default should
   // probably just be const instead.
   // TODO could avoid this (and some things in fill()) with an element_fill<E>() template
-  size_t maxInd = 0;
+  size_t firstUnused = 0;
   for (E e : iterateElements<E>(mesh)) {
-    maxInd = std::max(maxInd, e.getIndex());
+    firstUnused = std::max(firstUnused, dataIndexOfElement(mesh, e) + 1);
   }
-  for (size_t i = maxInd + 1; i < (size_t)data.size(); i++) {
+  for (size_t i = firstUnused; i < (size_t)data.size(); i++) {
     data[i] = defaultValue;
   }
 }
-- 
2.43.0


From afa24d1bf8e7463038158a953ef278a43df25c98 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:12:21 +0000
Subject: [PATCH 17/56] fix: MutationManager::flipEdge() did not undo its test
 flip, and might have left the edge unflipped

---
 src/surface/mutation_manager.cpp | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/src/surface/mutation_manager.cpp b/src/surface/mutation_manager.cpp
index 31b8483..02dc227 100644
--- a/src/surface/mutation_manager.cpp
+++ b/src/surface/mutation_manager.cpp
@@ -120,8 +120,11 @@ bool MutationManager::flipEdge(Edge e) {
     return false;
   }
 
-  // Undo the test flip
-  mesh.flip(e);
+  // Undo the test flip. Each flip rotates the edge by a quarter turn in the same direction, so it takes three more to get
+  // back to the original halfedges and faces. (Skip the self-edge test, which could reject the intermediate flips.)
+  for (int i = 0; i < 3; i++) {
+    mesh.flip(e, false);
+  }
 
   // Invoke before callbacks
   for (EdgeFlipPolicy* policy : edgeFlipPolicies) {
-- 
2.43.0


From a7d69ac72ae40d95e7332413c7f032a34f99efae Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:12:21 +0000
Subject: [PATCH 18/56] fix: collapseEdge(e, position) always passed a
 parameter of -1 to the callbacks

---
 src/surface/mutation_manager.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/surface/mutation_manager.cpp b/src/surface/mutation_manager.cpp
index 02dc227..06904c3 100644
--- a/src/surface/mutation_manager.cpp
+++ b/src/surface/mutation_manager.cpp
@@ -217,7 +217,7 @@ Vertex MutationManager::collapseEdge(Edge e, Vector3 newVertexPosition) {
     VertexData<Vector3>& pos = geometry->vertexPositions;
     Vector3 posTail = pos[e.halfedge().tailVertex()];
     Vector3 posTip = pos[e.halfedge().tipVertex()];
-    double tCollapse = pointLineSegmentNeaestLocation(newVertexPosition, posTail, posTip);
+    tCollapse = pointLineSegmentNeaestLocation(newVertexPosition, posTail, posTip);
   }
 
   return collapseEdge(e, tCollapse, newVertexPosition);
-- 
2.43.0


From 4eb0c34ec800a91c597b7c7f7370c614e9bb7f40 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:12:34 +0000
Subject: [PATCH 19/56] fix: removePolicy() left a dangling pointer in the list
 of face split policies

---
 src/surface/mutation_manager.cpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/surface/mutation_manager.cpp b/src/surface/mutation_manager.cpp
index 06904c3..0a3df8a 100644
--- a/src/surface/mutation_manager.cpp
+++ b/src/surface/mutation_manager.cpp
@@ -396,6 +396,7 @@ void MutationManager::removePolicy(const MutationPolicyHandle& toRemove) {
   removeFromVector(edgeFlipPolicies, toRemove.policy);
   removeFromVector(edgeSplitPolicies, toRemove.policy);
   removeFromVector(edgeCollapsePolicies, toRemove.policy);
+  removeFromVector(faceSplitPolicies, toRemove.policy);
 
   // deletion happens here
   removeUniquePtrFromVector(allPolicies, toRemove.policy);
-- 
2.43.0


From 7c13b518bf5f3f379ca9dd8580e68f48fcee2722 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:42:14 +0000
Subject: [PATCH 20/56] fix: d1 used the wrong sign where halfedges of an edge
 point the same way (general meshes)

---
 src/surface/intrinsic_geometry_interface.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/surface/intrinsic_geometry_interface.cpp b/src/surface/intrinsic_geometry_interface.cpp
index a4bc788..5d77674 100644
--- a/src/surface/intrinsic_geometry_interface.cpp
+++ b/src/surface/intrinsic_geometry_interface.cpp
@@ -762,7 +762,7 @@ void IntrinsicGeometryInterface::computeDECOperators() {
 
       for (Halfedge he : f.adjacentHalfedges()) {
         size_t iEdge = edgeIndices[he.edge()];
-        double sign = (he == he.edge().halfedge()) ? (1.0) : (-1.0);
+        double sign = he.orientation() ? (1.0) : (-1.0);
         tripletList.emplace_back(iFace, iEdge, sign);
       }
     }
-- 
2.43.0


From 485954811714bf0358c81bbe53bb019db504fd9d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:20:32 +0000
Subject: [PATCH 21/56] fix: immediate vertexDualMeanCurvatureNormal visits
 every edge of the vertex on general meshes

---
 .../geometrycentral/surface/vertex_position_geometry.ipp  | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/include/geometrycentral/surface/vertex_position_geometry.ipp b/include/geometrycentral/surface/vertex_position_geometry.ipp
index 6e8d94a..85580ff 100644
--- a/include/geometrycentral/surface/vertex_position_geometry.ipp
+++ b/include/geometrycentral/surface/vertex_position_geometry.ipp
@@ -203,9 +203,11 @@ inline double VertexPositionGeometry::vertexPrincipalCurvature(int whichCurvatur
 inline Vector3 VertexPositionGeometry::vertexDualMeanCurvatureNormal(Vertex v) const {
   // WARNING: Logic duplicated between cached and immediate version
   Vector3 hN = Vector3::zero();
-  for (Halfedge he : v.outgoingHalfedges()) {
-    double w = edgeCotanWeight(he.edge());
-    hN += w * (vertexPositions[v] - vertexPositions[he.tipVertex()]) / 2.;
+  // visit edges rather than outgoing halfedges: on a general SurfaceMesh an edge may leave a vertex by none or by several
+  // of its halfedges
+  for (Edge e : v.adjacentEdges()) {
+    double w = edgeCotanWeight(e);
+    hN += w * (vertexPositions[v] - vertexPositions[e.otherVertex(v)]) / 2.;
   }
   return hN;
 }
-- 
2.43.0


From 62229cbf6e7de301bb542154cec2a029ffcae321 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:28:21 +0000
Subject: [PATCH 22/56] fix: polygon gradient matrix had the opposite sign
 (gradient of a function, as documented and as sharp of d)

---
 src/surface/embedded_geometry_interface.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/surface/embedded_geometry_interface.cpp b/src/surface/embedded_geometry_interface.cpp
index a32035b..e94c56a 100644
--- a/src/surface/embedded_geometry_interface.cpp
+++ b/src/surface/embedded_geometry_interface.cpp
@@ -882,7 +882,7 @@ Eigen::MatrixXd EmbeddedGeometryInterface::polygonPerFaceGradientMatrix(const Fa
   double A = faceAreas[f];
   Vector3 n = faceNormals[f];
   Eigen::Vector3d N = {n[0], n[1], n[2]};
-  return 1. / A * bracket(N) * polygonCoGradientMatrix(f);
+  return -1. / A * bracket(N) * polygonCoGradientMatrix(f);
 }
 
 Eigen::MatrixXd EmbeddedGeometryInterface::polygonCoGradientMatrix(const Face& f) {
-- 
2.43.0


From 2a04d99de5a645354ab02850b04db1b5d97681b4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:31:48 +0000
Subject: [PATCH 23/56] fix: tangent bases (and the polygon connection
 Laplacian) threw or misorbited on manifold polygon meshes

---
 src/surface/embedded_geometry_interface.cpp  | 25 ++++----------------
 src/surface/intrinsic_geometry_interface.cpp |  2 +-
 2 files changed, 5 insertions(+), 22 deletions(-)

diff --git a/src/surface/embedded_geometry_interface.cpp b/src/surface/embedded_geometry_interface.cpp
index e94c56a..af40bd4 100644
--- a/src/surface/embedded_geometry_interface.cpp
+++ b/src/surface/embedded_geometry_interface.cpp
@@ -149,31 +149,14 @@ void EmbeddedGeometryInterface::computeFaceTangentBasis() {
     return;
   }
 
-  halfedgeVectorsInFaceQ.ensureHave();
-
   for (Face f : mesh.faces()) {
-    // TODO this implementation seems a bit silly...
 
-    // For general polygons, take the average of each edge vector projected to tangent plane
-    Vector3 basisXSum = Vector3::zero();
+    // The x-axis is the direction of face.halfedge(), projected to the tangent plane (for faces of any degree)
     Vector3 N = faceNormals[f];
-    bool isTriangular = f.isTriangle();
-    for (Halfedge heF : f.adjacentHalfedges()) {
-
-      Vector3 eVec = vertexPositions[heF.next().vertex()] - vertexPositions[heF.vertex()];
-      eVec = eVec.removeComponent(N);
-
-      double angle = halfedgeVectorsInFace[heF].arg();
-      Vector3 eVecX = eVec.rotateAround(N, -angle);
+    Halfedge he = f.halfedge();
+    Vector3 eVec = vertexPositions[he.next().vertex()] - vertexPositions[he.vertex()];
 
-      basisXSum += eVecX;
-
-      // In the special case of a triangle, there is no need to to repeat at all three corners; the result will be the
-      // same
-      if (isTriangular) break;
-    }
-
-    Vector3 basisX = unit(basisXSum);
+    Vector3 basisX = unit(eVec.removeComponent(N));
     Vector3 basisY = cross(N, basisX);
     faceTangentBasis[f] = {{basisX, basisY}};
   }
diff --git a/src/surface/intrinsic_geometry_interface.cpp b/src/surface/intrinsic_geometry_interface.cpp
index 5d77674..f02e745 100644
--- a/src/surface/intrinsic_geometry_interface.cpp
+++ b/src/surface/intrinsic_geometry_interface.cpp
@@ -385,7 +385,7 @@ void IntrinsicGeometryInterface::computeHalfedgeVectorsInVertex() {
       halfedgeVectorsInVertex[currHe] = Vector2::fromAngle(coordSum) * edgeLengths[currHe.edge()];
       coordSum += cornerScaledAngles[currHe.corner()];
       if (!currHe.isInterior()) break;
-      currHe = currHe.next().next().twin();
+      currHe = currHe.prevOrbitFace().twin();
     } while (currHe != firstHe);
   }
 }
-- 
2.43.0


From 605a01c417934f718316ebfb0cc3c6c69bbf72e2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:32:42 +0000
Subject: [PATCH 24/56] fix: normals of non-planar polygons were not the
 normalized vector area

---
 .../surface/vertex_position_geometry.ipp      | 20 +++++--------------
 src/surface/embedded_geometry_interface.cpp   | 20 +++++--------------
 2 files changed, 10 insertions(+), 30 deletions(-)

diff --git a/include/geometrycentral/surface/vertex_position_geometry.ipp b/include/geometrycentral/surface/vertex_position_geometry.ipp
index 85580ff..68e4922 100644
--- a/include/geometrycentral/surface/vertex_position_geometry.ipp
+++ b/include/geometrycentral/surface/vertex_position_geometry.ipp
@@ -103,23 +103,13 @@ inline double VertexPositionGeometry::edgeCotanWeight(Edge e) const {
 
 // Face normal
 inline Vector3 VertexPositionGeometry::faceNormal(Face f) const {
-  // For general polygons, take the sum of the cross products at each corner
+  // For general polygons, this is the (doubled) vector area, measured from the first vertex
   Vector3 normalSum = Vector3::zero();
-  for (Halfedge heF : f.adjacentHalfedges()) {
-
-    // Gather vertex positions for next three vertices
-    Halfedge he = heF;
+  Vector3 pRoot = vertexPositions[f.halfedge().vertex()];
+  for (Halfedge he : f.adjacentHalfedges()) {
     Vector3 pA = vertexPositions[he.vertex()];
-    he = he.next();
-    Vector3 pB = vertexPositions[he.vertex()];
-    he = he.next();
-    Vector3 pC = vertexPositions[he.vertex()];
-
-    normalSum += cross(pB - pA, pC - pA);
-
-    // In the special case of a triangle, there is no need to to repeat at all three corners; the result will be the
-    // same
-    if (he.next() == heF) break;
+    Vector3 pB = vertexPositions[he.next().vertex()];
+    normalSum += cross(pA - pRoot, pB - pRoot);
   }
 
   Vector3 normal = unit(normalSum);
diff --git a/src/surface/embedded_geometry_interface.cpp b/src/surface/embedded_geometry_interface.cpp
index af40bd4..c953aa5 100644
--- a/src/surface/embedded_geometry_interface.cpp
+++ b/src/surface/embedded_geometry_interface.cpp
@@ -84,23 +84,13 @@ void EmbeddedGeometryInterface::computeFaceNormals() {
 
   for (Face f : mesh.faces()) {
 
-    // For general polygons, take the sum of the cross products at each corner
+    // For general polygons, this is the (doubled) vector area, measured from the first vertex
     Vector3 normalSum = Vector3::zero();
-    for (Halfedge heF : f.adjacentHalfedges()) {
-
-      // Gather vertex positions for next three vertices
-      Halfedge he = heF;
+    Vector3 pRoot = vertexPositions[f.halfedge().vertex()];
+    for (Halfedge he : f.adjacentHalfedges()) {
       Vector3 pA = vertexPositions[he.vertex()];
-      he = he.next();
-      Vector3 pB = vertexPositions[he.vertex()];
-      he = he.next();
-      Vector3 pC = vertexPositions[he.vertex()];
-
-      normalSum += cross(pB - pA, pC - pA);
-
-      // In the special case of a triangle, there is no need to to repeat at all three corners; the result will be the
-      // same
-      if (he.next() == heF) break;
+      Vector3 pB = vertexPositions[he.next().vertex()];
+      normalSum += cross(pA - pRoot, pB - pRoot);
     }
 
     Vector3 normal = unit(normalSum);
-- 
2.43.0


From b678974af4eb4ef3d48ecb9e9ea5ac483161230d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:43:16 +0000
Subject: [PATCH 25/56] fix: an unmatched unrequire() left a negative count, so
 later require()s did not protect the quantity

---
 include/geometrycentral/utilities/dependent_quantity.ipp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/geometrycentral/utilities/dependent_quantity.ipp b/include/geometrycentral/utilities/dependent_quantity.ipp
index eca0e20..c9dc6ce 100644
--- a/include/geometrycentral/utilities/dependent_quantity.ipp
+++ b/include/geometrycentral/utilities/dependent_quantity.ipp
@@ -28,8 +28,8 @@ inline void DependentQuantity::unrequire() {
   requireCount--;
 
   if (requireCount < 0) {
+    requireCount = 0; // leave a valid count behind, so that later require()s still protect the quantity
     throw std::logic_error("Quantity was unrequire()'d more than than it was require()'d");
-    requireCount = 0;
   }
 }
 
-- 
2.43.0


From 9f2fd6419b25894bc1c8459446c45fa8166a66c5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:24:33 +0000
Subject: [PATCH 26/56] fix: Hermite curve header can be included; a curve with
 N nodes has length N-1 and is evaluated inside its nodes

---
 include/geometrycentral/utilities/curve.h   |  2 +-
 include/geometrycentral/utilities/curve.ipp | 15 +++++++++------
 2 files changed, 10 insertions(+), 7 deletions(-)

diff --git a/include/geometrycentral/utilities/curve.h b/include/geometrycentral/utilities/curve.h
index 1e6910f..bc9141f 100644
--- a/include/geometrycentral/utilities/curve.h
+++ b/include/geometrycentral/utilities/curve.h
@@ -115,4 +115,4 @@ public:
 } // namespace geometrycentral
 
 // Implementation
-#include <curve.ipp>
+#include "geometrycentral/utilities/curve.ipp"
diff --git a/include/geometrycentral/utilities/curve.ipp b/include/geometrycentral/utilities/curve.ipp
index 909435d..626ae7e 100644
--- a/include/geometrycentral/utilities/curve.ipp
+++ b/include/geometrycentral/utilities/curve.ipp
@@ -1,8 +1,11 @@
 #pragma once
 
+#include "geometrycentral/utilities/curve.h"
+
+#include <algorithm>
 #include <cmath>
-#include <curve.h>
 #include <iostream>
+#include <stdexcept>
 
 namespace geometrycentral {
 
@@ -37,8 +40,8 @@ T HermiteCurve<T>::value(double t) const {
   if (t < 0.) return nodes[0].value + t * nodes[0].derivative;
   if (t > L) return nodes[n - 1].value + (t - static_cast<double>(n - 1)) * nodes[n - 1].derivative;
 
-  double t0 = floor(t);
-  size_t i = static_cast<size_t>(t0);
+  size_t i = std::min(static_cast<size_t>(t), n - 2); // the end of the curve belongs to the last segment
+  double t0 = static_cast<double>(i);
 
   const T& p0 = nodes[i + 0].value;
   const T& p1 = nodes[i + 1].value;
@@ -81,8 +84,8 @@ T HermiteCurve<T>::derivative(double t, unsigned int k) const {
       return T::zero();
   }
 
-  double t0 = floor(t);
-  size_t i = static_cast<size_t>(t0);
+  size_t i = std::min(static_cast<size_t>(t), n - 2); // the end of the curve belongs to the last segment
+  double t0 = static_cast<double>(i);
 
   const T& p0 = nodes[i + 0].value;
   const T& p1 = nodes[i + 1].value;
@@ -116,7 +119,7 @@ T HermiteCurve<T>::derivative(double t, unsigned int k) const {
 
 template <typename T>
 double HermiteCurve<T>::length() const {
-  return static_cast<double>(nodes.size());
+  return nodes.empty() ? 0. : static_cast<double>(nodes.size() - 1);
 }
 
 template <typename T>
-- 
2.43.0


From 6e43af42a4ec7f57654ffde0fe770810984e7986 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:05:21 +0000
Subject: [PATCH 27/56] fix: intersections() of two surfaces skipped triangle
 pairs with equal vertex indices, required no positions, and reported
 uninitialised segments for coplanar pairs

---
 src/surface/intersection.cpp        | 27 ++++++++++++++++++++-------
 src/utilities/tri_tri_intersect.cpp |  4 ++--
 2 files changed, 22 insertions(+), 9 deletions(-)

diff --git a/src/surface/intersection.cpp b/src/surface/intersection.cpp
index 90100ac..a98e5e0 100644
--- a/src/surface/intersection.cpp
+++ b/src/surface/intersection.cpp
@@ -21,15 +21,23 @@ SurfaceIntersectionResult intersections(EmbeddedGeometryInterface& geometry1, Em
   Vector3 p[3];
   Vector3 q[3];
 
-  int N = 0;
+  // vertices are only shared between triangles of the same surface (elements of different meshes compare by index)
+  bool sameSurface = &geometry1 == &geometry2;
+
+  for (SurfaceMesh* mesh : {&mesh1, &mesh2}) {
+    for (Face f : mesh->faces()) {
+      if (f.degree() != 3) {
+        throw std::logic_error("only triangle meshes are supported");
+      }
+    }
+  }
+
+  geometry1.requireVertexPositions();
+  geometry2.requireVertexPositions();
 
   // iterate over all face pairs f,g
   for (Face f : mesh1.faces()) {
 
-    if (f.degree() != 3) {
-      throw std::logic_error("only triangle meshes are supported");
-    }
-
     // get vertices ui of f
     int i = 0;
     for (Vertex ui : f.adjacentVertices()) {
@@ -51,8 +59,9 @@ SurfaceIntersectionResult intersections(EmbeddedGeometryInterface& geometry1, Em
       }
 
       // skip triangles that share vertices
-      if (!(u[0] == v[0] || u[0] == v[1] || u[0] == v[2] || u[1] == v[0] || u[1] == v[1] || u[1] == v[2] ||
-            u[2] == v[0] || u[2] == v[1] || u[2] == v[2])) {
+      if (!(sameSurface &&
+            (u[0] == v[0] || u[0] == v[1] || u[0] == v[2] || u[1] == v[0] || u[1] == v[1] || u[1] == v[2] ||
+            u[2] == v[0] || u[2] == v[1] || u[2] == v[2]))) {
 
         // get vertex locations
         for (int k = 0; k < 3; k++) {
@@ -68,6 +77,7 @@ SurfaceIntersectionResult intersections(EmbeddedGeometryInterface& geometry1, Em
         // add to list of all intersections
         if (r.intersect) {
           intersections.hasIntersections = true;
+          if (r.coplanar) continue; // no segment of intersection
           intersections.points.push_back(r.xA);
           intersections.points.push_back(r.xB);
           intersections.edges.push_back({n, n + 1});
@@ -77,6 +87,9 @@ SurfaceIntersectionResult intersections(EmbeddedGeometryInterface& geometry1, Em
     }
   }
 
+  geometry1.unrequireVertexPositions();
+  geometry2.unrequireVertexPositions();
+
   return intersections;
 }
 
diff --git a/src/utilities/tri_tri_intersect.cpp b/src/utilities/tri_tri_intersect.cpp
index 231c9c9..0114f1b 100644
--- a/src/utilities/tri_tri_intersect.cpp
+++ b/src/utilities/tri_tri_intersect.cpp
@@ -716,8 +716,8 @@ namespace geometrycentral {
 TriTriIntersectionResult3D triTriIntersection(Vector3 pA, Vector3 pB, Vector3 pC, Vector3 qA, Vector3 qB, Vector3 qC) {
   double V0[3], V1[3], V2[3];
   double U0[3], U1[3], U2[3];
-  int coplanar;
-  double isectpt1[3], isectpt2[3];
+  int coplanar = 0;
+  double isectpt1[3] = {0., 0., 0.}, isectpt2[3] = {0., 0., 0.}; // only set if there is a segment of intersection
 
   for (int i = 0; i < 3; i++) {
     V0[i] = pA[i];
-- 
2.43.0


From e0aaa6282f9188eaab8b2f4530b3f17f64e5278f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:29:12 +0000
Subject: [PATCH 28/56] fix: SurfacePoint::inEdge puts the tail at 0 and the
 tip at 1; edge vector between two points gets its sign

---
 include/geometrycentral/surface/barycentric_vector.ipp | 2 +-
 include/geometrycentral/surface/surface_point.ipp      | 4 ++--
 2 files changed, 3 insertions(+), 3 deletions(-)

diff --git a/include/geometrycentral/surface/barycentric_vector.ipp b/include/geometrycentral/surface/barycentric_vector.ipp
index 04f74d8..7ae5aac 100644
--- a/include/geometrycentral/surface/barycentric_vector.ipp
+++ b/include/geometrycentral/surface/barycentric_vector.ipp
@@ -31,7 +31,7 @@ inline BarycentricVector::BarycentricVector(SurfacePoint pA, SurfacePoint pB) {
     double a = pA_in_edge.tEdge;
     double b = pB_in_edge.tEdge;
     edge = e;
-    edgeCoords = Vector2{b - a, a - b};
+    edgeCoords = Vector2{a - b, b - a}; // tEdge is the coordinate of the tip
     return;
   }
 
diff --git a/include/geometrycentral/surface/surface_point.ipp b/include/geometrycentral/surface/surface_point.ipp
index 3c4f0b0..63a55c9 100644
--- a/include/geometrycentral/surface/surface_point.ipp
+++ b/include/geometrycentral/surface/surface_point.ipp
@@ -151,9 +151,9 @@ inline SurfacePoint SurfacePoint::inEdge(Edge targetEdge) const {
   switch (type) {
   case SurfacePointType::Vertex:
     if (vertex == targetEdge.halfedge().tailVertex()) {
-      return SurfacePoint(targetEdge, 1);
-    } else if (vertex == targetEdge.halfedge().tipVertex()) {
       return SurfacePoint(targetEdge, 0);
+    } else if (vertex == targetEdge.halfedge().tipVertex()) {
+      return SurfacePoint(targetEdge, 1);
     }
     break;
   case SurfacePointType::Edge:
-- 
2.43.0


From 368dabbdd9758fe4bfc4f3974ae49974af819111 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:29:12 +0000
Subject: [PATCH 29/56] fix: BarycentricVector::inFace throws for an edge
 vector not on the requested face

---
 include/geometrycentral/surface/barycentric_vector.ipp | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/include/geometrycentral/surface/barycentric_vector.ipp b/include/geometrycentral/surface/barycentric_vector.ipp
index 7ae5aac..035d997 100644
--- a/include/geometrycentral/surface/barycentric_vector.ipp
+++ b/include/geometrycentral/surface/barycentric_vector.ipp
@@ -117,9 +117,11 @@ inline BarycentricVector BarycentricVector::inFace(Face targetFace) const {
       return BarycentricVector(targetFace, faceCoords);
     }
     he = he.next();
-    Vector3 faceCoords =
-        he.orientation() ? Vector3{edgeCoords[1], 0., edgeCoords[0]} : Vector3{edgeCoords[0], 0., edgeCoords[1]};
-    return BarycentricVector(targetFace, faceCoords);
+    if (edge == he.edge()) {
+      Vector3 faceCoords =
+          he.orientation() ? Vector3{edgeCoords[1], 0., edgeCoords[0]} : Vector3{edgeCoords[0], 0., edgeCoords[1]};
+      return BarycentricVector(targetFace, faceCoords);
+    }
     break;
   }
   case BarycentricVectorType::Vertex:
-- 
2.43.0


From 69ef6496b6bf3b7d9c0423a67b518b962aac44f3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:29:12 +0000
Subject: [PATCH 30/56] fix: checkAdjacent does not take a boundary loop for a
 face shared by two surface points

---
 src/surface/surface_point.cpp | 14 +++++++-------
 1 file changed, 7 insertions(+), 7 deletions(-)

diff --git a/src/surface/surface_point.cpp b/src/surface/surface_point.cpp
index 1c98c4c..dd0a87f 100644
--- a/src/surface/surface_point.cpp
+++ b/src/surface/surface_point.cpp
@@ -20,7 +20,7 @@ bool checkAdjacent(Vertex vA, Vertex vB) {
 bool checkAdjacent(Vertex vA, Edge eB) {
   bool adjacent = false;
   for (Halfedge he : vA.outgoingHalfedges()) {
-    if (eB == he.next().edge()) adjacent = true;
+    if (he.isInterior() && eB == he.next().edge()) adjacent = true; // (a boundary loop is not a face)
     if (eB == he.edge()) adjacent = true;
   }
   return adjacent;
@@ -39,12 +39,12 @@ bool checkAdjacent(Edge eA, Vertex vB) { return checkAdjacent(vB, eA); }
 bool checkAdjacent(Edge eA, Edge eB) {
   bool adjacent = false;
 
-  // Must have a shared face
-  adjacent |= (eA.halfedge().face() == eB.halfedge().face());
-  adjacent |= (eA.halfedge().twin().face() == eB.halfedge().face());
-  adjacent |= (eA.halfedge().face() == eB.halfedge().twin().face());
-  adjacent |= (eA.halfedge().twin().face() == eB.halfedge().twin().face());
-
+  // Must have a shared face (adjacentFaces() skips boundary loops)
+  for (Face fA : eA.adjacentFaces()) {
+    for (Face fB : eB.adjacentFaces()) {
+      if (fA == fB) adjacent = true;
+    }
+  }
   return adjacent;
 }
 
-- 
2.43.0


From 3b4085800d1a7e57e024834ff66689297ccc9cf0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:31:15 +0000
Subject: [PATCH 31/56] fix: BarycentricVector::validate compares the
 floating-point coordinate sum (integer abs truncated it)

---
 include/geometrycentral/surface/barycentric_vector.ipp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/include/geometrycentral/surface/barycentric_vector.ipp b/include/geometrycentral/surface/barycentric_vector.ipp
index 035d997..be45c74 100644
--- a/include/geometrycentral/surface/barycentric_vector.ipp
+++ b/include/geometrycentral/surface/barycentric_vector.ipp
@@ -166,14 +166,14 @@ inline void BarycentricVector::validate() const {
   case BarycentricVectorType::Face:
     if (face == Face()) throw std::logic_error("BarycentricVector with Type::Face has invalid face ref");
     if (!isfinite(faceCoords)) throw std::logic_error("BarycentricVector with Type::Face has non-finite coords");
-    if (abs(sum(faceCoords)) > eps)
+    if (std::abs(sum(faceCoords)) > eps)
       throw std::logic_error("BarycentricVector with Type::Face has coords that do not sum to 0 " +
                              std::to_string(faceCoords));
     break;
   case BarycentricVectorType::Edge:
     if (edge == Edge()) throw std::logic_error("BarycentricVector with Type::Edge has invalid edge ref");
     if (!isfinite(edgeCoords)) throw std::logic_error("BarycentricVector with Type::Edge has non-finite coords");
-    if (abs(sum(edgeCoords)) > eps)
+    if (std::abs(sum(edgeCoords)) > eps)
       throw std::logic_error("BarycentricVector with Type::Edge has coords that do not sum to 0 " +
                              std::to_string(edgeCoords));
     break;
-- 
2.43.0


From 687fd4c95fbf0f8a693f4021c8804b6f3723ee3e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:01:53 +0000
Subject: [PATCH 32/56] fix: corner coordinates ignore arcs running along the
 triangle's edges

---
 src/surface/normal_coordinates.cpp | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/surface/normal_coordinates.cpp b/src/surface/normal_coordinates.cpp
index adc4ffa..559caae 100644
--- a/src/surface/normal_coordinates.cpp
+++ b/src/surface/normal_coordinates.cpp
@@ -826,6 +826,10 @@ size_t strictDegree(int nij, int njk, int nki) {
 // Counts the number of arcs clipping off corner k. If arcs leave corner k, then
 // they get counted as -1/2 each
 int cornerCoord(int nij, int njk, int nki) {
+  // arcs along an edge (negative coordinates) do not cross it
+  nij = positivePart(nij);
+  njk = positivePart(njk);
+  nki = positivePart(nki);
   return (njk + nki - nij - strictDegree(njk, nki, nij) - strictDegree(nki, nij, njk)) / 2;
 }
 
-- 
2.43.0


From b2a7bf6f043ed5d215dd831f62bbfe7ee7f1e24d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:04:16 +0000
Subject: [PATCH 33/56] fix: crossings of a split edge are counted with signed
 arithmetic

---
 src/surface/normal_coordinates.cpp | 20 ++++++++++----------
 1 file changed, 10 insertions(+), 10 deletions(-)

diff --git a/src/surface/normal_coordinates.cpp b/src/surface/normal_coordinates.cpp
index 559caae..6f3c0eb 100644
--- a/src/surface/normal_coordinates.cpp
+++ b/src/surface/normal_coordinates.cpp
@@ -205,15 +205,15 @@ std::array<int, 4> NormalCoordinates::computeInteriorEdgeSplitDataGeodesic(Intri
     Corner cl = e.halfedge().twin().next().next().corner();
 
     int n1 = 0;
-    n1 += positivePart(strictCornerCoord(e.halfedge().twin().corner()) - positivePart(n2));
-    n1 += positivePart(strictCornerCoord(e.halfedge().twin().next().corner()) - positivePart(n4));
+    n1 += positivePart(static_cast<int>(strictCornerCoord(e.halfedge().twin().corner())) - positivePart(n2));
+    n1 += positivePart(static_cast<int>(strictCornerCoord(e.halfedge().twin().next().corner())) - positivePart(n4));
     n1 += strictCornerCoord(cl);
     n1 += strictDegree(e.halfedge().twin().corner());
     n1 += strictDegree(e.halfedge().twin().next().corner());
 
     int n3 = 0;
-    n3 += positivePart(strictCornerCoord(e.halfedge().next().corner()) - positivePart(n2));
-    n3 += positivePart(strictCornerCoord(e.halfedge().corner()) - positivePart(n4));
+    n3 += positivePart(static_cast<int>(strictCornerCoord(e.halfedge().next().corner())) - positivePart(n2));
+    n3 += positivePart(static_cast<int>(strictCornerCoord(e.halfedge().corner())) - positivePart(n4));
     n3 += strictCornerCoord(ck);
     n3 += strictDegree(e.halfedge().corner());
     n3 += strictDegree(e.halfedge().next().corner());
@@ -243,15 +243,15 @@ std::array<int, 4> NormalCoordinates::computeInteriorEdgeSplitDataCombinatorial(
     Corner cl = e.halfedge().twin().next().next().corner();
 
     int n1 = 0;
-    n1 += positivePart(strictCornerCoord(e.halfedge().twin().corner()) - positivePart(n2));
-    n1 += positivePart(strictCornerCoord(e.halfedge().twin().next().corner()) - positivePart(n4));
+    n1 += positivePart(static_cast<int>(strictCornerCoord(e.halfedge().twin().corner())) - positivePart(n2));
+    n1 += positivePart(static_cast<int>(strictCornerCoord(e.halfedge().twin().next().corner())) - positivePart(n4));
     n1 += strictCornerCoord(cl);
     n1 += strictDegree(e.halfedge().twin().corner());
     n1 += strictDegree(e.halfedge().twin().next().corner());
 
     int n3 = 0;
-    n3 += positivePart(strictCornerCoord(e.halfedge().next().corner()) - positivePart(n2));
-    n3 += positivePart(strictCornerCoord(e.halfedge().corner()) - positivePart(n4));
+    n3 += positivePart(static_cast<int>(strictCornerCoord(e.halfedge().next().corner())) - positivePart(n2));
+    n3 += positivePart(static_cast<int>(strictCornerCoord(e.halfedge().corner())) - positivePart(n4));
     n3 += strictCornerCoord(ck);
     n3 += strictDegree(e.halfedge().corner());
     n3 += strictDegree(e.halfedge().next().corner());
@@ -310,8 +310,8 @@ std::array<int, 3> NormalCoordinates::computeBoundaryEdgeSplitDataGeodesic(Intri
     Corner ck = heI.next().next().corner();
 
     int n3 = 0;
-    n3 += positivePart(strictCornerCoord(heI.next().corner()) - positivePart(n2));
-    n3 += positivePart(strictCornerCoord(heI.corner()) - positivePart(n4));
+    n3 += positivePart(static_cast<int>(strictCornerCoord(heI.next().corner())) - positivePart(n2));
+    n3 += positivePart(static_cast<int>(strictCornerCoord(heI.corner())) - positivePart(n4));
     n3 += strictCornerCoord(ck);
     n3 += strictDegree(heI.corner());
     n3 += strictDegree(heI.next().corner());
-- 
2.43.0


From 3df5840f3ca520ef0a70aeda44b3fe6abc7292c3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:07:41 +0000
Subject: [PATCH 34/56] fix: a traced curve which ends at a vertex does not
 repeat its last crossing

---
 src/surface/normal_coordinates.cpp | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/surface/normal_coordinates.cpp b/src/surface/normal_coordinates.cpp
index 6f3c0eb..d1add9a 100644
--- a/src/surface/normal_coordinates.cpp
+++ b/src/surface/normal_coordinates.cpp
@@ -335,6 +335,7 @@ NormalCoordinatesCurve NormalCoordinates::topologicalTrace(Halfedge he, int inde
   int startIndex = index;
 
   NormalCoordinatesCurve path;
+  bool reachedVertex = false;
 
   do {
     int n = edgeCoords[he.edge()];
@@ -347,10 +348,12 @@ NormalCoordinatesCurve NormalCoordinates::topologicalTrace(Halfedge he, int inde
 
     path.crossings.push_back(std::make_pair(index, he));
 
-  } while (!stepTopologicalCurve(he, index) && !(he == startHe && index == startIndex) && !he.edge().isBoundary());
+    reachedVertex = stepTopologicalCurve(he, index);
+  } while (!reachedVertex && !(he == startHe && index == startIndex) && !he.edge().isBoundary());
 
   // If we made a complete loop, record the starting point (also the ending
   // point) again
+  if (reachedVertex) return path;
   if ((he == startHe && index == startIndex) || he.edge().isBoundary())
     path.crossings.push_back(std::make_pair(index, he));
 
-- 
2.43.0


From 08f7c2e040e5a372b569ced97d583eca164b055f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:07:41 +0000
Subject: [PATCH 35/56] fix: generateAnyGeometry draws curves which cross a
 single edge

---
 src/surface/normal_coordinates.cpp | 7 +++----
 1 file changed, 3 insertions(+), 4 deletions(-)

diff --git a/src/surface/normal_coordinates.cpp b/src/surface/normal_coordinates.cpp
index d1add9a..7b8f4da 100644
--- a/src/surface/normal_coordinates.cpp
+++ b/src/surface/normal_coordinates.cpp
@@ -500,7 +500,7 @@ std::vector<std::vector<SurfacePoint>> NormalCoordinates::generateAnyGeometry()
 
       // NormalCoordinatesCurve of size 1 (just immediately goes from a corner into the
       // boundary)
-      if (curve.crossings.size() == 1) {
+      if (curve.crossings.size() == 1 && std::get<1>(curve.crossings[0]).edge().isBoundary()) {
 
         Halfedge heStart = std::get<1>(curve.crossings[0]);
         SurfacePoint vStart(heStart.next().next().vertex());
@@ -514,10 +514,9 @@ std::vector<std::vector<SurfacePoint>> NormalCoordinates::generateAnyGeometry()
 
         double t = (index + 1) / (edgeCoords[he.edge()] + 1.);
         embeddedCurve.push_back(SurfacePoint(he, t));
-      }
 
-      // In this case, the path crosses mesh edges
-      if (curve.crossings[0] == curve.crossings[curve.crossings.size() - 1]) {
+        // In this case, the path crosses mesh edges
+      } else if (curve.crossings.size() > 1 && curve.crossings[0] == curve.crossings[curve.crossings.size() - 1]) {
         // In this case, the curve is a loop
         for (const std::pair<int, Halfedge>& pt : curve.crossings) {
           int index = std::get<0>(pt);
-- 
2.43.0


From 15ace163a950e9b6f6c04d8b9f5406e91df59d1d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:09:00 +0000
Subject: [PATCH 36/56] fix: tracing a curve both ways accepts curves which
 cross an edge several times

---
 src/surface/normal_coordinates.cpp | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/src/surface/normal_coordinates.cpp b/src/surface/normal_coordinates.cpp
index 7b8f4da..7016c30 100644
--- a/src/surface/normal_coordinates.cpp
+++ b/src/surface/normal_coordinates.cpp
@@ -392,9 +392,8 @@ std::tuple<NormalCoordinatesCurve, int> NormalCoordinates::topologicalTraceBidir
   NormalCoordinatesCurve forwardTrace = topologicalTrace(he, index);
 
   // Case where the curve is a cycle
-  // TODO this may be wrong
-  if (forwardTrace.crossings.size() > 1 &&
-      forwardTrace.crossings.front().second == forwardTrace.crossings.back().second) {
+  // (a curve may also cross the same halfedge several times without being a cycle)
+  if (forwardTrace.crossings.size() > 1 && forwardTrace.crossings.front() == forwardTrace.crossings.back()) {
     throw std::runtime_error("encountered a loop while tracing normal coordinates");
   }
 
-- 
2.43.0


From 488559a77a15131bc56c274d27067be346f2856d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:15:19 +0000
Subject: [PATCH 37/56] fix: catmullClarkSubdivide uses the Catmull-Clark edge
 points and treats boundary edges and vertices (it read a face of the boundary
 loop)

---
 src/surface/subdivide.cpp | 21 ++++++++++++++++++---
 1 file changed, 18 insertions(+), 3 deletions(-)

diff --git a/src/surface/subdivide.cpp b/src/surface/subdivide.cpp
index adfe0f0..d59cc20 100644
--- a/src/surface/subdivide.cpp
+++ b/src/surface/subdivide.cpp
@@ -100,17 +100,32 @@ void catmullClarkSubdivide(ManifoldSurfaceMesh& mesh, VertexPositionGeometry& ge
   }
 
   EdgeData<Vector3> splitEdgePositions(mesh);
+  EdgeData<Vector3> edgeMidpoints(mesh);
   for (Edge e : mesh.edges()) {
-    std::array<Face, 2> neigh{e.halfedge().face(), e.halfedge().twin().face()};
-    splitEdgePositions[e] = (splitFacePositions[neigh[0]] + splitFacePositions[neigh[1]]) / 2.;
+    edgeMidpoints[e] = (pos[e.halfedge().tailVertex()] + pos[e.halfedge().tipVertex()]) / 2.;
+    if (e.isBoundary()) {
+      splitEdgePositions[e] = edgeMidpoints[e];
+    } else {
+      std::array<Face, 2> neigh{e.halfedge().face(), e.halfedge().twin().face()};
+      splitEdgePositions[e] =
+          edgeMidpoints[e] / 2. + (splitFacePositions[neigh[0]] + splitFacePositions[neigh[1]]) / 4.;
+    }
   }
 
   for (Vertex v : mesh.vertices()) {
+    if (v.isBoundary()) {
+      // the boundary is subdivided as a curve
+      newPositions[v] = geo.inputVertexPositions[v] / 2.;
+      for (Edge e : v.adjacentEdges()) {
+        if (e.isBoundary()) newPositions[v] += edgeMidpoints[e] / 4.;
+      }
+      continue;
+    }
     double D = (double)v.degree();
     Vector3 S = geo.inputVertexPositions[v];
     Vector3 R = Vector3::zero();
     for (Edge e : v.adjacentEdges()) {
-      R += splitEdgePositions[e] / D;
+      R += edgeMidpoints[e] / D;
     }
     Vector3 Q = Vector3::zero();
     for (Face f : v.adjacentFaces()) {
-- 
2.43.0


From c57fd03f66995bf56775aff91aebfaad0e848682 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:26:01 +0000
Subject: [PATCH 38/56] fix: unpackMatrixToStdVector returns entries of the
 matrix's own type (it did not compile for non-size_t matrices)

---
 include/geometrycentral/numerical/linear_algebra_utilities.ipp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/geometrycentral/numerical/linear_algebra_utilities.ipp b/include/geometrycentral/numerical/linear_algebra_utilities.ipp
index 984178a..7ea56c7 100644
--- a/include/geometrycentral/numerical/linear_algebra_utilities.ipp
+++ b/include/geometrycentral/numerical/linear_algebra_utilities.ipp
@@ -96,7 +96,7 @@ std::vector<std::vector<T>> unpackMatrixToStdVector(const DenseMatrix<T>& mat) {
   size_t M = static_cast<size_t>(mat.cols());
 
   // Copy to vector representation
-  std::vector<std::vector<size_t>> vectors(N);
+  std::vector<std::vector<T>> vectors(N);
   for (size_t i = 0; i < N; i++) {
     vectors[i].resize(M);
     for (size_t j = 0; j < M; j++) {
-- 
2.43.0


From 94238f9d87603b547628f75d920fc61d31f2822f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:26:01 +0000
Subject: [PATCH 39/56] fix: checkFinite of a row vector reads its only row and
 accepts complex entries

---
 include/geometrycentral/numerical/linear_algebra_utilities.ipp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/geometrycentral/numerical/linear_algebra_utilities.ipp b/include/geometrycentral/numerical/linear_algebra_utilities.ipp
index 7ea56c7..f0d93fe 100644
--- a/include/geometrycentral/numerical/linear_algebra_utilities.ipp
+++ b/include/geometrycentral/numerical/linear_algebra_utilities.ipp
@@ -143,7 +143,7 @@ inline void checkFinite(const Eigen::Matrix<T, R, C>& m) {
 template <typename T, int C>
 inline void checkFinite(const Eigen::Matrix<T, 1, C>& m) {
   for (unsigned int j = 0; j < m.cols(); j++) {
-    if (!std::isfinite(m(1, j))) {
+    if (!isfinite(m(0, j))) {
       std::ostringstream msg;
       msg << "checkFinite() failure. Non-finite row vector entry [" << j << "] = " << m(j);
       // std::cerr << msg.str() << std::endl;
-- 
2.43.0


From dab45312d8f49c97f025bb424f1541209f870f19 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:30:30 +0000
Subject: [PATCH 40/56] fix: flipToDelaunay leaves boundary edges alone instead
 of throwing on every mesh with boundary

---
 src/surface/simple_idt.cpp | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/src/surface/simple_idt.cpp b/src/surface/simple_idt.cpp
index 8580d28..9b22036 100644
--- a/src/surface/simple_idt.cpp
+++ b/src/surface/simple_idt.cpp
@@ -118,8 +118,7 @@ size_t flipToDelaunay(SurfaceMesh& mesh, EdgeData<double>& edgeLengths, FlipType
 
   auto flipEdgeIfNotDelaunay = [&](Edge e) {
     // Can't flip
-    //if (e.isBoundary()) return false;
-    if (e.isBoundary()) throw std::runtime_error("boundary");
+    if (e.isBoundary()) return false;
     if (!e.isManifold()) throw std::runtime_error("nonmanifold");
 
     // Don't want to flip
-- 
2.43.0


From 59fd2611d45f6c56f77f7e03f13dece9d8aa73a2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:40:50 +0000
Subject: [PATCH 41/56] fix: collapseEdgeTriangular reports interior vertices
 of degree below three as not collapsible

---
 src/surface/manifold_surface_mesh.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/surface/manifold_surface_mesh.cpp b/src/surface/manifold_surface_mesh.cpp
index 16b9a5f..24a02a3 100644
--- a/src/surface/manifold_surface_mesh.cpp
+++ b/src/surface/manifold_surface_mesh.cpp
@@ -1286,8 +1286,8 @@ Vertex ManifoldSurfaceMesh::collapseEdgeTriangular(Edge e) {
     }
 
     else {
-      // return heA0.vertex();
-      throw std::runtime_error("Collapsing interior vertices with degree < 3 is not supported.");
+      // Collapsing interior vertices with degree < 3 is not supported.
+      return Vertex();
     }
   }
 
-- 
2.43.0


From 0fd70a56cc675f2801879f73e50d50286bc284d2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:40:50 +0000
Subject: [PATCH 42/56] fix: quadricErrorSimplify compares costs with the
 floating-point absolute value

---
 src/surface/quadric_error_simplification.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/surface/quadric_error_simplification.cpp b/src/surface/quadric_error_simplification.cpp
index 690095a..ee00ed5 100644
--- a/src/surface/quadric_error_simplification.cpp
+++ b/src/surface/quadric_error_simplification.cpp
@@ -93,7 +93,7 @@ void quadricErrorSimplify(ManifoldSurfaceMesh& mesh, VertexPositionGeometry& geo
 
     // If either vertex has been collapsed since the edge was pushed
     // onto the queue, the old cost was wrong. In that case, give up
-    if (abs(cost - Qe.cost(q)) > 1e-8) continue;
+    if (std::abs(cost - Qe.cost(q)) > 1e-8) continue;
     if (!q.array().isFinite().all()) continue; // numerical safety
 
     Vertex v = mm.collapseEdge(e, fromEigen(q));
-- 
2.43.0


From 6c8b2935f9284fee0fe2cda337a8c68b11f70650 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:40:50 +0000
Subject: [PATCH 43/56] fix: remeshing honours relative target lengths and uses
 up-to-date curvature

---
 src/surface/remeshing.cpp | 28 +++++++++++++++++-----------
 1 file changed, 17 insertions(+), 11 deletions(-)

diff --git a/src/surface/remeshing.cpp b/src/surface/remeshing.cpp
index fa73e07..2d9dc64 100644
--- a/src/surface/remeshing.cpp
+++ b/src/surface/remeshing.cpp
@@ -6,23 +6,26 @@ namespace surface {
 // The default trace options
 const RemeshOptions defaultRemeshOptions;
 
+// A negative target length is relative to the mesh's mean edge length
+double absoluteTargetLength(ManifoldSurfaceMesh& mesh, VertexPositionGeometry& geom, const RemeshOptions& options) {
+  if (options.targetEdgeLength >= 0) return options.targetEdgeLength;
+
+  double meanLength = 0;
+  for (Edge e : mesh.edges()) {
+    meanLength += geom.edgeLength(e);
+  }
+  meanLength /= mesh.nEdges();
+
+  return std::abs(options.targetEdgeLength * meanLength);
+}
+
 void remesh(ManifoldSurfaceMesh& mesh, VertexPositionGeometry& geom, RemeshOptions options) {
   MutationManager mm(mesh, geom);
   return remesh(mesh, geom, mm, options);
 }
 
 void remesh(ManifoldSurfaceMesh& mesh, VertexPositionGeometry& geom, MutationManager& mm, RemeshOptions options) {
-  if (options.targetEdgeLength < 0) {
-    double meanLength = 0;
-    geom.requireEdgeLengths();
-    for (Edge e : mesh.edges()) {
-      meanLength += geom.edgeLengths[e];
-    }
-    geom.unrequireEdgeLengths();
-    meanLength /= mesh.nEdges();
-
-    options.targetEdgeLength = abs(options.targetEdgeLength * meanLength);
-  }
+  options.targetEdgeLength = absoluteTargetLength(mesh, geom, options);
 
   bool doConnectivityChanges = true;
 
@@ -364,9 +367,12 @@ bool adjustEdgeLengths(ManifoldSurfaceMesh& mesh, VertexPositionGeometry& geom,
 
 bool adjustEdgeLengths(ManifoldSurfaceMesh& mesh, VertexPositionGeometry& geom, MutationManager& mm,
                        RemeshOptions options) {
+  // The mesh and positions may have changed since these were last computed
+  geom.refreshQuantities();
   geom.requireVertexDualAreas();
   geom.requireVertexMeanCurvatures();
 
+  options.targetEdgeLength = absoluteTargetLength(mesh, geom, options);
   double curvatureAdaptation = options.curvatureAdaptation;
   bool useCurvatureAdaptation = curvatureAdaptation > 0;
   double flatLength = options.targetEdgeLength;
-- 
2.43.0


From 48f55ed1c318d903cae5bfa30b109401e012b481 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:40:50 +0000
Subject: [PATCH 44/56] fix: marchingTriangles handles level sets through
 vertices and along edges

---
 src/surface/marching_triangles.cpp | 27 ++++++++++++++++++---------
 1 file changed, 18 insertions(+), 9 deletions(-)

diff --git a/src/surface/marching_triangles.cpp b/src/surface/marching_triangles.cpp
index 5436d8f..d2a9ac7 100644
--- a/src/surface/marching_triangles.cpp
+++ b/src/surface/marching_triangles.cpp
@@ -66,10 +66,13 @@ std::vector<std::vector<SurfacePoint>> marchingTriangles(IntrinsicGeometryInterf
   SurfaceMesh& mesh = *u.getMesh();
   std::vector<SurfacePoint> nodes;
   std::vector<std::array<size_t, 2>> edges;
+  EdgeData<bool> isoEdge(mesh, false); // edges of the mesh which already have a segment
   for (Face f : mesh.faces()) {
     std::vector<SurfacePoint> hits;
     BarycentricVector gradient(f);
     for (Halfedge he : f.adjacentHalfedges()) {
+      // Record vertices which lie exactly on the level set
+      if (u[he.vertex()] == isoval) hits.emplace_back(he.vertex());
       // Record edge crossings
       Edge e = he.edge();
       Vertex v0 = e.firstVertex();
@@ -78,20 +81,26 @@ std::vector<std::vector<SurfacePoint>> marchingTriangles(IntrinsicGeometryInterf
       double u1 = u[v1];
       double lB = std::min(u0, u1);
       double uB = std::max(u0, u1);
-      if (lB == uB && lB == isoval) {
-        hits.clear();
-        hits = {SurfacePoint(v0), SurfacePoint(v1)};
-        break;
+      if (lB < isoval && isoval < uB) {
+        double t = (isoval - lB) / (uB - lB);
+        if (u0 > u1) t = 1. - t;
+        hits.emplace_back(e, t);
       }
-      double t = (isoval - lB) / (uB - lB);
-      if (u0 > u1) t = 1. - t;
-      if (t <= 1. && t >= 0.) hits.emplace_back(e, t);
       // Compute gradient of the scalar function.
       BarycentricVector heVec(he.next(), f);
       BarycentricVector ePerp = heVec.rotate90(geom);
       gradient += ePerp * u[he.vertex()];
     }
     if (hits.size() != 2) continue;
+    if (hits[0].type == SurfacePointType::Vertex && hits[1].type == SurfacePointType::Vertex) {
+      // An edge in the level set, which might be shared with a face we already visited
+      Edge e = f.halfedge().edge();
+      for (Halfedge he : f.adjacentHalfedges()) {
+        if (u[he.tailVertex()] == isoval && u[he.tipVertex()] == isoval) e = he.edge();
+      }
+      if (isoEdge[e]) continue;
+      isoEdge[e] = true;
+    }
 
     // Orient segments so that smaller values are always on the "inside" of the curve.
     std::array<size_t, 2> seg;
@@ -104,8 +113,8 @@ std::vector<std::vector<SurfacePoint>> marchingTriangles(IntrinsicGeometryInterf
         seg[i] = nodes.size() - 1;
       }
     }
-    BarycentricVector segTangent(hits[0], hits[1]);
-    BarycentricVector segNormal = -segTangent.inFace(f).rotate90(geom);
+    BarycentricVector segTangent(f, hits[1].inFace(f).faceCoords - hits[0].inFace(f).faceCoords);
+    BarycentricVector segNormal = -segTangent.rotate90(geom);
     if (dot(geom, segNormal, gradient) > 0.) {
       edges.push_back(seg);
     } else {
-- 
2.43.0


From c6e71505316a620beb56d8239045b1bf0937bc60 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:40:50 +0000
Subject: [PATCH 45/56] fix: common subdivision path along a shared edge ends
 at the vertex it reaches

---
 src/surface/integer_coordinates_intrinsic_triangulation.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/surface/integer_coordinates_intrinsic_triangulation.cpp b/src/surface/integer_coordinates_intrinsic_triangulation.cpp
index 6902916..da3e632 100644
--- a/src/surface/integer_coordinates_intrinsic_triangulation.cpp
+++ b/src/surface/integer_coordinates_intrinsic_triangulation.cpp
@@ -267,7 +267,7 @@ void IntegerCoordinatesIntrinsicTriangulation::constructCommonSubdivision() {
 
         if (first) cs.pointsAlongA[eA].push_back(aVtx[src(eA)]);
         cs.pointsAlongA[eA].push_back(crPt);
-        cs.pointsAlongA[eA].push_back(bVtx[dst(eB)]);
+        cs.pointsAlongA[eA].push_back(bVtx[heB.tipVertex()]);
 
         cs.pointsAlongB[eB][1] = crPt;
       } else {
-- 
2.43.0


From 3f910b4f49ced7d0052b69af851e017aed69d0ad Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:08:55 +0000
Subject: [PATCH 46/56] fix: common subdivision positions along input edges
 that carry inserted vertices

---
 src/surface/integer_coordinates_intrinsic_triangulation.cpp | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/surface/integer_coordinates_intrinsic_triangulation.cpp b/src/surface/integer_coordinates_intrinsic_triangulation.cpp
index da3e632..2db9bbb 100644
--- a/src/surface/integer_coordinates_intrinsic_triangulation.cpp
+++ b/src/surface/integer_coordinates_intrinsic_triangulation.cpp
@@ -237,6 +237,7 @@ void IntegerCoordinatesIntrinsicTriangulation::constructCommonSubdivision() {
   // Trace the edges of mesh A (inputMesh) over mesh B (intrinsicMesh)
   for (Edge eA : inputMesh.edges()) {
     NormalCoordinatesCompoundCurve compoundPath = traceInputEdge(eA);
+    double tStart = 0.; // where the current component begins along eA
 
     for (size_t iC = 0; iC < compoundPath.components.size(); iC++) {
 
@@ -290,7 +291,7 @@ void IntegerCoordinatesIntrinsicTriangulation::constructCommonSubdivision() {
           // geodesicPath stores the start and end point, which
           // path doesn't do, so we offset by 1 here
           SurfacePoint ptB = std::get<0>(geodesicPath[iC + 1]);
-          double tA = std::get<1>(geodesicPath[iC + 1]);
+          double tA = tStart + (tEnd - tStart) * std::get<1>(geodesicPath[iC + 1]);
 
           int iB = std::get<0>(path[iC]);
           if (!positiveOrientation) iB = positivePart(normalCoordinates[eB]) - iB - 1;
@@ -345,6 +346,8 @@ void IntegerCoordinatesIntrinsicTriangulation::constructCommonSubdivision() {
         }
         */
       }
+
+      tStart = tEnd;
     }
   }
 
-- 
2.43.0


From 400d55ac8fd46706fce71d6448572d2aef2043bc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:08:55 +0000
Subject: [PATCH 47/56] fix: locate points next to curves that start at
 vertices inserted along an input edge

---
 ...eger_coordinates_intrinsic_triangulation.h |  3 ++
 ...er_coordinates_intrinsic_triangulation.cpp | 41 +++++++++++++++----
 2 files changed, 37 insertions(+), 7 deletions(-)

diff --git a/include/geometrycentral/surface/integer_coordinates_intrinsic_triangulation.h b/include/geometrycentral/surface/integer_coordinates_intrinsic_triangulation.h
index de85c49..7b8b9ce 100644
--- a/include/geometrycentral/surface/integer_coordinates_intrinsic_triangulation.h
+++ b/include/geometrycentral/surface/integer_coordinates_intrinsic_triangulation.h
@@ -123,6 +123,9 @@ public:
   // Inverse to traceInputEdge
   Halfedge identifyInputEdge(const NormalCoordinatesCurve& path, bool verbose = false) const;
 
+  // The point on the input mesh at time t along the path of (a piece of) an input edge
+  SurfacePoint inputPointAlongCurve(const NormalCoordinatesCurve& path, double t) const;
+
   // Identify shared halfedge, throw exception if halfedge is not shared
   // (i.e. edgeCoords[he.edge()] must be negative)
   Halfedge identifyInputEdge(Halfedge he) const;
diff --git a/src/surface/integer_coordinates_intrinsic_triangulation.cpp b/src/surface/integer_coordinates_intrinsic_triangulation.cpp
index 2db9bbb..21b1a87 100644
--- a/src/surface/integer_coordinates_intrinsic_triangulation.cpp
+++ b/src/surface/integer_coordinates_intrinsic_triangulation.cpp
@@ -246,7 +246,14 @@ void IntegerCoordinatesIntrinsicTriangulation::constructCommonSubdivision() {
 
       auto& path = curve.crossings;
 
-      if (path.size() == 1 && std::get<0>(path[0]) < 0) {
+      // The portion of eA which this component covers (inserted vertices may lie along eA)
+      bool sharedEdge = path.size() == 1 && std::get<0>(path[0]) < 0;
+      Halfedge lastHe = std::get<1>(path.back());
+      Vertex vEnd = sharedEdge ? lastHe.tipVertex() : lastHe.twin().next().tipVertex();
+      bool last = iC + 1 == compoundPath.components.size();
+      double tEnd = last ? 1. : vertexLocations[vEnd].inEdge(eA).tEdge;
+
+      if (sharedEdge) {
 
         // Shared edge
         Halfedge heB = std::get<1>(path[0]);
@@ -770,9 +777,8 @@ IntegerCoordinatesIntrinsicTriangulation::computeFaceSplitData(Face f, Vector3 b
       } else {
         // intermediate crossing
         double tInput = transverseCrossingTimes[heIndex(he)][pos - 1];
-        Halfedge heInput = identifyInputEdge(curves[heIndex(he)][pos - 1]);
         double tIntrinsic = boundaryCrossings[heIndex(he)][pos - 1];
-        return {heBary(he, tIntrinsic), SurfacePoint(heInput, tInput)};
+        return {heBary(he, tIntrinsic), inputPointAlongCurve(curves[heIndex(he)][pos - 1], tInput)};
       }
     };
 
@@ -1093,8 +1099,7 @@ std::pair<SurfacePoint, size_t> IntegerCoordinatesIntrinsicTriangulation::comput
       segmentTail = vertexLocations[he.tailVertex()];
       tSegmentTail = 0;
     } else {
-      Halfedge tailHedge = identifyInputEdge(curves[crossingSegment - 1]);
-      segmentTail = SurfacePoint(tailHedge, transverseCrossingTimes[crossingSegment - 1]);
+      segmentTail = inputPointAlongCurve(curves[crossingSegment - 1], transverseCrossingTimes[crossingSegment - 1]);
       tSegmentTail = heCrossingTimes[crossingSegment - 1];
     }
 
@@ -1102,8 +1107,7 @@ std::pair<SurfacePoint, size_t> IntegerCoordinatesIntrinsicTriangulation::comput
       segmentTip = vertexLocations[he.tipVertex()];
       tSegmentTip = 1;
     } else {
-      Halfedge tipHedge = identifyInputEdge(curves[crossingSegment]);
-      segmentTip = SurfacePoint(tipHedge, transverseCrossingTimes[crossingSegment]);
+      segmentTip = inputPointAlongCurve(curves[crossingSegment], transverseCrossingTimes[crossingSegment]);
       tSegmentTip = heCrossingTimes[crossingSegment];
     }
 
@@ -1950,6 +1954,12 @@ Halfedge IntegerCoordinatesIntrinsicTriangulation::identifyInputEdge(const Norma
     GC_SAFETY_ASSERT(p >= 0, "crossing must have nonnegative index");
 
     SurfacePoint src = vertexLocations[he.next().next().vertex()];
+    if (src.type == SurfacePointType::Edge) {
+      // The curve starts at a vertex inserted along the input edge, which has no roundabouts
+      SurfacePoint dst = vertexLocations[path.crossings.back().second.twin().next().tipVertex()];
+      bool forward = src.tEdge < dst.inEdge(src.edge).tEdge;
+      return forward ? src.edge.halfedge() : src.edge.halfedge().twin();
+    }
     GC_SAFETY_ASSERT(src.type == SurfacePointType::Vertex, "edge must start at vertex");
     Vertex inputSrc = src.vertex;
 
@@ -1960,6 +1970,23 @@ Halfedge IntegerCoordinatesIntrinsicTriangulation::identifyInputEdge(const Norma
   }
 }
 
+// The point at time t along a curve. If vertices have been inserted along the input edge, the curve covers only a part
+// of it.
+SurfacePoint IntegerCoordinatesIntrinsicTriangulation::inputPointAlongCurve(const NormalCoordinatesCurve& path,
+                                                                            double t) const {
+  Halfedge inputHe = identifyInputEdge(path);
+  SurfacePoint src = vertexLocations[path.crossings.front().second.next().next().vertex()];
+  SurfacePoint dst = vertexLocations[path.crossings.back().second.twin().next().tipVertex()];
+  bool forward = inputHe == inputHe.edge().halfedge();
+
+  double tSrc = forward ? 0. : 1.;
+  double tDst = 1. - tSrc;
+  if (src.type == SurfacePointType::Edge) tSrc = src.tEdge;
+  if (dst.type == SurfacePointType::Edge) tDst = dst.tEdge;
+
+  return SurfacePoint(inputHe.edge(), (1. - t) * tSrc + t * tDst);
+}
+
 // Identify shared halfedge, throw exception if halfedge is not shared
 // (i.e. edgeCoords[he.edge()] must be negative)
 Halfedge IntegerCoordinatesIntrinsicTriangulation::identifyInputEdge(Halfedge he) const {
-- 
2.43.0


From c1196a82d9c25bc7aa9cb8b4fd545997aca733ae Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:08:55 +0000
Subject: [PATCH 48/56] fix: tracing an input edge through an inserted vertex
 with transversal pieces on both sides

---
 .../integer_coordinates_intrinsic_triangulation.cpp | 13 ++++---------
 1 file changed, 4 insertions(+), 9 deletions(-)

diff --git a/src/surface/integer_coordinates_intrinsic_triangulation.cpp b/src/surface/integer_coordinates_intrinsic_triangulation.cpp
index 21b1a87..d20d617 100644
--- a/src/surface/integer_coordinates_intrinsic_triangulation.cpp
+++ b/src/surface/integer_coordinates_intrinsic_triangulation.cpp
@@ -1904,17 +1904,12 @@ IntegerCoordinatesIntrinsicTriangulation::traceNextCurve(const NormalCoordinates
           // we found a curve. And it's different than
           // oldCurve since it's not a shared edge
           return {true, normalCoordinates.topologicalTrace(c, 0)};
-        } else if (normalCoordinates.strictDegree(c) == 2) {
-          throw std::runtime_error("Your geometry is really really bad");
-          GC_SAFETY_ASSERT(c == incomingCorner, "there can only be one");
-
-          return {true, normalCoordinates.topologicalTrace(c.halfedge().next(), finalPos)};
-
-        } else {
-          throw std::runtime_error("this shouldn't be possible");
-          return {false, NormalCoordinatesCurve{}};
         }
       }
+
+      // Both pieces of the input edge leave through the same corner, and the new curve is the other one
+      // This can only happen if the geometry is really, really bad
+      GC_SAFETY_ASSERT(normalCoordinates.strictDegree(incomingCorner) < 2, "input edge makes a sharp turn");
     } else {
       return {false, NormalCoordinatesCurve{}};
     }
-- 
2.43.0


From 68ad2de4da7037346674578b460294197af0dc1e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:10:07 +0000
Subject: [PATCH 49/56] fix: signpost traceInputHalfedgeAlongIntrinsic returns
 intrinsic points, recognises original edges, and follows the boundary

---
 .../signpost_intrinsic_triangulation.cpp      | 42 +++++++++++++++----
 1 file changed, 35 insertions(+), 7 deletions(-)

diff --git a/src/surface/signpost_intrinsic_triangulation.cpp b/src/surface/signpost_intrinsic_triangulation.cpp
index 9ab4aee..4a95378 100644
--- a/src/surface/signpost_intrinsic_triangulation.cpp
+++ b/src/surface/signpost_intrinsic_triangulation.cpp
@@ -66,6 +66,11 @@ std::vector<SurfacePoint> SignpostIntrinsicTriangulation::traceIntrinsicHalfedge
     return result;
   }
 
+  // Boundary edges always lie along an edge of the input's boundary (tracing along the boundary is not reliable)
+  if (he.edge().isBoundary()) {
+    return {vertexLocations[he.tailVertex()], vertexLocations[he.tipVertex()]};
+  }
+
   // Gather values to trace
   SurfacePoint startP = vertexLocations[he.vertex()];
   Vector2 traceVec = halfedgeVector(he);
@@ -103,15 +108,38 @@ std::vector<SurfacePoint> SignpostIntrinsicTriangulation::traceInputHalfedgeAlon
                                                                                            bool trimEnd) {
 
   // Optimization: don't bother tracing original edges, just report them directly
-  // Here we need to check if the corresponding intrinsic edge is original
-  Halfedge origHe = intrinsicMesh->halfedge(inputHe.getIndex()); // as usual, safe by dense construction
-  if (edgeIsOriginal[origHe.edge()]) {
-    Vertex vA = inputHe.tailVertex();
-    Vertex vB = inputHe.tipVertex();
-    std::vector<SurfacePoint> result{SurfacePoint(vA), SurfacePoint(vB)};
-    return result;
+  // Here we need to check if the corresponding intrinsic edge is original. Indices do not identify it, because they may
+  // have changed when vertices were removed.
+  Vertex vTailOrig = intrinsicMesh->vertex(inputHe.tailVertex().getIndex()); // as usual, safe by dense construction
+  Vertex vTipOrig = intrinsicMesh->vertex(inputHe.tipVertex().getIndex());
+  for (Halfedge origHe : vTailOrig.outgoingHalfedges()) {
+    if (!edgeIsOriginal[origHe.edge()] || origHe.tipVertex() != vTipOrig) continue;
+
+    // There might be several edges between the vertices
+    Vector2 inputVec = inputGeom.halfedgeVectorsInVertex[inputHe];
+    if (norm(halfedgeVector(origHe) - inputVec) < triangleTestEPS * norm(inputVec)) {
+      std::vector<SurfacePoint> result{SurfacePoint(vTailOrig), SurfacePoint(vTipOrig)};
+      return result;
+    }
   }
 
+  // Along the boundary, the path visits the vertices which have been inserted in the edge (tracing along the boundary is
+  // not reliable)
+  if (inputHe.edge().isBoundary()) {
+    Vertex vEnd = intrinsicMesh->vertex(inputHe.tipVertex().getIndex());
+    Vertex vCurr = intrinsicMesh->vertex(inputHe.tailVertex().getIndex());
+    std::vector<SurfacePoint> result{SurfacePoint(vCurr)};
+    do {
+      // By convention v.halfedge() is the interior halfedge along the boundary
+      if (inputHe.isInterior()) {
+        vCurr = vCurr.halfedge().tipVertex();
+      } else {
+        vCurr = vCurr.halfedge().twin().next().tipVertex();
+      }
+      result.push_back(SurfacePoint(vCurr));
+    } while (vCurr != vEnd);
+    return result;
+  }
 
   Vertex vTail = inputHe.tailVertex();
   Vertex vTip = inputHe.tipVertex();
-- 
2.43.0


From 421a9eaccc7069f0467513da28487c1b83d91291 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:11:33 +0000
Subject: [PATCH 50/56] fix: signpost common subdivision lists the last shared
 edge along an input edge

---
 src/surface/signpost_intrinsic_triangulation.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/surface/signpost_intrinsic_triangulation.cpp b/src/surface/signpost_intrinsic_triangulation.cpp
index 4a95378..4edef7a 100644
--- a/src/surface/signpost_intrinsic_triangulation.cpp
+++ b/src/surface/signpost_intrinsic_triangulation.cpp
@@ -898,7 +898,7 @@ void SignpostIntrinsicTriangulation::constructCommonSubdivision() {
 
     // Walk along the edge, any time we see two consecutive vertex points, there must be a
     // parallel edge there.
-    for (size_t iP = 1; iP + 1 < vec.size(); iP++) {
+    for (size_t iP = 1; iP < vec.size(); iP++) {
 
       if (vec[iP - 1]->posB.type == SurfacePointType::Vertex && vec[iP]->posB.type == SurfacePointType::Vertex) {
 
-- 
2.43.0


From e3f9df91187870b67fe98ae01888046812f7ccb5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:39:50 +0000
Subject: [PATCH 51/56] fix: traceGeodesic reports end point, length and
 direction of traces that stop early

---
 src/surface/trace_geodesic.cpp | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/src/surface/trace_geodesic.cpp b/src/surface/trace_geodesic.cpp
index 7a9f55a..80fbfe2 100644
--- a/src/surface/trace_geodesic.cpp
+++ b/src/surface/trace_geodesic.cpp
@@ -306,7 +306,7 @@ inline TraceSubResult traceInFaceBarycentric(IntrinsicGeometryInterface& geom, F
     TraceSubResult result;
     result.terminated = true;
     result.endPoint = SurfacePoint(crossHe.edge(), convertTToEdge(crossHe, tCross));
-    result.incomingDirToPoint = remainingDirInHalfedge;
+    result.incomingDirToPoint = convertVecToEdge(crossHe, remainingDirInHalfedge);
     result.traceVectorInHalfedgeLen = lenRemaining;
 
     return result;
@@ -496,6 +496,7 @@ inline TraceSubResult traceGeodesic_fromEdge(IntrinsicGeometryInterface& geom, E
       result.terminated = true;
       result.endPoint = SurfacePoint(currEdge, tEdge);
       result.incomingDirToPoint = currVecDir;
+      result.traceVectorInHalfedgeLen = currVecLen;
 
       return result;
     }
@@ -635,7 +636,7 @@ void traceGeodesic_iterative(IntrinsicGeometryInterface& geom, TraceGeodesicResu
 
       // Use the last trace as ending data
       result.endPoint = SurfacePoint(prevTraceEnd.crossHe, prevTraceEnd.tCross);
-      result.endingDir = prevTraceEnd.traceVectorInHalfedgeDir;
+      result.endingDir = convertVecToEdge(prevTraceEnd.crossHe, prevTraceEnd.traceVectorInHalfedgeDir);
       result.length -= prevTraceEnd.traceVectorInHalfedgeLen;
 
       if (traceOptions.includePath) {
@@ -705,6 +706,7 @@ TraceGeodesicResult traceGeodesic(IntrinsicGeometryInterface& geom, SurfacePoint
     geom.unrequireHalfedgeVectorsInVertex();
     geom.unrequireHalfedgeVectorsInFace();
 
+    result.endPoint = startP;
     result.endingDir = Vector2::zero();
     result.length = 0;
 
@@ -779,6 +781,7 @@ TraceGeodesicResult traceGeodesic(IntrinsicGeometryInterface& geom, Face startFa
       throw std::runtime_error("zero vec passed to trace, do something good here");
     }
 
+    result.endPoint = SurfacePoint(startFace, startBary);
     result.endingDir = Vector2::zero();
     result.length = 0;
     return result;
-- 
2.43.0


From c9db3c35109eb6bc42c0f40b701015ae48cce47d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:39:50 +0000
Subject: [PATCH 52/56] fix: a vertex inserted on the boundary of an
 integer-coordinate triangulation has angle sum pi

---
 src/surface/integer_coordinates_intrinsic_triangulation.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/surface/integer_coordinates_intrinsic_triangulation.cpp b/src/surface/integer_coordinates_intrinsic_triangulation.cpp
index d20d617..a338665 100644
--- a/src/surface/integer_coordinates_intrinsic_triangulation.cpp
+++ b/src/surface/integer_coordinates_intrinsic_triangulation.cpp
@@ -1408,7 +1408,7 @@ Halfedge IntegerCoordinatesIntrinsicTriangulation::splitBoundaryEdge(Halfedge he
       updateHalfedgeVectorsInVertex(v);
     }
 
-    vertexAngleSums[newVertex] = 2 * M_PI;
+    vertexAngleSums[newVertex] = M_PI;
     updateHalfedgeVectorsInVertex(newVertex);
 
     triangulationChanged();
-- 
2.43.0


From 86b2f3d9cc2c8a4d56ba5ccfca83389542d73863 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:08:30 +0000
Subject: [PATCH 53/56] fix: fast marching uses the opposite edge's length in
 distances from face points to vertices

---
 src/surface/fast_marching_method.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/surface/fast_marching_method.cpp b/src/surface/fast_marching_method.cpp
index 417e782..85a7e8c 100644
--- a/src/surface/fast_marching_method.cpp
+++ b/src/surface/fast_marching_method.cpp
@@ -170,9 +170,9 @@ VertexData<double> FMMDistance(IntrinsicGeometryInterface& geometry,
         double u = p.faceCoords[0];
         double v = p.faceCoords[1];
         double w = p.faceCoords[2];
-        double dist2_A = lAB2 * (v * (1. - u)) + lCA2 * (w * (1. - u)) - lAB2 * v * w; // squared distance from p to vA
+        double dist2_A = lAB2 * (v * (1. - u)) + lCA2 * (w * (1. - u)) - lBC2 * v * w; // squared distance from p to vA
         double dist2_B = lAB2 * (u * (1. - v)) + lBC2 * (w * (1. - v)) - lCA2 * u * w; // squared distance from p to vB
-        double dist2_C = lCA2 * (u * (1. - w)) + lBC2 * (v * (1. - w)) - lBC2 * u * v; // squared distance from p to vC
+        double dist2_C = lCA2 * (u * (1. - w)) + lBC2 * (v * (1. - w)) - lAB2 * u * v; // squared distance from p to vC
         frontierPQ.push(std::make_pair(x.second + signs[vA] * std::sqrt(dist2_A), vA));
         frontierPQ.push(std::make_pair(x.second + signs[vB] * std::sqrt(dist2_B), vB));
         frontierPQ.push(std::make_pair(x.second + signs[vC] * std::sqrt(dist2_C), vC));
-- 
2.43.0


From 7816e1a9ad500802fa78eb268fd5434d7a4b36cb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:08:30 +0000
Subject: [PATCH 54/56] fix: signed fast marching propagates minimal magnitudes
 and initialises both sides of the curve

---
 src/surface/fast_marching_method.cpp | 32 ++++++++++++++++++----------
 1 file changed, 21 insertions(+), 11 deletions(-)

diff --git a/src/surface/fast_marching_method.cpp b/src/surface/fast_marching_method.cpp
index 85a7e8c..5388dbc 100644
--- a/src/surface/fast_marching_method.cpp
+++ b/src/surface/fast_marching_method.cpp
@@ -13,6 +13,8 @@ namespace {
 // TODO parameter c isn't actually defined in paper, so I guessed that it was an error
 double eikonalDistanceSubroutine(double a, double b, double theta, double dA, double dB, int sign) {
 
+  // A source vertex which has not been accepted yet does not contribute
+  if (std::isinf(dA)) return dB + sign * a;
 
   if (theta <= PI / 2.0) {
     double u = dB - dA;
@@ -30,7 +32,7 @@ double eikonalDistanceSubroutine(double a, double b, double theta, double dA, do
     if (u < sign * t && a * cTheta < y && y < a / cTheta) {
       return dA + t;
     } else {
-      return std::min(b * sign + dA, a * sign + dB);
+      return sign * std::min(sign * dA + b, sign * dB + a);
     }
 
   }
@@ -42,7 +44,7 @@ double eikonalDistanceSubroutine(double a, double b, double theta, double dA, do
     double altitude = 2 * area / c; // distance to base, must be inside triangle since obtuse
     double baseDist = maxDist + altitude;
 
-    return std::min({b * sign + dA, a * sign + dB, sign * baseDist});
+    return sign * std::min({sign * dA + b, sign * dB + a, baseDist});
   }
 }
 
@@ -92,7 +94,8 @@ VertexData<double> FMMDistance(IntrinsicGeometryInterface& geometry,
           // Assign +/- signs to the "third" vertices of each face straddling this edge.
           // These vertices might themselves lie on the curve, in which case we overwrite them below.
           Halfedge he = commonEdge.halfedge();
-          signs[he.next().tipVertex()] = (he.vertex() == pA.vertex) ? -1 : 1;
+          bool alongHe = pA.inEdge(commonEdge).tEdge < pB.inEdge(commonEdge).tEdge;
+          signs[he.next().tipVertex()] = alongHe ? -1 : 1;
           if (!commonEdge.isBoundary()) signs[he.twin().next().tipVertex()] = -signs[he.next().tipVertex()];
         } else {
           Face commonFace = sharedFace(pA, pB);
@@ -123,15 +126,22 @@ VertexData<double> FMMDistance(IntrinsicGeometryInterface& geometry,
       for (size_t i = 0; i < nNodes; i++) {
         const SurfacePoint& p = curve[i].first;
         if (p.type != SurfacePointType::Vertex) continue;
-        Halfedge startHe = p.vertex.halfedge();
-        Halfedge currHe = startHe;
-        while (true) {
-          if (signs[currHe.tipVertex()] != 0 && signs[currHe.tipVertex()] != signs[p.vertex] &&
-              signs[currHe.next().tipVertex()] == 0) {
-            signs[currHe.next().tipVertex()] = -1;
+        bool anyChanged = true;
+        while (anyChanged) {
+          anyChanged = false;
+          for (Halfedge he : p.vertex.outgoingHalfedges()) {
+            if (!he.isInterior()) continue;
+            Vertex vA = he.tipVertex();
+            Vertex vB = he.next().tipVertex();
+            if (signs[vA] == -1 && signs[vB] == 0) {
+              signs[vB] = -1;
+              anyChanged = true;
+            }
+            if (signs[vB] == -1 && signs[vA] == 0) {
+              signs[vA] = -1;
+              anyChanged = true;
+            }
           }
-          currHe = currHe.next().next().twin();
-          if (currHe == startHe) break;
         }
       }
     }
-- 
2.43.0


From f925b707474db7fa4d1ea173f97c8d6aa3b08035 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:12:24 +0000
Subject: [PATCH 55/56] fix: the point cloud connection Laplacian computes the
 tangent bases it uses

---
 src/pointcloud/point_position_geometry.cpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/pointcloud/point_position_geometry.cpp b/src/pointcloud/point_position_geometry.cpp
index 4b992ef..aadd96f 100644
--- a/src/pointcloud/point_position_geometry.cpp
+++ b/src/pointcloud/point_position_geometry.cpp
@@ -213,6 +213,7 @@ void PointPositionGeometry::unrequireLaplacian() { laplacianQ.unrequire(); }
 void PointPositionGeometry::computeConnectionLaplacian() {
   laplacianQ.ensureHave();
   normalsQ.ensureHave();
+  tangentBasisQ.ensureHave();
 
   // Build the conection Laplacian by hitting each entry of the Laplacian with a tangent rotation r_ij between the
   // corresponding vertices
-- 
2.43.0


From 370b263084663e9826072a2b5d513471a96b29c6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:12:24 +0000
Subject: [PATCH 56/56] fix: point cloud transport between inverted normals is
 expressed in the target's own basis

---
 src/pointcloud/point_position_geometry.cpp | 1 -
 1 file changed, 1 deletion(-)

diff --git a/src/pointcloud/point_position_geometry.cpp b/src/pointcloud/point_position_geometry.cpp
index aadd96f..b830e3e 100644
--- a/src/pointcloud/point_position_geometry.cpp
+++ b/src/pointcloud/point_position_geometry.cpp
@@ -351,7 +351,6 @@ std::tuple<Vector2, bool> PointPositionGeometry::transportBetweenOriented(Point
   bool inverted = false;
   if (dot(sourceN, targetN) < 0.) {
     targetN *= -1;
-    targetBasisY *= -1;
     inverted = true;
   }
 
-- 
2.43.0

