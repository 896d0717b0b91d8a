MESH = ["surface/surface_mesh", "surface/manifold_surface_mesh", "utilities/disjoint_sets", "utilities/utilities",
        "surface/surface_mesh_factories", "surface/halfedge_factories"]
B_MUT = ("19 catalogue meshes (up to 14 faces; closed, open, annulus, torus, polygons, several components, degenerate pillow) x storage pre-states "
         "{fresh, deleted slots, spare capacity; thorough also compressed}, every element; every oriented gluing of {3,3} and {3,4} polygons "
         "(thorough also {4,4}, {3,3,3}, {5,3}), every element. One operation per run.")
SPECS = {
 "P04": dict(harness=["flip.cpp"], tus=MESH, bounds=B_MUT, outside="larger meshes; sequences (see P08)"),
 "P05": dict(harness=["mut_ins.cpp"], tus=MESH, bounds=B_MUT, outside="larger meshes; sequences (see P08)"),
 "P06": dict(harness=["mut_del.cpp"], tus=MESH, bounds=B_MUT, outside="collapse on meshes that are not simplicial complexes; face removal where a face repeats a vertex"),
 "P07": dict(harness=["mut_surg.cpp"], tus=MESH + ["surface/surgery", "surface/mesh_graph_algorithms"], bounds=B_MUT + " Cuts: simple paths of 1-3 (thorough 4) edges on 5 (8) meshes.",
    outside="separateEdge with both endpoints on the boundary (the code throws 'not implemented'); cuts that are trees with branches or loops"),
}
SPECS["P08"] = dict(harness=["seq.cpp"], tus=MESH,
  bounds="sequences of 1 operation on 8 meshes (every element), 2 operations on 3 (thorough 8) meshes, 3 operations on the tetrahedron (thorough 4 meshes); 11 kinds of operation; elements of earlier steps limited to 1-2 (thorough 2-6) spread alternatives, of the last step to 4 (thorough all); compress optionally between and always at the end",
  outside="longer sequences, larger meshes, general (non-manifold) meshes (see P10)")
B_POLY = ("every list of 3 triangles with vertices numbered by first appearance; polygons {3,4},{4,3} (thorough also {5,3},{4,4}); one 5-gon (thorough 6-gon) and {4,3} (thorough {5,3}) with vertices repeating; "
          "arbitrary index lists over 4-5 vertices with degrees {3},{3,2},{2},{3,0},{3,1} (thorough {3,3}); fans of 2-4 (thorough 5) triangles; 4 triangles (quick: around a shared edge, over 5 vertices)")
SPECS["P01"] = dict(harness=["construct.cpp"], tus=MESH, bounds=B_POLY + "; explicit gluings of {3,3},{3,4} (thorough {4,4},{3,3,3}) polygons; face matrices of triangles", outside="larger meshes; inconsistent explicit gluings")
SPECS["P03"] = dict(harness=["navig.cpp"], tus=MESH, bounds="19 catalogue meshes x storage pre-states; every gluing of {3,3},{3,4} (thorough {4,4},{3,3,3},{5,3}); 5 meshes after every single edit, 2 (thorough 7) meshes after two edits", outside="larger meshes")
SPECS["P02"] = dict(harness=["general.cpp"], tus=MESH, bounds=B_POLY + "; books of triangles around one edge", outside="larger meshes; faces repeating a vertex beyond one polygon (with a second triangle)")
SPECS["P10"] = dict(harness=["gedits.cpp"], tus=MESH, bounds="every list of 2 triangles and (>=2 shared vertices, thorough >=1) 3 triangles, 3-4 page books, 12 further meshes, one operation on every element (3 triangles: quick first element only); 2 operations on 4 (thorough 12) and 3 operations on 2 (thorough 12) meshes with limited element choices; compress optionally between steps, always at the end", outside="longer sequences, larger meshes; flip of an edge whose two sides belong to the same face")
SPECS["P11"] = dict(harness=["datas.cpp"], tus=MESH, bounds="3 (thorough 5) meshes x {fresh, dead slots, spare capacity} x 6 kinds of element; values fully symbolic (64-bit integers or doubles compared bit by bit); arithmetic with two symbolic operands per element; copies/moves/assignments (9 ways) followed by growth, compression or destruction; reinterpret onto a copy, a compressed copy and another mesh of equal counts", outside="larger meshes; element types with throwing constructors")
GEOM = ["surface/base_geometry_interface", "surface/intrinsic_geometry_interface", "surface/extrinsic_geometry_interface", "surface/embedded_geometry_interface", "surface/vertex_position_geometry", "surface/edge_length_geometry"]
SPECS["P09"] = dict(harness=["copy.cpp"], tus=MESH + GEOM, bounds="6 (thorough 8) manifold meshes x pre-states, 12 general meshes; one edit of every kind (quick: one element of each, thorough three) on either side, compressed or not, or destruction of the original; geometries on 3 meshes with fully symbolic coordinates", outside="larger meshes; signpost and other intrinsic triangulations")
SPECS["P12"] = dict(harness=["factories.cpp"], tus=MESH + GEOM, bounds="6 meshes (triangles, mixed polygons, non-manifold for the general factories), fully symbolic coordinates, every factory overload; views on 3 meshes", outside="larger meshes; file-based factories (their parser library is not in this checkout)")
SPECS["P13"] = dict(harness=["mutman.cpp"], tus=MESH + GEOM + ["surface/mutation_manager", "utilities/elementary_geometry"], bounds="one operation on every element of 4 (thorough 6) triangle meshes, fresh or with dead slots; two operations on the tetrahedron (thorough 3 meshes), first (thorough two) elements; symbolic positions and parameters; split / collapse by position for 5 points per edge on two meshes (concrete coordinates)", outside="more than two operations; geometric rounding of the parameter computed from a position beyond the sampled points")
REAL = "exact real arithmetic: IEEE rounding is idealised away; cosine, sine and their inverses follow their addition laws and inverse relations"
SPECS["P14"] = dict(harness=["geom_int.cpp"], tus=MESH + GEOM, bounds="every edge length fully symbolic (positive, strict triangle inequalities) on a triangle, a strip, fans of 3 and 4, tetrahedron, pillow, two meshes with deleted slots, a three-page book and an unoriented mesh (thorough also octahedron, annulus, 3x3 grid, 7-vertex torus); face vectors and transport on the meshes up to 3 faces (thorough fan of 4, tetrahedron without exact right angles)", outside="floating-point rounding; degenerate triangles (area 0); larger meshes", assumptions=[REAL])
_POLYW = "the affine weights of virtual vertices (a pivoted least-squares solve) are taken as given weights with sum one"
SPECS["P15"] = dict(harness=["geom_ext.cpp", "geom_poly.cpp"], tus=MESH + GEOM + ["surface/polygon_mesh_helpers"], weak=["simplePolygonVirtualVertex"], bounds="vertex coordinates symbolic reals (all coordinates, or all heights over an integer layout) on a triangle, a strip, fans, tetrahedron, pillow, meshes with deleted slots, a three-page book and an unoriented mesh; curvatures, normals and tangent frames also for arbitrary (symbolic) inputs of the quantities they are built from; polygon operators on a quad, a pentagon, quad + triangle, two quads, a book with a quad, and a mesh with deleted slots, every height symbolic", outside="floating-point rounding; degenerate faces; larger meshes; the least-squares weights of virtual vertices", assumptions=[REAL, _POLYW])
SPECS["P16"] = dict(harness=["geocache.cpp"], tus=MESH + GEOM + ["surface/polygon_mesh_helpers"], weak=["simplePolygonVirtualVertex"], bounds="every quantity of VertexPositionGeometry and EdgeLengthGeometry as the required one, all others computed and released before, with and without purge, then a position/length change or an edge split; histories of 3-4 (thorough 5) calls out of require, release, purge, change + refresh, split + refresh on three pairs of quantities; on a mesh with deleted slots", outside="longer histories, triples of quantities, point cloud geometry", assumptions=[REAL, _POLYW])
SPECS["P17"] = dict(harness=["vec.cpp"], tus=["utilities/quaternion", "utilities/elementary_geometry", "utilities/utilities"], bounds="every operation on arbitrary real coordinates (two or three free vectors; boxes of ordered corners where noted in the harness); comparison and hashing-free predicates bit-precisely over all doubles, including infinities and NaNs; Hermite curves with 0 to 4 nodes at every parameter value", outside="complex powers, hashing, random numbers, stream input and output, text formatting", assumptions=[REAL])
SPECS["P18"] = dict(harness=["isect.cpp"], tus=MESH + GEOM + ["surface/polygon_mesh_helpers", "surface/intersection", "utilities/elementary_geometry", "utilities/tri_tri_intersect"], weak=["simplePolygonVirtualVertex"], bounds="a fixed triangle against one with one or two vertices moving freely, sliding rigidly along six directions, touching with a vertex or a side, coplanar, or parallel, under vertex rotations and axis permutations; pairs of small meshes (one with deleted slots) and a mesh against itself under a translation", outside="configurations within 1e-6 of a tie other than exact ties (the code's epsilon test), parallel triangles nearer than that", assumptions=[REAL, _POLYW])
SPECS["P19"] = dict(harness=["graph.cpp"], tus=MESH + GEOM + ["surface/polygon_mesh_helpers", "surface/mesh_graph_algorithms", "utilities/knn"], weak=["simplePolygonVirtualVertex"],
  bounds="union-find: every sequence of 3 merges on 4 elements (thorough 5), every pair of rank-2 trees on 8 elements, every sequence of 3 (4) mark/unmark/merge operations on 3 elements; paths and balls: up to 3 (7) free positive edge lengths on a strip, fan, tetrahedron, quads, two components, a mesh with deleted slots and (balls) two non-manifold meshes, every pair of end points in the bound, any radius; nearest neighbours: 3-4 points with free coordinates, or 12-24 points (more than a leaf holds) with one free coordinate of a point, of the query, or the radius",
  outside="coordinates beyond 1000 in size, larger point sets and meshes, points exactly at the search radius", assumptions=[REAL])
SPECS["P20"] = dict(harness=["surfpt.cpp"], tus=MESH + GEOM + ["surface/polygon_mesh_helpers", "surface/surface_point", "surface/barycentric_vector"], weak=["simplePolygonVirtualVertex"],
  bounds="every vertex, edge and face point (free coordinates) and pair of them on a strip, a fan and a mesh with deleted slots (thorough four more meshes); norms, inner products and rotations on a triangle with free vertex positions (thorough two triangles), rotation angles 0, right, straight and full turns and any between 0 and 3; validation bit-precise over all doubles for one coordinate",
  outside="cartesianVectorToBarycentric (pivoted QR), text output, meshes with self-edges, non-triangular faces", assumptions=[REAL])
SPECS["P21"] = dict(harness=["normal.cpp"], tus=MESH + GEOM + ["surface/polygon_mesh_helpers", "surface/normal_coordinates", "surface/surface_point"], weak=["simplePolygonVirtualVertex"],
  bounds="one-step formulas: every coordinate of the two triangles from -2 to 3 (thorough 5), all roundabouts of degree up to 4; flip sequences from the edges' own curves: 5 flips on a strip, 3 on closed and fan meshes (thorough 8 and 4 to 5); curve tracing: every legal assignment of -1..1 on open meshes, -1..2 on a tetrahedron and a pillow, -1..3 on one triangle; vertex insertion: up to 4 arcs (2 per side; thorough 5 and 3), free crossing positions at least 0.05 apart and free insertion point (exact reals)",
  outside="routines that lay the curves out geodesically (trigonometry), vertices inserted onto an arc", assumptions=[REAL])
SPECS["P22"] = dict(harness=["subdiv.cpp"], tus=MESH + GEOM + ["surface/polygon_mesh_helpers", "surface/subdivide", "surface/mutation_manager"], weak=["simplePolygonVirtualVertex"],
  bounds="linear and Catmull-Clark: every vertex position free (exact reals) on seven meshes (open, closed, polygonal, annulus, deleted slots; thorough seventeen); Loop: one coordinate of one vertex free, the others fixed, on six meshes (thorough fourteen)",
  outside="meshes on which two edges join the same vertices; Loop positions of boundary vertices (the library uses its interior rule there)", assumptions=[REAL])
SPECS["P23"] = dict(harness=["lin.cpp"], tus=["numerical/linear_algebra_utilities"],
  bounds="matrices up to 3x3 with symbolic sparsity patterns and values (exact reals; checkFinite over all IEEE values), every subset for block decompositions of 3x3 systems (thorough: every 3x3 pattern)",
  outside="reading and writing matrices; the solvers themselves (SuiteSparse binaries)", assumptions=[REAL])
SPECS["P24"] = dict(harness=["robust.cpp"], tus=MESH + GEOM + ["surface/polygon_mesh_helpers", "surface/tufted_laplacian", "surface/intrinsic_mollification", "surface/simple_idt"], weak=["simplePolygonVirtualVertex"],
  bounds="tufted cover: every list of three triangles over up to six vertices (thorough: four triangles) with all edge lengths free, and two fixed fans; mollification: every edge length and the factor free on three meshes (thorough five); Delaunay flipping: two triangles sharing an edge, oriented or not (thorough: also three and more triangles for hyperbolic flips), two free quantities (a length and a second length or the overall scale) over symmetric and scalene lengths with tolerance 0 and the default",
  outside="covers sorted by vertex positions; longer flip sequences with Euclidean lengths", assumptions=[REAL])
SPECS["P25"] = dict(harness=["remesh.cpp"], tus=MESH + GEOM + ["surface/polygon_mesh_helpers", "surface/quadric_error_simplification", "surface/mutation_manager", "surface/remeshing", "utilities/elementary_geometry"], weak=["simplePolygonVirtualVertex"],
  bounds="small fixed connectivities (one to nine faces, with and without boundary) with one or two free coordinates, or a free tolerance, target length, step size or minimum relative length; every choice of boundary condition, smoothing style and flippable edges",
  outside="many remeshing iterations; curvature-adapted sizing on large meshes; where simplification places points in flat regions", assumptions=[REAL])
SPECS["P26"] = dict(harness=["march.cpp"], tus=MESH + GEOM + ["surface/polygon_mesh_helpers", "surface/marching_triangles", "surface/barycentric_vector", "surface/surface_point"], weak=["simplePolygonVirtualVertex"],
  bounds="meshes of one to eight triangles, oriented or not, with and without boundary; up to three free vertex values, the other values below, at or above the level by case split; two levels",
  outside="larger meshes; values closer to the level than 1/64 but different", assumptions=[REAL])
ITRI = ["surface/intrinsic_triangulation", "surface/common_subdivision", "surface/normal_coordinates", "surface/surface_point", "surface/barycentric_vector", "surface/intrinsic_mollification", "surface/trace_geodesic"]
SPECS["P27"] = dict(harness=["itri.cpp"], tus=MESH + GEOM + ["surface/polygon_mesh_helpers", "surface/integer_coordinates_intrinsic_triangulation"] + ITRI, weak=["simplePolygonVirtualVertex"],
  bounds="flat convex input of two to eight triangles; every sequence of up to four flips (two on larger input), up to two insertions in every face or on every edge at a few places, removals and flips; Delaunay refinement of such input with chosen thresholds, limits and marked edges; equivalentPointOnInput at a free point of any face or edge",
  outside="curved input, self edges, free vertex positions, equivalentPointOnIntrinsic (not implemented there)", assumptions=[REAL])
SPECS["P28"] = dict(harness=["signpost.cpp"], tus=MESH + GEOM + ["surface/polygon_mesh_helpers", "surface/signpost_intrinsic_triangulation"] + ITRI, weak=["simplePolygonVirtualVertex"],
  bounds="flat convex input of two to five triangles; every sequence of up to four flips (two on larger input), up to two insertions in every face or on every edge at fixed places, removals, flips and refinement; all results within 1e-6",
  outside="curved input; the common subdivision where vertices lie on input edges (positions are only known numerically there); orientation flags, which the code does not fill in", assumptions=[REAL])
SPECS["P29"] = dict(harness=["trace.cpp"], tus=MESH + GEOM + ["surface/polygon_mesh_helpers", "surface/trace_geodesic"] + [t for t in ITRI if t != "surface/trace_geodesic"],
  bounds="flat convex inputs of up to six triangles, start points anywhere in a face or on an edge (symbolic) or at any vertex, symbolic direction of bounded length; every barrier edge and iteration limit up to 4; closed and bounded small curved meshes for returning traces",
  outside="directions within 1e-3 of an edge's or hitting a vertex exactly; curved surfaces beyond the returning trace", assumptions=[REAL])
SPECS["P30"] = dict(harness=["fmm.cpp"], tus=MESH + GEOM + ["surface/polygon_mesh_helpers", "surface/fast_marching_method"] + ITRI,
  bounds="one triangle of four shapes with free values at any two corners or a free source point in the face or on an edge; flat grids and fans of up to 25 vertices with every vertex, edge or face as source, or two vertices; curves along edges, through edge points and through faces dividing such meshes, in both directions",
  outside="exactly right angles at the updated corner (the update is discontinuous there), initial values that differ by more than the sources' distance, open curves ending inside the surface, curved surfaces", assumptions=[REAL])
SPECS["P31"] = dict(harness=["cloud.cpp"], tus=MESH + GEOM + ["surface/polygon_mesh_helpers", "pointcloud/point_cloud", "pointcloud/neighborhoods", "pointcloud/local_triangulation", "pointcloud/point_position_geometry", "pointcloud/point_position_frame_geometry", "pointcloud/point_position_normal_geometry", "utilities/elementary_geometry", "utilities/knn", "surface/simple_idt", "surface/tufted_laplacian", "surface/intrinsic_mollification"], weak=["simplePolygonVirtualVertex"],
  bounds="stars of 4 to 7 neighbours (8 thorough) with two free radii, with and without collinear neighbours; two points with free positions; 16-point planar and curved clouds with 1 to 7 neighbours (16 thorough), given or estimated normals with every third, every second or no normal reversed, and free function values and tangent fields; 64 pairs of frames, also nearly opposite; every pair of quantities required, released and purged in turn",
  outside="clouds whose neighbourhoods are degenerate (fewer than three independent neighbours, coincident points), exactly perpendicular or opposite normals, point cloud heat solvers and I/O", assumptions=[REAL])
