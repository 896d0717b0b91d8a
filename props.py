W_TESTS = "The repository's reliable tests cover only point clouds; none of them exercises this code on any mesh, and a test could only sample a few meshes, elements and pre-states."
MM = "src/surface/manifold_surface_mesh.cpp"
PROPS = [
 dict(id="P04", title="Edge flip produces exactly the rotated edge or refuses",
  statement="On a manifold mesh, flipping an edge succeeds exactly when both sides are distinct-orbit triangles (and, when self-edge prevention is requested, when the two opposite vertices are different and not already joined by an edge). A successful flip replaces the edge by the one joining the two opposite vertices, rotated one step clockwise, keeps the identity of every element (including each edge's canonical halfedge) and leaves a valid manifold mesh with consistent counts. A refused flip leaves the mesh unchanged.",
  quant="every edge, both settings of the self-edge flag, of every mesh in a catalogue of 19 small meshes in several storage pre-states (fresh, deleted slots, spare capacity, compressed), and of every oriented gluing of a few polygons, including self-glued and degenerate ones",
  why=W_TESTS, files=[MM], mech=[("flip", MM + ": ManifoldSurfaceMesh::flip")], observe=["element navigation and counts before/after flip"]),
 dict(id="P05", title="Inserting vertices and edges performs exactly the documented subdivision",
  statement="Inserting a vertex along an edge, splitting an edge of triangles, inserting a vertex in a face, connecting two vertices of a face, and triangulating a face each change the connectivity exactly as documented: the right new elements, the documented returned element and direction, canonical halfedges of surviving edges preserved, everything else untouched. The result is always a valid manifold mesh whose counts match its live elements. Inputs the operation documents as illegal (equal, adjacent or different-face halfedges for connecting; non-triangular sides for splitting) are rejected without changing the mesh.",
  quant="every element (or pair of halfedges) of every catalogue mesh in several storage pre-states, and of every oriented gluing of a few polygons",
  why=W_TESTS, files=[MM], mech=[("insertVertexAlongEdge, splitEdgeTriangular, insertVertex, connectVertices, triangulate", MM), ("element allocation", "src/surface/surface_mesh.cpp: getNewVertex/getNewEdgeTriple/getNewFace")]),
 dict(id="P06", title="Deleting and collapsing elements performs exactly the documented simplification",
  statement="Collapsing a triangle edge, removing an edge, removing a face along the boundary, and removing a vertex each succeed exactly on the inputs they document as legal (link condition for collapse on a simplicial complex, tiny components of up to four faces excepted; different faces on the two sides for edge removal; one boundary edge and otherwise interior vertices for face removal; interior vertices for vertex removal, which may refuse only when the star is not an embedded disk). On success exactly the documented elements disappear, all other faces keep their sides, edges keep their canonical halfedges, and the result is a valid manifold mesh whose counts match its live elements. On refusal or rejection the mesh is unchanged.",
  quant="every element of every catalogue mesh in several storage pre-states, and of every oriented gluing of a few polygons",
  why=W_TESTS, files=[MM], mech=[("collapseEdgeTriangular, removeEdge, removeFaceAlongBoundary, removeVertex", MM), ("element deletion", "src/surface/surface_mesh.cpp: deleteElement, deleteEdgeBundle")]),
 dict(id="P07", title="Separating edges and cutting along edges opens exactly the requested edges",
  statement="Separating an interior edge (with at most one boundary endpoint) turns it into two boundary edges, splitting a boundary endpoint or opening a new boundary loop, while every face keeps its sides and every other edge keeps its two sides; switching an edge's halfedge sides exchanges exactly those two halfedges. Cutting along a simple path of edges returns a new mesh in which exactly the cut edges and the original boundary are boundary edges, with a parent map sending every interior halfedge to its original and the new exterior halfedges along the cut to none, and leaves the input mesh untouched. All results are valid manifold meshes with consistent counts.",
  quant="every interior edge of every catalogue mesh and of small symbolic gluings; every simple edge path of length up to 3 (thorough: 4) starting anywhere on several meshes, with at most one end on the boundary",
  why=W_TESTS, files=[MM, "src/surface/surgery.cpp"], mech=[("separateEdge, switchHalfedgeSides", MM), ("cutAlongEdges", "src/surface/surgery.cpp")]),
 dict(id="P08", title="Edit sequences and compress() preserve validity and attached data",
  statement="After any sequence of connectivity edits (flip, insert, split, connect, triangulate, collapse, remove, separate) interleaved with compress(), the mesh is a valid manifold mesh; every value stored in an attached vertex, halfedge, corner, edge, face or boundary loop container is still found at the surviving element it was stored at; every newly created element reads as the container's default value; and compress() is a dense relabelling of the live elements which preserves all connectivity, each element's representative halfedge, and the association of all attached data.",
  quant="bounded sequences of operations (1 to 3) with all kinds of operation at each step, on small meshes, compressing or not between steps",
  over=["inputs","histories"], why=W_TESTS, files=[MM, "src/surface/surface_mesh.cpp", "include/geometrycentral/utilities/mesh_data.ipp"], mech=[("compress*, expand/permute callbacks", "src/surface/surface_mesh.cpp"), ("callback registration and expansion", "include/geometrycentral/utilities/mesh_data.ipp")]),

 dict(id="P01", title="Manifold mesh construction accepts exactly manifold input, faithfully",
  statement="Constructing a manifold mesh from a polygon list succeeds exactly when the list describes an oriented manifold surface (every face has at least three sides and no side from a vertex to itself, every vertex index is used, no directed side occurs twice, every vertex has a single fan of faces), and throws otherwise. The constructed mesh is valid and represents the input exactly: same vertices, faces with their vertices in order, sides shared exactly where two faces use the same vertex pair (or, with an explicit gluing, exactly the glued sides), boundary loops along the unshared sides; its counts, predicates, Euler characteristic (boundary loops counting as faces), genus and connected components follow from that. Reading the polygons back returns the input.",
  quant="every list of three triangles, of mixed polygons, of polygons with repeated vertices, arbitrary index lists (unused vertices, degenerate faces), vertex fans, four triangles; every consistent gluing of a few polygons",
  why=W_TESTS, files=[MM, "src/surface/surface_mesh.cpp"], mech=[("construction from polygons / twins / matrix", MM + ": constructors"), ("getFaceVertexList, counts, genus, components", "src/surface/surface_mesh.cpp")]),
 dict(id="P02", title="General surface meshes represent any polygon soup and judge it rightly",
  statement="A general surface mesh built from any polygon list with faces of at least three sides and without unused vertices represents it exactly: face vertices in order, one edge per joined vertex pair carrying every side that uses it, all incident elements enumerated once by each adjacency iterator. Its predicates follow the definitions: edge and vertex manifoldness, orientedness, boundary, connected components, degrees, connecting edges. Conversion to a manifold mesh succeeds exactly on oriented manifold meshes and keeps every element's index.",
  quant="the same families of polygon lists as for manifold construction, plus fans and books of triangles around a vertex or edge with arbitrary orientation, without the manifold restriction",
  why=W_TESTS, files=["src/surface/surface_mesh.cpp", "include/geometrycentral/surface/halfedge_element_types.ipp"], mech=[("general construction, vertex/sibling lists", "src/surface/surface_mesh.cpp"), ("predicates and iterators", "include/geometrycentral/surface/halfedge_element_types.ipp")]),
 dict(id="P03", title="Navigation, iteration and circulators enumerate exactly the right elements",
  statement="On every valid manifold mesh, including one with deleted elements, iterating a kind of element yields each live element exactly once in index order, and each circulator around a vertex, edge, face or boundary loop yields exactly the incident elements, each once and in documented order. Navigation functions agree with one another (next/previous, twin, tip and tail, orientation, corners, edge diamonds), degrees and boundary tests count the same neighbourhoods, and index containers, connecting-edge lookup and adjacency queries return the unique matching element or none.",
  quant="every element of every catalogue mesh in several storage pre-states, of every oriented gluing of a few polygons, and of meshes after one or two edits, before and after compressing",
  why=W_TESTS, files=["include/geometrycentral/surface/halfedge_element_types.ipp", "include/geometrycentral/utilities/element_iterators.ipp", "src/surface/surface_mesh.cpp"], mech=[("navigators and ranges", "include/geometrycentral/surface/halfedge_element_types.ipp"), ("index getters, connectingEdge", "src/surface/surface_mesh.cpp")]),
 dict(id="P10", title="General-mesh edits do exactly what they say, on any connectivity",
  statement="On a general (possibly non-manifold, inconsistently oriented) mesh: inverting a face reverses exactly that face; duplicating a face adds one coincident face; flipping an edge succeeds exactly on edges shared by two distinct triangles (and, if asked, whose new edge would not exist yet) and rotates it; separating halfedges to a new edge moves exactly those two; separating non-manifold edges or vertices yields an edge- or vertex-manifold mesh with the same faces, minimal copies and correct parents; greedy orientation keeps or inverts whole faces and orients every orientable part. After any such sequence the mesh is valid, counts are exact, attached data stays with its elements (new elements get the default), and compress() preserves all of it.",
  quant="every element of every mesh of two (restricted: three) triangles, of triangle books with any orientation, and of 12 further meshes; sequences of up to three operations with optional compress() in between",
  over=["inputs","histories"], why=W_TESTS, files=["src/surface/surface_mesh.cpp"], mech=[("invertOrientation, duplicateFace, flip, separateToNewEdge, separateNonmanifoldEdges, separateNonmanifoldVertices, greedilyOrientFaces", "src/surface/surface_mesh.cpp")]),
 dict(id="P09", title="Copies of meshes and geometries are identical and independent",
  statement="Copying a manifold or general mesh gives a valid mesh with the same elements, indices, relations, representative halfedges, counts and capacities. Afterwards editing, compressing or destroying either one changes neither the other mesh nor the containers attached to it. Copying a geometry (or reinterpreting it onto a copy of its mesh) gives a geometry with exactly the same positions or edge lengths on the right mesh, and changing either one leaves the other alone.",
  quant="copies of small meshes in several storage pre-states followed by every kind of edit on either side or destruction of the original; geometries with arbitrary positions and lengths",
  over=["inputs","histories"], why=W_TESTS, files=[MM, "src/surface/surface_mesh.cpp", "src/surface/vertex_position_geometry.cpp", "src/surface/edge_length_geometry.cpp"], mech=[("copy, copyToSurfaceMesh, copyInternalFields", "src/surface/surface_mesh.cpp"), ("copy / reinterpretTo", "src/surface/vertex_position_geometry.cpp, edge_length_geometry.cpp")]),
 dict(id="P11", title="Attached data containers keep exact values under every operation",
  statement="A data container attached to any kind of mesh element returns exactly the last value written for each element: through construction, fill, conversion to and from vectors and matrices (with or without an indexer), elementwise arithmetic and casting, copying, moving and swapping, and through mesh growth and compression, with new elements reading as the current default. Copies are independent, moved-to containers take over, a default-constructed or orphaned container (mesh destroyed first) can be destroyed or reassigned safely, and reinterpreting onto a mesh with the same number of elements transfers values in iteration order.",
  quant="all six kinds of element, all values of the stored numbers, several meshes with deleted slots or spare capacity, then growth, compression or destruction of mesh or container in either order",
  over=["inputs","histories"], why="The reliable tests use point containers with a few concrete values; no test combines copies, moves and growth or checks all values.", files=["include/geometrycentral/utilities/mesh_data.ipp", "include/geometrycentral/utilities/mesh_data.h", "include/geometrycentral/surface/surface_mesh.ipp"], mech=[("MeshData", "include/geometrycentral/utilities/mesh_data.ipp"), ("expand / permute / delete callbacks", "src/surface/surface_mesh.cpp")]),
 dict(id="P12", title="Mesh factories and Eigen views put every value at its element",
  statement="Each factory that builds a mesh with geometry (manifold, general, parameterized, from polygon lists, explicit gluings or matrices) returns exactly the mesh given by the polygon list, a geometry on that mesh with vertex i at position i, and texture coordinates at exactly the corners they were given for. Eigen views of a vertex container show row i for element i, flattened and not, and writing through them changes the container.",
  quant="all position and texture coordinate values on six meshes including mixed polygons and non-manifold ones, through every factory overload",
  why=W_TESTS, files=["src/surface/surface_mesh_factories.cpp", "src/surface/halfedge_factories.cpp", "include/geometrycentral/utilities/eigen_interop_helpers.ipp"], mech=[("make*SurfaceMeshAndGeometry", "src/surface/surface_mesh_factories.cpp"), ("EigenMap", "include/geometrycentral/utilities/eigen_interop_helpers.ipp")]),
 dict(id="P13", title="MutationManager applies edits with constraints, positions and callbacks",
  statement="Each operation of a MutationManager is carried out exactly when the constraints set on it and the mesh connectivity allow it; otherwise nothing changes. When carried out, the mesh is as after the corresponding mesh operation, the new or surviving vertex is placed at the given or interpolated position and no other vertex moves, halves of a split edge inherit its constraints, and every policy and handler registered (and not removed) for that operation is called once before on the unchanged mesh and once after on the changed mesh, with the right elements and parameters. Removing a policy deletes it and it is never called again.",
  quant="every operation on every element of six small triangle meshes with all combinations of constraint, with and without geometry, for all positions and parameters; sequences of two operations with policies removed in between",
  over=["inputs","histories"], why=W_TESTS, files=["src/surface/mutation_manager.cpp", "include/geometrycentral/surface/mutation_manager.ipp"], mech=[("flipEdge, splitEdge, collapseEdge, splitFace, repositionVertex", "src/surface/mutation_manager.cpp"), ("handler registration", "include/geometrycentral/surface/mutation_manager.ipp")]),
 dict(id="P14", title="Intrinsic geometric quantities equal their definitions for every edge length",
  statement="For every assignment of edge lengths with valid triangles, each cached intrinsic quantity (areas, dual areas, angles, scaled angles, curvatures, cotan weights, length scales, tangent vectors and transport, Laplacians, mass matrices, connection Laplacians, Crouzeix-Raviart and DEC operators) equals its documented definition at every element, and the immediate per-element functions return the same value. Matrices are indexed by iteration order, also on meshes with deleted elements. Structural identities follow: d1 d0 = 0, L = d0' hodge1 d0, transports of twins invert each other, angles around a vertex scale to 2 pi (pi on the boundary).",
  quant="all real edge lengths satisfying the strict triangle inequalities, on ten (thorough fourteen) small meshes including closed, bounded, non-manifold, unoriented ones and meshes with deleted elements",
  why="Rounding-insensitive errors (a wrong sign in the obtuse case, a wrong corner, a wrong index after deletion) show only for particular shapes and meshes; no reliable test evaluates any of these quantities.", files=["src/surface/intrinsic_geometry_interface.cpp", "include/geometrycentral/surface/edge_length_geometry.ipp"], mech=[("compute* of every intrinsic quantity", "src/surface/intrinsic_geometry_interface.cpp"), ("immediate quantities", "include/geometrycentral/surface/edge_length_geometry.ipp")]),
 dict(id="P15", title="Extrinsic and polygon-mesh quantities equal their definitions for all positions",
  statement="For every choice of vertex positions with non-degenerate faces, each cached extrinsic quantity of a VertexPositionGeometry (lengths, areas, angles, cotan weights, face and vertex normals, tangent bases, dihedral angles, mean, Gaussian and principal curvatures and directions, mean curvature normals) equals its documented definition, and the immediate per-element functions return the same value. On polygon meshes the normal is the normalized vector area, the gradient reproduces linear functions, and the Laplacians, mass matrices, Hodge stars, DEC and connection operators equal their published definitions and reduce to the triangle operators on triangles.",
  quant="all real vertex positions (non-degenerate faces), all symbolic inputs of derived quantities, on fifteen small triangle and polygon meshes including non-manifold ones and meshes with deleted elements",
  why="Wrong signs, corners or normalisations show only for non-planar faces, obtuse or concave configurations, or particular meshes; no reliable test evaluates these quantities.", files=["src/surface/extrinsic_geometry_interface.cpp", "src/surface/embedded_geometry_interface.cpp", "include/geometrycentral/surface/vertex_position_geometry.ipp"], mech=[("compute* of extrinsic and polygon quantities", "src/surface/embedded_geometry_interface.cpp"), ("curvatures", "src/surface/extrinsic_geometry_interface.cpp"), ("immediate quantities", "include/geometrycentral/surface/vertex_position_geometry.ipp")]),
 dict(id="P16", title="A required quantity is always up to date, whatever the caching history",
  statement="After any sequence of require, unrequire, purge and refresh calls, input changes followed by a refresh, and mesh mutations followed by a refresh, every quantity that is currently required equals the one of a geometry freshly built from the same input. Releasing a quantity throws exactly when it is not required, and leaves the others protected. Copies and reinterpretations equal the original, are independent of it, and start with no requirements.",
  quant="all histories of calls within the bounds, for every quantity of the embedded and the intrinsic geometry classes",
  why="A missing dependency or a wrong reference count shows only after another quantity was computed, released or purged in a particular order before the input changed.", files=["include/geometrycentral/utilities/dependent_quantity.ipp", "src/surface/base_geometry_interface.cpp"], mech=[("DependentQuantity", "include/geometrycentral/utilities/dependent_quantity.ipp"), ("refreshQuantities, purgeQuantities", "src/surface/base_geometry_interface.cpp"), ("dependencies of compute*", "src/surface/intrinsic_geometry_interface.cpp"), ("dependencies of compute*", "src/surface/embedded_geometry_interface.cpp"), ("copy, reinterpretTo", "src/surface/vertex_position_geometry.cpp")]),
 dict(id="P17", title="Vector, quaternion and elementary geometry functions obey their equations",
  statement="Vector2, Vector3 and Quaternion operations are the algebraic ones (sums, products, rotations, norms, angles, orderings, clamping, bases), and finiteness, definedness and equality predicates hold exactly as defined for every double including NaN and infinities. Triangle area and layout, distances to lines and segments, ray and segment intersections, circle tests and tetrahedron completion return the point, number or verdict that satisfies the documented defining relation. Permutation and erasure helpers keep exactly the documented entries. A Hermite curve interpolates its nodes and tangents and has length number of nodes - 1.",
  quant="all real arguments (all bit patterns for the predicates) within the documented domains",
  why="Everything else is computed with these; an error for one sign, order of arguments, or degenerate direction is invisible for the few values a test uses.", files=["include/geometrycentral/utilities/vector3.ipp", "src/utilities/elementary_geometry.cpp"], mech=[("Vector2 operations", "include/geometrycentral/utilities/vector2.ipp"), ("Vector3 operations", "include/geometrycentral/utilities/vector3.ipp"), ("Quaternion", "src/utilities/quaternion.cpp"), ("elementary geometry", "include/geometrycentral/utilities/elementary_geometry.ipp"), ("inCircleTest, rayIntersection", "src/utilities/elementary_geometry.cpp"), ("HermiteCurve", "include/geometrycentral/utilities/curve.ipp")]),
 dict(id="P18", title="Triangle and mesh intersection report exactly the shared points",
  statement="triTriIntersection reports an intersection exactly when the two closed triangles share a point; for triangles in different planes the reported segment lies on both triangles, ends on their sides and contains every piercing point, and coplanarity is reported exactly. intersections() of two triangle meshes, and selfIntersections(), report one segment per intersecting pair of faces (neighbours sharing a vertex on the same surface excepted), refer to valid points, and refuse other polygons.",
  quant="all placements of the triangles within the bounds",
  why="The algorithm is a cascade of sign cases and interval orders; each of its branches is reached only by a particular arrangement.", files=["src/utilities/tri_tri_intersect.cpp", "src/surface/intersection.cpp"], mech=[("tri_tri_intersect_with_isectline", "src/utilities/tri_tri_intersect.cpp"), ("intersections, selfIntersections", "src/surface/intersection.cpp")]),
 dict(id="P19", title="Union-find, shortest paths and nearest-neighbour search match brute force",
  statement="DisjointSets and MarkedDisjointSets represent exactly the partition (and marks) generated by the operations performed. shortestEdgePath returns a chain of halfedges from start to end no longer than any other path, and an empty list when the vertices coincide or are not connected; vertexDijkstraDistanceWithinRadius reports exactly the vertices within the radius, each with its shortest edge distance. NearestNeighborFinder returns distinct points, the nearest ones (kNearest in order of distance; kNearestNeighbors never the source itself, also with duplicates), radiusSearch exactly the points nearer than the radius, and asking for more points than exist throws.",
  quant="all edge lengths, coordinates, radii and operation sequences within the bounds",
  why="Searches with pruning and stale queue entries go wrong only for particular orders of the distances, which a test on one mesh does not produce.", files=["src/surface/mesh_graph_algorithms.cpp", "src/utilities/knn.cpp"], mech=[("shortestEdgePath", "src/surface/mesh_graph_algorithms.cpp"), ("vertexDijkstraDistanceWithinRadius", "src/surface/mesh_graph_algorithms.cpp"), ("DisjointSets, MarkedDisjointSets", "src/utilities/disjoint_sets.cpp"), ("NearestNeighborFinder", "src/utilities/knn.cpp")]),
 dict(id="P20", title="Surface points and barycentric vectors keep their meaning when converted",
  statement="Converting a SurfacePoint or BarycentricVector with inSomeFace, inFace or inEdge keeps the weight of every mesh vertex, and throws exactly when the target element does not hold it. sharedFace, sharedEdge, checkAdjacent and onSameElement report exactly the incidences (a boundary loop is not a face). interpolate, nearestVertex, ==, validate, and the point and vector constructors follow the coordinates; the vector between two points is the difference of their weights. Sums, differences and multiples act on the weights and exist exactly when a face holds both; norm, dot, rotate90 and rotate agree with the planar layout of the face. Barycentric helper functions satisfy their definitions.",
  quant="all coordinates, elements and triangle shapes within the bounds",
  why="The representation of the same point changes with the element it is seen from; a wrong orientation or coordinate order is only visible for edges stored against the face's direction.", files=["include/geometrycentral/surface/surface_point.ipp", "include/geometrycentral/surface/barycentric_vector.ipp"], mech=[("SurfacePoint conversions", "include/geometrycentral/surface/surface_point.ipp"), ("checkAdjacent", "src/surface/surface_point.cpp"), ("BarycentricVector", "include/geometrycentral/surface/barycentric_vector.ipp"), ("faceVectorRotate", "src/surface/barycentric_vector.cpp"), ("coordinate helpers", "include/geometrycentral/surface/barycentric_coordinate_helpers.ipp")]),
 dict(id="P21", title="Normal coordinates track curves through flips, splits and insertions",
  statement="Corner coordinates and degrees count the arcs of a triangle given its edge coordinates (negative: arcs along the edge). Flipping, splitting an edge at any of its segments and inserting a vertex give the new edges exactly the crossings and roundabout positions of the unchanged curves. After any flip sequence the curves traced are still the original edges, each with its end vertices, every crossing on one curve, roundabouts in order. Tracing from a crossing (one or both ways) or a corner follows the arcs to a vertex, the boundary or back to its start; generateAnyGeometry draws exactly these curves.",
  quant="all coordinates, flip sequences and positions within the bounds",
  why="The formulas are cascades of maxima with parity subtleties; wrong counts appear only for particular mixtures of parallel, emanating and corner arcs.", files=["src/surface/normal_coordinates.cpp"], mech=[("flipNormalCoordinates, flipRoundabouts", "src/surface/normal_coordinates.cpp"), ("split and insertion data", "src/surface/normal_coordinates.cpp"), ("topologicalTrace, stepTopologicalCurve", "src/surface/normal_coordinates.cpp"), ("generateAnyGeometry", "src/surface/normal_coordinates.cpp")]),
 dict(id="P22", title="Subdivision refines every face and places vertices by the scheme's rules",
  statement="linearSubdivide and catmullClarkSubdivide replace every corner of every face by a quad, loopSubdivide every triangle by four: the result is a valid compressed mesh with one new vertex per edge (and per face for the quad schemes), joined as the old faces were, old vertices keep their attached data, and non-triangular input to Loop throws. Positions follow the midpoint, Catmull-Clark (boundary edges and vertices as a curve) and Loop rules, and required quantities of the geometry are refreshed.",
  quant="all vertex positions on every mesh within the bounds",
  why="Refinement runs a long sequence of splits and merges while iterating; boundaries, polygons and deleted slots take different branches and a wrong weight only shows for asymmetric positions.", files=["src/surface/subdivide.cpp"], mech=[("linearSubdivide, catmullClarkSubdivide, loopSubdivide", "src/surface/subdivide.cpp"), ("splitEdgeTriangular, insertVertex, removeEdge", "src/surface/manifold_surface_mesh.cpp")]),
 dict(id="P23", title="Linear-algebra helpers rearrange matrices exactly and reject bad ones",
  statement="verticalStack/horizontalStack, shiftDiagonal, identityMatrix, complexToReal/realToComplex, blockDecomposeSquare with decomposeVector/reassembleVector and unpackMatrixToStdVector place every entry where it belongs for any sparsity pattern and any index set, and invert each other where they should; mismatched sizes throw; checkFinite, checkSymmetric and checkHermitian throw exactly on matrices that are not finite, symmetric or Hermitian within the tolerance.",
  quant="all sparsity patterns, index sets and values within the bounds",
  why="Every solver in the library is set up through these helpers; an off-by-one in a block or a missing conjugate only shows for patterns and values a test does not happen to use.", files=["include/geometrycentral/numerical/linear_algebra_utilities.ipp", "src/numerical/linear_algebra_utilities.cpp"], mech=[("blockDecomposeSquare, decomposeVector, reassembleVector, stacks, checks", "include/geometrycentral/numerical/linear_algebra_utilities.ipp"), ("complexToReal, realToComplex", "src/numerical/linear_algebra_utilities.cpp")]),
 dict(id="P24", title="Robust intrinsic tools: tufted cover, mollification, Delaunay flips",
  statement="buildIntrinsicTuftedCover turns any triangle soup into a closed, oriented, edge-manifold cover with two sheets of every face on the same vertices, chained once through all faces around every edge, keeping edge lengths. mollifyIntrinsic(Absolute) lengthens all edges by the least common amount that gives every triangle the requested slack. flipToDelaunay flips exactly when an interior edge violates the (Euclidean or hyperbolic) Delaunay condition, assigns the other diagonal's length, leaves all interior edges Delaunay, and never touches boundary edges.",
  quant="all triangle lists, lengths, factors and tolerances within the bounds",
  why="These run on degenerate, non-manifold and bordered input that tests rarely contain; the flip of unoriented pairs and the sheet chaining around edges of any degree have separate code paths.", files=["src/surface/tufted_laplacian.cpp", "src/surface/intrinsic_mollification.cpp", "src/surface/simple_idt.cpp"], mech=[("buildIntrinsicTuftedCover", "src/surface/tufted_laplacian.cpp"), ("mollifyIntrinsicAbsolute", "src/surface/intrinsic_mollification.cpp"), ("flipToDelaunay", "src/surface/simple_idt.cpp"), ("duplicateFace, separateToNewEdge, flip", "src/surface/surface_mesh.cpp")]),
 dict(id="P25", title="Remeshing and quadric simplification follow their stated rules",
  statement="adjustEdgeLengths splits edges longer than 1.5 target lengths (and above the relative minimum) at the midpoint and collapses those under half the target unless that folds the surface, so a second pass finds nothing new; remesh and adjustEdgeLengths take a negative target relative to the mean edge length. Smoothing moves vertices tangentially by the stated average and honours boundary conditions; fixDelaunay flips only edges whose opposite angles exceed 180 degrees and may be flipped. quadricErrorSimplify collapses cheapest edges first, only those within tolerance, at the quadric minimiser, and returns a compressed mesh.",
  quant="all coordinates, tolerances, lengths, options within the bounds",
  why="Thresholds, stale cached quantities and integer rounding of costs show only for particular lengths and scales.", files=["src/surface/remeshing.cpp", "src/surface/quadric_error_simplification.cpp"], mech=[("adjustEdgeLengths, smoothByLaplacian, smoothByCircumcenter, fixDelaunay, remesh", "src/surface/remeshing.cpp"), ("quadricErrorSimplify", "src/surface/quadric_error_simplification.cpp"), ("collapseEdge, splitEdge callbacks", "src/surface/mutation_manager.cpp"), ("collapseEdgeTriangular", "src/surface/manifold_surface_mesh.cpp")]),
 dict(id="P26", title="Marching triangles extracts exactly the level set",
  statement="marchingTriangles returns curves whose points have the level value, with exactly one segment in every triangle that has values on both sides (ending at a vertex where that vertex has the level exactly), every edge inside the level set once, nothing in other triangles, smaller values on the left of each segment, and segments joined into curves that cannot be prolonged.",
  quant="all vertex values and meshes within the bounds",
  why="Levels through vertices or along edges and faces that meet in several edges are measure-zero inputs which tests with smooth functions never hit.", files=["src/surface/marching_triangles.cpp"], mech=[("marchingTriangles", "src/surface/marching_triangles.cpp"), ("SurfacePoint", "include/geometrycentral/surface/surface_point.ipp")]),
 dict(id="P27", title="Integer-coordinate intrinsic triangulations represent the input",
  statement="After any flips, insertions and removals, an IntegerCoordinatesIntrinsicTriangulation still is a triangulation of the input surface: edge lengths are geodesic distances of the vertices' locations, flips happen exactly when geometrically possible, normal coordinates count crossings with the input, traces of input and intrinsic edges are straight and meet exactly what they cross, equivalentPointOnInput keeps places, flipToDelaunay makes it Delaunay, delaunayRefine reaches its thresholds within its limit without touching marked edges, angle queries are exact, and the common subdivision consists of exactly the intersections, with consistent positions, parents, interpolation and lengths.",
  quant="all operation sequences and places within the bounds",
  why="Tracing across inserted vertices, shared edges and fan-shaped triangles has many cases; combinations of flips and insertions on input edges are not covered by tests on one refined mesh.", files=["src/surface/integer_coordinates_intrinsic_triangulation.cpp", "src/surface/intrinsic_triangulation.cpp", "src/surface/common_subdivision.cpp", "src/surface/normal_coordinates.cpp"], mech=[("flipEdgeIfPossible, insertVertex, removeInsertedVertex, constructCommonSubdivision", "src/surface/integer_coordinates_intrinsic_triangulation.cpp"), ("flipToDelaunay", "src/surface/intrinsic_triangulation.cpp"), ("CommonSubdivision::constructMesh", "src/surface/common_subdivision.cpp"), ("generateFullSingleGeodesicGeometry", "src/surface/normal_coordinates.cpp")]),
 dict(id="P28", title="Signpost intrinsic triangulations represent the input",
  statement="After any flips, insertions and removals, a SignpostIntrinsicTriangulation still is a triangulation of the input surface: edge lengths are geodesic distances of the vertices' locations, signposts record the angles between edges, flips happen exactly when geometrically possible, traces in both directions are straight paths on the mesh they are stated to be on and end at the right vertices, equivalent points in both directions keep places, original edges are recognised, flipToDelaunay makes it Delaunay, delaunayRefine reaches its thresholds within its limit without touching marked edges, angle queries are exact, and the common subdivision consists of the intersections.",
  quant="all operation sequences within the bounds",
  why="Boundary edges, removed elements and reused indices make traces go wrong only after particular operation sequences.", files=["src/surface/signpost_intrinsic_triangulation.cpp", "src/surface/intrinsic_triangulation.cpp", "src/surface/trace_geodesic.cpp"], mech=[("traceIntrinsicHalfedgeAlongInput, traceInputHalfedgeAlongIntrinsic, equivalentPointOnInput, equivalentPointOnIntrinsic, resolveNewVertex, constructCommonSubdivision", "src/surface/signpost_intrinsic_triangulation.cpp"), ("traceGeodesic", "src/surface/trace_geodesic.cpp"), ("CommonSubdivision", "src/surface/common_subdivision.cpp")]),
 dict(id="P29", title="Geodesic traces follow straight paths",
  statement="traceGeodesic from any face, edge or vertex point ends where the straight walk of that direction and length ends (or at the boundary, a barrier edge or the iteration limit, whichever is first), reports the length actually walked, the direction of arrival in the frame of the end point, whether the boundary was hit, and a path of consecutive points on the line; a zero vector stays at its start, and walking back along the arriving direction returns to the start.",
  quant="all start points, directions and lengths within the bounds",
  why="Which edge is crossed, where the walk stops and in which of several frames the result is given depend on the start and direction; wrong cases need a start on an edge or vertex, a stop at a particular place, or a reversed edge.", files=["src/surface/trace_geodesic.cpp", "include/geometrycentral/surface/trace_geodesic.h", "include/geometrycentral/surface/barycentric_coordinate_helpers.ipp"], mech=[("traceGeodesic, traceInFaceBarycentric, traceInFaceFromEdge, traceGeodesic_fromVert, traceGeodesic_fromEdge, traceGeodesic_iterative", "src/surface/trace_geodesic.cpp"), ("cartesianVectorToBarycentric, barycentricCoordsToFaceTrace", "include/geometrycentral/surface/barycentric_coordinate_helpers.ipp")]),
 dict(id="P30", title="Fast marching distances solve the eikonal update and carry the right signs",
  statement="FMMDistance starts with the exact straight distances to the corners of a source's face, edge or vertex plus its initial value; every other vertex gets the least value its triangles give: the solution of the eikonal equation when the front arrives through an acute triangle, a detour over an edge otherwise, and max of the two values plus the altitude at most through an obtuse one. On flat meshes the result lies between the straight distance and the shortest path along edges. Signed distances have the unsigned magnitude, are negative left of the source curve and positive right of it, whatever the curve passes through (vertices, edge points, faces), and change sign when the curve is reversed.",
  quant="all sources, initial values and dividing curves within the bounds",
  why="The front's order, the choice between updates and the fan of a curve vertex depend on geometry and on where element orbits start.", files=["src/surface/fast_marching_method.cpp"], mech=[("FMMDistance, eikonalDistanceSubroutine", "src/surface/fast_marching_method.cpp")]),
 dict(id="P31", title="Point cloud neighbourhoods, frames, local triangulations and operators",
  statement="Neighborhoods holds the k nearest other points of every point; estimated normals minimise the squared distance to the neighbourhood, frames are right-handed and orthonormal, given normals and frames are kept. buildLocalTriangulations gives one counterclockwise fan around each point, Delaunay in the tangent plane, closed exactly when no half plane is empty. Tangent coordinates are components in the frame, tangent transport is the least rotation between the normals; the gradient is exact for linear functions on planar clouds; the Laplacian is symmetric, has no negative weights, annihilates constants and is positive semidefinite; the connection Laplacian is the Laplacian with each weight times the transport, whatever the orientation of the normals. Required quantities always belong to the current positions, in whatever order they are required, released, refreshed or purged.",
  quant="all radii, positions, function values, fields and orders of requests within the bounds",
  why="The Delaunay fan depends on a chain of in-circle tests, the connection Laplacian on which normals happen to be reversed, and managed quantities on the order of requests.", files=["src/pointcloud/local_triangulation.cpp", "src/pointcloud/point_position_geometry.cpp", "src/pointcloud/neighborhoods.cpp", "src/pointcloud/point_position_frame_geometry.cpp", "src/pointcloud/point_position_normal_geometry.cpp", "src/pointcloud/point_cloud.cpp"], mech=[("buildLocalTriangulations", "src/pointcloud/local_triangulation.cpp"), ("PointPositionGeometry", "src/pointcloud/point_position_geometry.cpp")]),
 dict(id="P40",title='Heat methods for distance, transport and signed distance',statement='HeatMethodDistanceSolver, VectorHeatMethodSolver, SignedHeatSolver and their polygon and point cloud versions return distances, extensions and parallel fields that converge to the geodesic ones, are zero at (or interpolate) the sources, scale with the geometry and do not depend on the element order.',quant='all meshes, sources and time steps',why='A wrong boundary term or shift shows only for particular meshes and sources.',files=['src/surface/heat_method_distance.cpp', 'src/surface/vector_heat_method.cpp', 'src/surface/signed_heat_method.cpp', 'src/surface/polygon_mesh_heat_solver.cpp', 'src/pointcloud/point_cloud_heat_solver.cpp'],mech=[('heat_method_distance','src/surface/heat_method_distance.cpp')],na='the results are solutions of sparse systems factored by SuiteSparse, an external binary without source here, so the functions cannot be executed symbolically to their results; with a concrete mesh the only free quantity left would be a right-hand side, whose solution is an approximation with no closed form to compare with. The operators they are built from are decided in the geometry and operator properties.'),
 dict(id="P41",title='Direction fields and stripe patterns',statement='computeSmoothest*DirectionField minimise the Dirichlet energy of unit n-direction fields, index sums equal the Euler characteristic, and computeStripePattern gives level sets with singularities at the reported faces.',quant='all meshes, symmetries and fields',why='Sign conventions interact with edge orientation and boundary alignment.',files=['src/surface/direction_fields.cpp', 'src/surface/stripe_patterns.cpp'],mech=[('direction_fields','src/surface/direction_fields.cpp')],na='results are eigenvectors from an iterative solver on external SuiteSparse factorisations; no encoding reaches a result within bounds.'),
 dict(id="P42",title='Parameterisation and conformal maps',statement='parameterizeDisk, BFF, uniformizeDisk and embedConvex return maps with the prescribed boundary data, cone angles or curvature and without flipped faces.',quant='all disks, boundary data and cone angles',why='Errors show only for some boundary lengths or cone angles.',files=['src/surface/parameterize.cpp', 'src/surface/boundary_first_flattening.cpp', 'src/surface/uniformize.cpp', 'src/surface/embed_convex.cpp'],mech=[('parameterize','src/surface/parameterize.cpp')],na='nonlinear optimisation and sparse factorisations in external SuiteSparse binaries; the number of iterations is not bounded and the limits have no closed form.'),
 dict(id="P43",title='Linear and eigenvalue solvers',statement='Solver, PositiveDefiniteSolver, SquareSolver and the eigenvector routines return x with residual within the requested tolerance for every admissible matrix, and reuse factorisations correctly.',quant='all matrices and right-hand sides',why='Only admissible matrices of particular structure fail.',files=['src/numerical/linear_solvers.cpp', 'src/numerical/positive_definite_solvers.cpp', 'src/numerical/square_solvers.cpp', 'src/numerical/qr_solvers.cpp', 'src/numerical/eigenproblem_solvers.cpp'],mech=[('linear_solvers','src/numerical/linear_solvers.cpp')],na='the work is done by CHOLMOD, UMFPACK and SPQR binaries, which have no source here to encode; the wrappers themselves contain no logic apart from conversions, and the conversions are decided with the linear algebra utilities.'),
 dict(id="P44",title='Mesh and point cloud file formats',statement='Writing a mesh, its data or a point cloud and reading it back gives the same connectivity, positions and attributes; malformed files are refused.',quant='all meshes, attributes and files',why='Attribute order, index bases and unusual headers are not sampled.',files=['src/surface/meshio.cpp', 'src/surface/simple_polygon_mesh.cpp', 'src/surface/rich_surface_mesh_data.cpp', 'src/pointcloud/point_cloud_io.cpp'],mech=[('meshio','src/surface/meshio.cpp')],na='the happly dependency is an empty submodule here, so these files do not compile, and no intermediate code can be produced from them.'),
 dict(id="P45",title='Sampling, ray casting, symmetry, centres and function transfer',statement='Poisson disk samples keep their distance and leave no gap, rays hit the nearest triangle, detected symmetries are symmetries, surface centres minimise the stated energy, and attribute transfer preserves constants and (for L2) integrals.',quant='all meshes, seeds, rays and functions',why='Random starts and degenerate positions are not sampled.',files=['src/surface/poisson_disk_sampler.cpp', 'src/surface/mesh_ray_tracer.cpp', 'src/surface/detect_symmetry.cpp', 'src/surface/surface_centers.cpp', 'src/surface/transfer_functions.cpp'],mech=[('poisson_disk_sampler','src/surface/poisson_disk_sampler.cpp')],na="random choices over unbounded loops, heat-method solutions, nanort's floating-point bounding volume traversal and the external sparse solvers stand between inputs and results; no bound small enough to encode leaves behaviour worth deciding."),
 dict(id="P46",title='Flip geodesics',statement='FlipEdgeNetwork shortens paths and loops to geodesics in the intrinsic triangulation without changing their homotopy class, and Bezier subdivision converges to geodesic curves.',quant='all networks and shortening orders',why='Wedge bookkeeping depends on long flip histories.',files=['src/surface/flip_geodesics.cpp'],mech=[('flip_geodesics','src/surface/flip_geodesics.cpp')],na='the file includes the missing happly submodule (to write paths to files) and is not part of the library built here, so there is no intermediate code to execute.'),
]
_M = "the operation runs for real on a mesh whose connectivity and chosen element are symbolic; the state read back through public navigation is compared halfedge by halfedge with the documented effect computed by the harness on the abstract pre-state, plus a full validity check. About "
HOW = {
 "P01": "the constructor runs on symbolic polygon index lists; acceptance is compared with an independent manifoldness test on the list, the built mesh with the list. 20 s.",
 "P02": "as P01 for general meshes; every predicate and iterator compared with its definition evaluated on the polygon list. 26 s.",
 "P03": "every navigator, range and circulator compared with sets computed from next/twin/vertex/edge/face relations. 19 s.",
 "P04": _M + "18 s.", "P05": _M + "34 s.", "P06": _M + "20 s.", "P07": _M + "20 s.",
 "P08": "symbolic histories: the kind of operation and element at each step are symbolic; data containers carry unique tags per element which must be found again; compress() must be a relabelling. 60 s.",
 "P09": "copy, then any edit of one side; the abstraction of the other side must be identical. 40 s.",
 "P10": "as P04-P08 for general meshes with symbolic, arbitrarily oriented triangle lists. 55 s.",
 "P11": "container operations on fully symbolic values, compared with a plain vector of values kept by the harness. 41 s.",
 "P12": "factories on symbolic coordinates, outputs compared bit by bit. 14 s.",
 "P13": "each manager operation compared with the plain mesh operation on a copy; policies record the mesh state seen in callbacks; positions compared bit by bit. 33 s.",
}
HOW["P14"] = "edge lengths are symbolic reals, the geometry code runs on them, each quantity is compared with its definition (in a form free of inverse trigonometry: products, squares, cosines); decided by an exact normal form for algebraic expressions (engine/norm.h), z3 for the rest and for path feasibility. 40 s."
HOW["P15"] = "as P14 with symbolic vertex positions; derived quantities (principal curvatures, normals, frames) are also run on arbitrary symbolic values of the quantities they are computed from. 35 s."
HOW["P16"] = "the history (which calls, which quantity, when the input changes) is symbolic; after each step every required quantity is compared with a fresh geometry object. 40 s."
HOW["P17"] = "each function runs on symbolic arguments; the result is put into its defining equation (exact reals; the predicates in IEEE floating point). 8 s."
HOW["P18"] = "the functions run on a triangle whose coordinates are symbolic; the verdict is compared with segment-against-triangle volume signs evaluated by the harness, the segment with the defining inequalities. 30 s."
HOW["P19"] = "operation sequences, edge lengths and coordinates are symbolic; each answer is compared with the partition, all simple paths, or all points enumerated by the harness. 50 s."
HOW["P20"] = "points and vectors with symbolic coordinates on every element are converted, combined and measured; weights per mesh vertex and planar positions computed by the harness are the oracle. 20 s."
HOW["P21"] = 'coordinates are symbolic integers; the harness draws the arcs of each triangle one by one and counts crossings itself (one solver query covers the whole range of a formula); curves after symbolic flip sequences are compared with the original edges. 30 s.'
HOW["P22"] = 'the schemes run on meshes with symbolic positions; faces of the result are matched with corners of the old faces through attached vertex ids, positions with the rules evaluated on the base mesh. 15 s.'
HOW["P23"] = "Eigen's sparse containers run concretely on case-split patterns with symbolic entries; results are compared entry by entry with the definition. 10 s."
HOW["P24"] = "triangle lists are case-split, lengths stay symbolic: the cover is compared with the definition on the input list, the offset with the largest deficit, flips with Ptolemy's relation / the law of cosines. 10 s."
HOW["P25"] = 'meshes with free coordinates or parameters run through the real loops; each split, collapse or move reported by callbacks is judged against the rule evaluated on the positions at that moment, and the final mesh against the stopping rule. 30 s.'
HOW["P26"] = 'the sign of every vertex is decided by fork, then the expected oriented segment of each triangle is listed from the definition and compared with the curves returned; crossing places are compared as exact reals. 30 s.'
HOW["P27"] = 'input is flat and convex, so every intrinsic edge is a straight segment of the plane: operations are case-split, query points are symbolic, and lengths, crossings, traces and the subdivision are compared with plane geometry. 50 s.'
HOW["P28"] = 'as P27; operation sequences are case-split and every result compared with plane geometry. 40 s.'
HOW["P29"] = 'traceGeodesic runs with symbolic start and vector on planar meshes laid out in the plane; end point, length, arriving direction and every path point are compared with start + t*direction, the solver deciding every branch (which edge is crossed) and assertion. 40 s.'
HOW["P30"] = 'FMMDistance runs with symbolic initial values or source position on one triangle, where the solver proves the eikonal equation and characteristic conditions; on larger flat meshes sources and curves are case-split and every value is compared with an independent minimisation and with plane distances. 35 s.'
HOW["P31"] = 'The local Delaunay star runs with symbolic radii (angles of symbolic vectors are compared by half plane and cross product); the solver proves the empty-circle property against all neighbours and the shape of the fan. Operators are built on concrete clouds with all combinations of reversed normals and applied to symbolic functions and fields. 35 s.'
CAUGHT = {}
