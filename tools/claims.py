CLAIMED.update({
 "C01": ("exhaustive enumeration of small coordinate lattices (shifted, scaled, ulp-spaced) on the real predicates against an exact integer oracle", "All tuples over each lattice, with every affine map listed; near-degenerate ulp neighbourhoods enumerated completely."),
 "C02": ("exhaustive enumeration of small coordinate lattices on the real predicates against an exact integer oracle", "All tuples over each lattice incl. cocircular/cospherical and ulp-perturbed ones."),
 "C03": ("exhaustive exploration of all expansion operation sequences up to a depth on the real arithmetic against exact dyadic numbers", "All operand pairs of the expansion pool and all operation sequences to the stated depth."),
 "C04": ("exhaustive exploration of all interval operation sequences up to a depth on the real arithmetic against exact dyadic enclosures", "All operand pairs of the interval pool and all operation sequences to the stated depth."),
 "C05": ("exhaustive enumeration of all 4-tuples of a pool of explicit/LPI/TPI points under several coordinate maps and filter-cache states, exact homogeneous oracle", "24-point pool, every tuple of kinds and every argument order, 6 (quick) or 11 (thorough) coordinate maps."),
 "C06": ("exhaustive enumeration of all triples of a pool of explicit/LPI/TPI points, projections and filter-cache states, exact homogeneous oracle", "24-point pool, every triple, three axes, 11 maps."),
 "C07": ("exhaustive enumeration of all pairs and collinear triples of a pool of explicit/LPI/TPI points and filter-cache states, exact homogeneous oracle", "24-point pool, every pair and collinear triple, three axes, 11 maps."),
 "C08": ("exhaustive enumeration of segment/triangle/point configurations over small lattices on the real predicates against exact incidence oracles", "All configurations over each lattice under each map."),
 "C09": ("exhaustive enumeration of triangles over small lattices on the real predicate against exact normals", "All triangles over each lattice under each map."),
})
CLAIMED.update({
 "C10": ("explicit-state exploration of all operation sequences on the real surface mesh, full structural invariant in every state", "All polygon lists up to the stated sizes and every operation sequence to the stated depth; named non-manifold meshes to depth 3 (quick) / 4 (thorough)."),
 "C11": ("explicit-state exploration of all operation sequences on the real surface mesh, every iterator and navigation step against brute force in every state", "Same state space as C10."),
 "C12": ("explicit-state exploration of all operation sequences on the real surface mesh, before/after difference of every transition against a reference transition", "Same state space as C10."),
})
CLAIMED.update({
 "C16": ("exhaustive enumeration of all subsets and orders of small lattices under exact maps on the real triangulator, exact empty-circle / hull / area oracle", "All subsets of 3x3 and 4x4, all k-subsets of 5x5 (k up to 8 quick, 11 thorough), every order of 4/5-point sets, ulp neighbourhoods of degenerate sets, listed large structures."),
 "C17": ("exhaustive enumeration of all simple polygons, holes, extra points and segment orders over small lattices on the real triangulator, exact boundary-chain oracle", "All simple polygons on 3x3 with all extra-point subsets; all polygons up to 6 (7) vertices on 4x4; all admissible pairs up to the stated size; all segment orders of small polygons; walks over collinear points; all polygon pairs with common sides and all bridges to holes; every pattern of up to 6-8 (7-10) points above, below or on a segment."),
 "C18": ("exhaustive enumeration of all simple polygons, holes and soups over small lattices in several planes on the real code, exact boundary-chain oracle", "All 3x3 polygons in 8 plane frames with every rotation of the edge list, every permutation of the edge list of polygons up to 6 (7) sides, all polygon pairs as soups, outlines that reach their hole along a bridge, soups with empty or flat polygons at all positions, all admissible holes on 4x4."),
 "C19": ("exhaustive exploration of all insertion orders (schedule hook) and all small point sets on the real builder, exact empty-sphere / hull oracle", "Every insertion order of 10 degenerate sets of 7/8 points, every numbering of cube subsets, all k-subsets of 3x3x3 (k up to 6 quick, 7 thorough), all orders of 4 (5) point sets, ulp and close-pair neighbourhoods, listed large structures incl. cavities of thousands of faces."),
 "C20": ("exhaustive exploration of all insertion orders and small point sets, all 12 face versions of every tetrahedron of every reached mesh checked against the navigation laws", "Same exploration as C19; every tetrahedron, version, edge ring, vertex star."),
})
CLAIMED.update({
 "C21": ("exhaustive enumeration of all multisets and orders of points on, between and one ulp around the rounding grid on the real code, exact grid oracle", "All point lists of up to 5 (6) points over small coordinate pools around cell boundaries, several tolerances incl. zero."),
 "C22": ("exhaustive enumeration of relative placements of small solids, shell/triangle orders and insertion orders (schedule hook) on the real pipeline, winding-number and volume oracle at every cell of the arrangement", "All interval relations of two boxes per axis, box triples, tetrahedron pairs, voxel solids, concave prism pairs, coplanar rows and copies, pinched faces, zero-area triangles and T-junction closures, every insertion order of small inputs, each under exact (sheared, stretched, shifted, units 2^-19 to 2^30) and rounded placements, with gaps in the shell numbers."),
 "C23": ("exhaustive enumeration of polygon-faced solids, face/edge/insertion orders, layouts within the tolerance and removed faces on the real pipeline, winding-number and volume oracle", "All face orders of a box, all edge orders of one face, all 2x2x2 voxel solids and 3x3 (4x3) plates with faces per plane or per part, all box-pair relations, concave prism pairs, collapsed faces, keyholed faces, faces with slits, units 2^-40 to 2^25 with tolerances up to 0.2 units, all insertion orders of small solids, every single missing face."),
})
CLAIMED.update({
 "C24": ("exhaustive enumeration of all simple polygons, holes, extra points, segment orders and point patterns along a segment over small lattices on the real triangulator, exact in-circle oracle on every edge", "Same case space as C17: all 3x3 polygons with all extra-point subsets, 4x4 polygons up to 6 (7) vertices, polygon pairs, and every pattern of up to 6-8 (7-10) points above, below or on a segment."),
})
CLAIMED.update({
 "C25": ("exhaustive enumeration of damaged, open and self-crossing triangle soups over small lattices with chosen insertion orders (schedule hook) on the real pipeline, edge-balance and winding-number oracle", "All 6^6 (8^6) damaged boxes, all triangle triples (quadruples) of the cube's corners, all triangle pairs of the 3x2x2 (3x3x2) lattice, all interval relations of two damaged boxes, open prisms at every offset, all self-crossing tetrahedron pairs, and sound boxes and tetrahedra beside every damaged shell."),
 "C26": ("exhaustive exploration of histories of unions on the real pipeline (each result is the input of the next step), winding-number and volume oracle in every state", "All sequences of two of 27 boxes followed by 9 (27) third boxes and by the result itself, all 27x27 groupings of four boxes, all growth sequences of 5 (8) voxels in 2x2x2, all pairs of cube tetrahedra followed by two more solids with rounding in between, through both entry points in turn."),
})
