#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (one place to edit the property texts)."""
import json, os
P = []
def p(id, title, statement, over, text, why, files, mech, observe=None, state=None, hook=None):
    a = {"files": files, "mechanism": [{"name": n, "where": w} for n, w in mech]}
    if observe: a["observe_at"] = observe
    if state: a["state"] = [{"name": n, "meaning": m, "where": w} for n, m, w in state]
    a["hook_needed"] = hook
    P.append({"id": id, "title": title, "statement": statement,
              "quantifier": {"over": over, "text": text}, "why_tests_cant": why, "anchors": a})

PR = "src/predicates/predicates.rs"
p("C01", "orient2d and orient3d on doubles return the exact sign",
  "For every tuple of finite double-precision points whose products neither overflow nor underflow, the adaptive 2D and 3D orientation predicates return a value whose sign (positive, negative or zero) is the sign of the exact determinant of the input coordinates, however close to degenerate the points are. Swapping two arguments negates the sign, and the axis-projected and point-triple forms (orientation by axis, alignment test) agree with the exact determinant of the projected coordinates.",
  ["inputs"], "all point tuples of double coordinates, including degenerate and one-ulp-perturbed ones, in every argument order",
  "No test calls these predicates with near-degenerate data; the adaptive stages B/C/D only run when the float filter fails, which ordinary meshes almost never trigger.",
  [PR, "src/predicates/mod.rs"], [("orient2d/orient2d_adapt", PR), ("orient3d/orient3d_adapt", PR), ("orient2d_by_axis, mis_alignment", "src/predicates/mod.rs")],
  ["gpf::predicates::{orient2d,orient3d,orient2d_by_axis,mis_alignment}"])
p("C02", "incircle, insphere and the weighted 4D orientation are exact",
  "For every tuple of finite double-precision points within the exponent range, the in-circle, in-sphere and lifted (weighted) 4D orientation predicates return a value whose sign is the sign of the exact determinant, including exactly zero for cocircular, cospherical or co-hyperplanar points. Even permutations of the arguments keep the sign and odd permutations negate it.",
  ["inputs"], "all point tuples, including cocircular/cospherical and one-ulp-perturbed ones, in all argument orders",
  "The Delaunay tests use random points, for which the static filter almost always decides; the adaptive and exact stages are never forced.",
  [PR], [("incircle/incircle_adapt", PR), ("insphere/insphere_adapt/insphere_exact", PR), ("orient4d/orient4d_adapt/orient4d_exact", PR)],
  ["gpf::predicates::{incircle,insphere,orient4d}"])
p("C03", "Floating-point expansion arithmetic is exact",
  "The sum, difference, product, scaling and negation of multi-component floating-point expansions denote exactly the sum, difference, product, scaling and negation of the numbers the operands denote, through any sequence of operations that stays within the exponent range. The result's components are non-overlapping in increasing magnitude without interior zeros, so the sign query (last component) is the sign of the exact value and a zero result is represented as a single zero.",
  ["inputs", "histories"], "all operands built by operation sequences up to a depth from boundary-valued doubles",
  "One unit test multiplies two fixed two-term expansions and one adds 2+1; cancellation, zero components and growth through chained operations are not tested.",
  [PR, "src/predicates/expansion_number.rs"], [("fast_expansion_sum_zeroelim, scale_expansion_zeroelim, mul_expansion_zeroelim", PR), ("ExpansionNum operators", "src/predicates/expansion_number.rs")],
  ["ExpansionNum Add/Sub/Mul/neg/not_zero/negative"])
p("C04", "Interval arithmetic encloses the exact value and its sign",
  "The interval computed by any sequence of additions, subtractions, multiplications and negations of intervals encloses the exact result of the same operations on every choice of operand values from the operand intervals. Whenever an interval number reports itself nonzero, positive or negative, every value it can denote is nonzero, positive or negative respectively, and exactly one of the two signs is reported.",
  ["inputs", "histories"], "all operation sequences up to a depth over intervals of every sign class, including zero endpoints",
  "The one unit test subtracts a number from itself twice; sign classes of multiplication and the sign queries are never tested.",
  ["src/predicates/interval_number.rs"], [("add/sub/mul with upward rounding, positive/negative/not_zero", "src/predicates/interval_number.rs")],
  ["IntervalNumber operators and sign queries"], [("data", "pair of upper bounds: of the value and of its negation", "src/predicates/interval_number.rs")])
p("C05", "3D orientation of explicit and implicit points is exact",
  "For any four points, each given explicitly, as a line-plane intersection or as a three-plane intersection, the 3D orientation predicate returns the exact side of the fourth point relative to the plane of the first three, for every combination of kinds and every argument order, independently of which filters were evaluated or cached before. The explicit coordinates an implicit point reports approximate the exact intersection to within a few units of rounding.",
  ["inputs", "histories"], "all 81 combinations of point kinds, all argument orders, degenerate positions, all cache histories (fresh, warmed, cloned points)",
  "A single unit test checks that one static filter is available; no test compares an implicit-point predicate with a reference, and filters hide errors in the exact stages.",
  ["src/predicates/orient3d.rs", "src/predicates/generic_point.rs"], [("orient3d dispatch and static/interval/exact stages", "src/predicates/orient3d.rs"), ("lambda caches", "src/predicates/generic_point.rs")],
  ["gpf::predicates::orient3d::orient3d", "ImplicitPoint3D::to_explicit"], [("ss_filter/d_filter/exact", "lazily computed homogeneous coordinates of an implicit point", "src/predicates/generic_point.rs")])
p("C06", "Projected 2D orientation of explicit and implicit points is exact",
  "For any three points, each given explicitly, as a line-plane or as a three-plane intersection, the 2D orientation in the xy, yz and zx projections (and by projection axis) is the sign of the exact determinant of the projected points, for every combination of kinds and argument order and independently of cached filter state.",
  ["inputs", "histories"], "all 27 combinations of point kinds times 3 projections, all argument orders, degenerate positions, cache histories",
  "No test exercises these predicates directly.",
  ["src/predicates/orient2d.rs", "src/predicates/generic_point.rs"], [("orient2d_xy/zx/yz dispatch and stages", "src/predicates/orient2d.rs")],
  ["gpf::predicates::orient2d::{orient2d_xy,orient2d_yz,orient2d_zx,orient2d_by_axis}"])
p("C07", "Coordinate comparison of explicit and implicit points is exact",
  "Comparing two points (explicit, line-plane or three-plane, in any combination and order) on the x, y or z coordinate returns negative, zero or positive exactly as the first coordinate is less than, equal to or greater than the second, so the comparison is antisymmetric and transitive. The collinear point-in-closed-segment query built on it answers exactly for points of every kind.",
  ["inputs", "histories"], "all pairs/triples of point kinds and orders, on all axes, including coordinates that coincide exactly or differ by one ulp",
  "No test calls the comparisons; the pipeline only uses them for a few collinear triples.",
  ["src/predicates/less_than.rs", "src/predicates/mod.rs"], [("less_than_on_x/y/z", "src/predicates/less_than.rs"), ("point_in_segment_general", "src/predicates/mod.rs")],
  ["gpf::predicates::{less_than_on_x,less_than_on_y,less_than_on_z,point_in_segment_general}"])
p("C08", "Segment and triangle intersection predicates are exact",
  "For all double-precision points and non-degenerate segments and triangles, the predicates for point in open/closed segment, point in open/closed triangle (coplanar point), same side of a line in its plane, crossing of two open segments in one point, and an open segment properly crossing a triangle's interior or meeting the closed triangle non-trivially give the exact geometric answer. The answers do not depend on the order or direction in which the segment's or triangle's vertices are listed.",
  ["inputs"], "all small-grid configurations in 3D including every touching, collinear and coplanar case, and scaled/sheared images of them",
  "Tests only run the whole mesh pipeline on three models, with no assertion.",
  ["src/predicates/mod.rs"], [("inner_segments_cross, inner_segment_cross_inner_triangle, inner_segment_cross_triangle, point_in_*", "src/predicates/mod.rs")],
  ["gpf::predicates::*"])
p("C09", "The projection axis chosen for a triangle never degenerates it",
  "For every non-degenerate triangle of doubles, the axis chosen as the dominant component of its normal has a nonzero normal component, and the chosen component is at least as large in magnitude as the others up to rounding. Projecting the triangle along that axis therefore keeps its vertices non-collinear.",
  ["inputs"], "all non-degenerate triangles, including needles, one-ulp slivers and ties between components",
  "Indirectly used by the mesh pipeline on three models; slivers that fail the float filter are not covered.",
  ["src/predicates/mod.rs"], [("max_comp_in_tri_normal filter and exact stage", "src/predicates/mod.rs")], ["gpf::predicates::max_comp_in_tri_normal"])
SM = "src/mesh/surface_mesh.rs"
p("C10", "Surface mesh connectivity stays consistent under every operation sequence",
  "A surface mesh built from any valid polygon list (non-manifold and open meshes included) and then changed by any sequence of edge splits, face splits and face additions keeps a consistent halfedge structure: next/previous are mutually inverse and cycle through one face, every halfedge is in the sibling cycle of exactly its edge, starts at the head of its predecessor, its stored vertex, edge and face agree, every vertex and edge refers to one of its own halfedges, and element counts equal the elements iterated. The boundary of every face is the polygon it was given or derived from.",
  ["histories", "inputs"], "all polygon soups over few vertices times all sequences of operations with all arguments up to a depth",
  "One test splits one edge and one face of a fixed mesh.",
  [SM, "src/mesh/mesh_core_data.rs", "src/mesh/mesh.rs"], [("new, split_edge, split_face, add_face_by_halfedges, id-indexed arrays", SM)],
  ["Mesh trait queries", "element iterators"], [("he_next/he_prev/he_sibling/he_vertex_in_next...", "halfedge links", SM)])
p("C11", "Mesh neighbourhood iteration is complete, duplicate-free and correct",
  "On every reachable surface mesh, iterating the halfedges, vertices, edges and faces around a vertex, edge or face visits exactly the elements incident to it, each the documented number of times (halfedges around a vertex once each), and every iterator terminates. The elements reached by navigation (tip, tail, next, previous, sibling, twin orientation) agree with the polygons the mesh was built from.",
  ["histories", "inputs"], "all meshes reachable as in C10, all start elements, all iterator kinds",
  "Tests print or spot check a few circulations on one fixed mesh.",
  ["src/mesh/element/vertex.rs", "src/mesh/element/edge.rs", "src/mesh/element/face.rs", "src/mesh/element/halfedge.rs"], [("V*/E*/F* iterators", "src/mesh/element")], ["VertexIter.. FHIter, FVIter, EHIter, VVIter, VEIter, VIHIter, VOHIter"])
p("C12", "Mesh splits perform exactly the requested topological change",
  "Splitting an edge inserts one new vertex between its endpoints in every incident face boundary and changes nothing else; splitting a face at two of its vertices replaces it by two faces that share one new edge and together have the old boundary; adding a face over existing halfedge directions adds exactly that face to the incident edges. Returned element ids identify the new vertex, halfedge or face, and ids of untouched elements remain valid and unchanged.",
  ["histories", "inputs"], "all sequences of operations with all valid arguments up to a depth, on all small start meshes, compared with a plain polygon-list model",
  "One fixed split of each kind is exercised.",
  [SM], [("split_edge, split_face, add_face_by_halfedges", SM)], ["face boundary vertex cycles before and after each operation"])
p("C13", "Disjoint sets always equal the partition generated by the merges",
  "After any sequence of merges (including repeated, self and already-connected merges) two elements are reported in the same group exactly when they are connected by merged pairs; every element is reported in exactly one group and the group count equals the number of groups.",
  ["histories"], "all merge sequences up to a length on up to n elements",
  "No direct test exists.",
  ["src/disjoint_set/mod.rs"], [("new/merge/output/n_groups", "src/disjoint_set/mod.rs")], ["DisjointSet::output", "DisjointSet::n_groups"])
p("C14", "Push-relabel finds a minimum cut",
  "For every directed network with non-negative capacities, after the flow computation terminates the source is on the source side, the sink on the sink side, and the capacity of arcs leaving the reported source side equals the maximum flow value (it is a minimum cut). This holds with parallel, opposite, zero-capacity and isolated arcs, for any arc order, and for the two-terminal builder that adds source/sink capacities per node.",
  ["inputs", "histories"], "all small networks with small integer capacities, all arc orders, and structured larger families (paths, layered, grids)",
  "The only max-flow test prints 'haha' and asserts nothing.",
  ["src/graphcut/push_relabel_fifo.rs", "src/graphcut/mod.rs"], [("find_max_flow, discharge, global_relabel", "src/graphcut/push_relabel_fifo.rs"), ("ArcBuilder", "src/graphcut/mod.rs")], ["MaxFlow::is_sink"])
p("C15", "The augmenting-path graph cut returns the maximum flow and a minimum cut",
  "For every graph with non-negative terminal and edge capacities the augmenting-path graph-cut solver terminates, returns the value of the maximum flow, and classifies the nodes so that the cut it reports has exactly that capacity.",
  ["inputs", "histories"], "all small graphs with small integer (and dyadic) capacities, all edge insertion orders",
  "No test covers this solver at all.",
  ["src/graphcut/mod.rs"], [("max_flow, growth/augment/adoption", "src/graphcut/mod.rs")], ["GraphCut::max_flow", "GraphCut::is_sink", "GraphCut::flow"])
TT = "src/triangle/triangle.rs"
p("C16", "Triangulating points yields a Delaunay triangulation",
  "For every set of distinct 2D points that are not all collinear, triangulation without segments returns counter-clockwise, non-degenerate triangles whose interiors are disjoint, which cover exactly the convex hull, use every input point, and whose circumcircles contain no input point in their interior. Point sets with fewer than three points or all collinear give no triangles, and point order and cocircular or collinear ties never cause a failure.",
  ["inputs"], "all subsets and orderings of small integer grids, their scaled/rotated/ulp-perturbed images, and structured larger sets",
  "One test checks only the number of triangles for 10000 random points; degeneracies have probability zero there.",
  [TT], [("divide_and_conquer merge, mark_ghost", TT)], ["gpf::triangle::triangulate"])
p("C17", "Constrained triangulation keeps the segments and exactly the enclosed region",
  "For every planar straight-line graph of closed, non-crossing polygon boundaries (outer boundaries counter-clockwise, holes clockwise, possibly touching points and with extra points inside), constrained triangulation returns non-overlapping counter-clockwise triangles that cover exactly the enclosed region, contain every boundary segment as a union of triangle edges, and never cross a boundary. Extra points on a segment split it, extra points inside the region become vertices, and the order of points and segments does not change the covered region. A boundary that encloses nothing because all its points lie on one line yields no triangles, and a piece that is run through in both directions (a slit, a bridge to a hole, the common side of two boundaries) bounds nothing.",
  ["inputs"], "all simple polygons (with all simple holes) over small grids, every rotation/reordering of points and segments, with extra grid points",
  "No test triangulates with segments in 2D and checks the result; only the count for a segment-free set is asserted.",
  [TT], [("form_skeleton / segment insertion, flood fill of outside triangles", TT)], ["gpf::triangle::triangulate"])
p("C18", "Planar 3D polygons are triangulated completely with correct parents",
  "For every list of planar polygons in 3D (with holes, in any plane, given by oriented boundary edges and a plane frame), soup triangulation returns triangles that refer to the original points, lie in their polygon, cover it exactly with disjoint interiors and a consistent orientation, and reports for each triangle the polygon it came from. Triangulating a single polygon gives the same cover, including for vertices that appear in several edges and points unused by the polygon; polygons without edges or without area yield no triangles and do not disturb the others.",
  ["inputs"], "all small-grid polygons embedded in several planes and frames, in all orders of edges and polygons",
  "Only exercised through the mesh pipeline on fixed models, with no assertions.",
  [TT], [("triangulate_polygon, triangulate_polygon_soup", TT)], ["gpf::triangle::{triangulate_polygon,triangulate_polygon_soup}"])
TE = "src/triangle/tetrahedron.rs"
p("C19", "Tetrahedralization is a valid Delaunay tetrahedralization for any order",
  "For every set of distinct 3D points that are not all coplanar, and every random insertion order the builder can choose, the resulting non-ghost tetrahedra are non-degenerate, consistently oriented, have disjoint interiors, fill exactly the convex hull and use every point, and no point lies strictly inside the circumsphere of any tetrahedron, also for points that are very close together or nearly coplanar. Coplanar sets give no tetrahedra. Cospherical, coplanar and collinear ties never cause a failure.",
  ["inputs", "schedules"], "all small point sets (integer grid subsets, scaled and perturbed) times all insertion orders; structured larger sets",
  "One test checks that random points give more than zero tetrahedra, under one random order.",
  [TE], [("tetrahedralize, insert_vertex_bw, symbolic perturbation", TE)], ["gpf::triangle::tetrahedralize -> TetMesh.tets"], None, "guarded override of the random insertion order")
p("C20", "Tetrahedral mesh adjacency and navigation are consistent",
  "In every tetrahedral mesh produced, neighbour links are mutual and share exactly the same three vertices, every hull face borders exactly one ghost tetrahedron, the vertex-to-tetrahedron map gives a tetrahedron containing the vertex, and the oriented-face navigation (origin, destination, apex, opposite vertex, face and edge rotations, crossing to the neighbour and back, incident tetrahedra of a vertex) satisfies its algebraic laws for all faces and versions.",
  ["inputs", "schedules"], "all meshes of C19, all tets, all 12 face versions, all orders",
  "No test inspects adjacency or navigation.",
  [TE], [("TriFace tables, nei links, p2t, incident", TE)], ["TetMesh/TriFace public methods"], None, "guarded override of the random insertion order")
PO = "src/polygonlization/mod.rs"
p("C21", "Duplicate-point removal merges exactly the points that coincide",
  "Removing duplicates with a tolerance maps every input point to exactly one output point no further than the rounding grid's half cell in each coordinate, maps two input points to the same output exactly when they round to the same grid point, and returns pairwise distinct output points that are all used. With zero tolerance, points are merged exactly when their coordinates are equal and coordinates are unchanged.",
  ["inputs"], "all small multisets of points on, between and one ulp around grid boundaries, in all orders, for several tolerances",
  "Only indirectly executed.",
  [PO], [("remove_duplicates", PO)], ["gpf::polygonlization::remove_duplicates"])
p("C22", "Boolean union of closed triangle shells is watertight and exact",
  "For closed, consistently outward-oriented triangle shells (the triangles of one shell meeting only along edges and at corners) that may overlap, touch, contain or coincide with each other in any way, the produced triangle mesh is the boundary of the union of the shells' solids: every edge is balanced (watertight), triangles have three different corners (and positive area where the result's coordinates need no rounding) and face outward, and points off the surface are inside the output exactly when they are inside at least one shell. When vertices of the result have to be rounded to doubles the output stays watertight and points further than the rounding from the surface are classified correctly. Result geometry does not depend on shell or triangle order or on the builder's internal randomness (insertion order, hash order).",
  ["inputs", "schedules"], "all placements of small solids (boxes, tetrahedra, prisms, non-convex blocks) relative to each other on a small grid, shell orders, and several internal random seeds",
  "Tests run three models and write OBJ files without asserting anything about them.",
  ["src/polygonlization/bsp_complex.rs", "src/polygonlization/conforming_mesh.rs", PO], [("Constraints, BSPComplex::split_cell, complex_partition, merge_faces", "src/polygonlization")], ["gpf::polygonlization::make_mesh_for_triangles"], None, "guarded override of the random insertion order")
p("C23", "Polyhedral mesh from polygon faces encloses exactly the described solids",
  "For closed shells given as planar polygon faces (with holes, in any vertex/edge order, with near-duplicate points within the tolerance), the polyhedral mesh builder returns a watertight, outward-oriented triangle mesh that bounds the union of the solids described. A shell with a missing face still yields a watertight output; for a convex solid whose missing face is smaller than 0.45 of its other faces together, it is that solid.",
  ["inputs", "schedules"], "all placements of polygonal solids on a small grid, face and edge orders, duplicated points, one removed face",
  "Tests call it on two inputs without asserting the outcome.",
  ["src/polygonlization/bsp_complex.rs", PO, TT], [("make_polyhedral_mesh", PO)], ["gpf::polygonlization::make_polyhedral_mesh"], None, "guarded override of the random insertion order")
p("C24", "Constrained triangulations are constrained Delaunay",
  "For every planar straight-line graph of closed, non-crossing polygon boundaries with any extra points, every edge of the returned triangulation that is not part of a boundary segment is locally Delaunay: the point opposite to it on either side does not lie inside the circle through the triangle on the other side. This holds after any number of segments has been forced through the point set, in any order, also when a segment crosses many edges or runs through other points.",
  ["inputs"], "all simple polygons (with holes) over small grids with extra grid points, every pattern of points along a segment up to a length, every segment order",
  "No test checks the shape of any triangle.",
  [TT], [("constrained_edge, delaunay_fixup, flip", TT)], ["gpf::triangle::triangulate"])
p("C25", "Any triangle soup yields a watertight, consistently oriented solid",
  "For every list of triangles with shell numbers whose points are not all in one plane and of which at least one has area - open, with missing, doubled or inside-out triangles, self-crossing, unconnected, non-manifold, with unused points - building the triangle mesh terminates without failure and returns the boundary of a (possibly empty) bounded solid: every edge is balanced, no triangle is degenerate, the winding number is 1 just below and 0 just above every output triangle and 0 or 1 everywhere else, the output stays inside the input's bounding box, and the inside of every closed, outward-oriented shell among the others is inside the output.",
  ["inputs", "schedules"], "boxes with every combination of damaged faces, all triangle triples of a cube's corners, triangle pairs of small lattices, open and self-crossing solids, each with several insertion orders and seeds",
  "Tests only run closed models, and assert nothing about the result.",
  ["src/polygonlization/bsp_complex.rs", "src/polygonlization/conforming_mesh.rs", PO], [("virtual constraints, complex_partition (minimum cut), merge_faces", "src/polygonlization")], ["gpf::polygonlization::make_mesh_for_triangles"], None, "guarded override of the random insertion order")
p("C26", "Unions can be repeated: every result is a valid operand of the next union",
  "For every sequence of unions in which each step joins earlier results with further closed solids, with other results or with themselves, in any order and grouping and through either entry point, every intermediate and final result is watertight and outward facing and bounds the union of all the solids joined so far. Joining a result with itself, or passing it through alone, leaves the solid unchanged. (Where vertices of an intermediate result have to be rounded, points further than the rounding from the surfaces are classified correctly.)",
  ["inputs", "histories", "schedules"], "all sequences of unions of boxes, voxels and tetrahedra of a small lattice up to a depth, all groupings of four, with several insertion orders and placements",
  "No test feeds a result back in.",
  ["src/polygonlization/bsp_complex.rs", "src/polygonlization/conforming_mesh.rs", PO], [("complex_partition, merge_faces, final triangulation", "src/polygonlization")], ["gpf::polygonlization::{make_mesh_for_triangles,make_polyhedral_mesh}"], None, "guarded override of the random insertion order")
out = os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "properties.jsonl")
with open(out, "w") as f:
    for r in P:
        f.write(json.dumps(r) + "\n")
print(len(P), "properties")
