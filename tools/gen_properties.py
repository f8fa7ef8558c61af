"""Writes /verif/properties.jsonl (kept as code so that the statements are easy to edit and review)."""
import json, os
P = []
SRC = "src/gpytoolbox/"

def prop(id, title, statement, over, text, why, files, mech, **kw):
    assert len(title) <= 80, (id, len(title))
    d = dict(id=id, title=title, statement=statement,
             quantifier=dict(over=over, text=text), why_tests_cant=why,
             anchors=dict(files=[SRC + f for f in files],
                          mechanism=[dict(name=n, where=SRC + w) for n, w in mech], **kw))
    P.append(d)

prop("C01", "Edge and halfedge tables of a triangle mesh describe exactly its incidences",
 "For every oriented triangle list, the halfedge, edge, halfedge-to-edge-map, boundary-edge, interior-edge, non-manifold-edge and boundary-vertex tables that the library returns describe exactly the incidences of that list: every undirected edge appears once, boundary edges are those with exactly one incident halfedge (oriented as in it), interior ones have two or more, non-manifold ones more than two, and every index table points back at the edge or halfedge it claims to describe. "
 "The two tables an edge map returns are mutually inverse (halfedge to edge, edge to halfedges), with -1 marking the missing second halfedge.",
 ["inputs"], "every oriented triangle complex with up to 4 faces on up to 5 vertices (including boundary, closed, disconnected, inconsistently oriented and non-manifold ones)",
 "The tests check four hand-picked meshes (bunny, mountain, airplane, one triangle), nearly always only one output and only when the mesh is closed or entirely boundary; index outputs on meshes that mix boundary, interior and non-manifold edges are not reached.",
 ["halfedges.py","edges.py","edge_indices.py","halfedge_edge_map.py","boundary_edges.py","boundary_vertices.py","non_manifold_edges.py"],
 [("edge table with boundary/interior/non-manifold indices","edges.py:edges"),("halfedge/edge maps","halfedge_edge_map.py:halfedge_edge_map"),("boundary edges","boundary_edges.py:boundary_edges"),("non-manifold edges","non_manifold_edges.py:non_manifold_edges")])

prop("C02", "Adjacency, components and boundary loops agree with the mesh's graph",
 "For every triangle mesh the vertex adjacency matrix, the connected components, the triangle-triangle adjacency table and the boundary loops agree with the graph defined by the faces: adjacency is symmetric and 1 exactly on edges, two vertices (and two faces) share a component label exactly when a path joins them, neighbouring triangles and the local edges through which they meet are named mutually, and on manifold meshes the boundary loops traverse each boundary edge exactly once, in order and following orientation. "
 "When only non-existing neighbours are present, the documented -1 markers appear.",
 ["inputs"], "every oriented triangle complex with up to 4 faces on up to 5-6 vertices; boundary loops on all whose boundary is a disjoint union of simple loops",
 "Tests use one single triangle, two-triangle meshes, and spot meshes where only counts are compared; multi-loop, multi-component and mixed-orientation inputs are not enumerated.",
 ["adjacency_matrix.py","connected_components.py","triangle_triangle_adjacency.py","boundary_loops.py"],
 [("adjacency","adjacency_matrix.py:adjacency_matrix"),("components","connected_components.py:connected_components"),("face adjacency","triangle_triangle_adjacency.py:triangle_triangle_adjacency"),("loops","boundary_loops.py:boundary_loops")])

prop("C03", "Tetrahedral face tables are complete, oriented and identify the boundary",
 "For every tetrahedral mesh, the half-face, face and boundary-face tables list every triangle of every tetrahedron with the outward orientation of its tet, each undirected face once, boundary faces exactly those belonging to a single tet, and the interior and non-manifold index lists exactly the faces with two or more, respectively more than two, incidences. "
 "For a consistently oriented manifold mesh the boundary faces form a closed, outward-oriented surface that encloses the sum of the signed tet volumes.",
 ["inputs"], "every set of up to 4 tetrahedra on up to 6 vertices, every vertex order within a tet",
 "Tests look at one regular cube mesh; boundary/interior mixtures, non-manifold face sharing and mirrored orientations are never reached.",
 ["halffaces.py","faces.py","boundary_faces.py"],
 [("half-faces","halffaces.py:halffaces"),("faces","faces.py:faces"),("boundary faces","boundary_faces.py:boundary_faces")])

prop("C04", "Index surgery preserves the geometry it re-indexes",
 "Removing unreferenced vertices, merging duplicate vertices, and looking up array correspondences preserve what the indices denote: after each operation every element refers to the same (within the merge tolerance) positions as before, the returned forward and backward maps compose as documented, no unreferenced (respectively duplicate) vertex remains, and a correspondence entry is an index of an equal row exactly when one exists and -1 otherwise.",
 ["inputs"], "every point list with up to 5 rows over a small coordinate alphabet (with duplicates, near-duplicates and either sign of zero) and every simplex list with up to 3 elements of each simplex size on it",
 "Tests use random arrays and a couple of meshes; the collisions that matter (several duplicates, repeated rows on both sides, all unreferenced, empty operands) are rarely or never sampled.",
 ["remove_unreferenced.py","remove_duplicate_vertices.py","array_correspondence.py"],
 [("drop unreferenced","remove_unreferenced.py:remove_unreferenced"),("merge duplicates","remove_duplicate_vertices.py:remove_duplicate_vertices"),("row lookup","array_correspondence.py:array_correspondence")])

prop("C05", "Cutting a mesh along edges separates exactly the corners the cut separates",
 "For every triangle mesh and every set of edges, cutting returns a mesh with the same faces in the same order and an index list mapping each new vertex to its original, such that two triangle corners at the same original vertex get the same new vertex exactly when a fan of triangles around that vertex joins them without crossing a cut (or non-existing) edge. "
 "Edges that are not cut stay connected, nothing else is merged, and no unreferenced vertex is created.",
 ["inputs"], "every manifold oriented complex with up to 4 faces on up to 6 vertices (and closed surfaces with more) times every subset of its edges, each edge in either direction",
 "The tests cut a two-triangle mesh, an icosphere and the bunny along one chosen set each; they check counts of components, not the corner partition.",
 ["cut_edges.py"],[("corner union","cut_edges.py:cut_edges")])

prop("C06", "Subdivision refines the surface consistently, iteration by iteration",
 "Subdividing a triangle mesh or polyline n times equals applying one subdivision n times; every face is replaced by four faces (every segment by two) covering the same surface with the same orientation, every edge gets exactly one new vertex shared by its incident faces, and the returned matrix maps the old positions to the new positions. "
 "Upsampling leaves the old vertices in place and inserts exact edge midpoints; Loop subdivision applies the documented Loop weights in the interior and on the boundary, and its matrix rows sum to one.",
 ["inputs","histories"], "every manifold complex with up to 4 faces on up to 6 vertices and all polylines with up to 4 segments, with every iteration count up to 3, both methods, with and without positions",
 "Tests subdivide single triangles and the bunny once; composition over iterations, multi-component or mixed boundary/interior meshes and the returned matrix are compared only there.",
 ["subdivide.py"],[("subdivision","subdivide.py:subdivide"),("Loop stencil","subdivide.py:_loop_triangle_mesh")])

prop("C07", "Discrete exterior calculus operators form a complex with exact Hodge inverses",
 "On every manifold oriented triangle mesh the discrete exterior derivatives are exactly the signed incidence matrices (so applying them in succession gives zero), each Hodge star is the diagonal matrix of its documented weight (third of the incident area, summed cotangent weight, face area), and each inverse star times its star is the identity wherever the weight is non-zero. "
 "Intrinsic (edge-length) and extrinsic (position) forms, and forms given a precomputed edge table, agree.",
 ["inputs"], "every manifold oriented complex with up to 4 faces on up to 6 vertices with positions from a small integer grid in 2D and 3D, with and without optional arguments",
 "Each Hodge star is tested on one equilateral triangle only, where summing or inverting over several incident faces is invisible.",
 ["dec_d0.py","dec_d1.py","dec_h0.py","dec_h0inv.py","dec_h1.py","dec_h1inv.py","dec_h2.py","dec_h2inv.py","dec_h0_intrinsic.py","dec_h0inv_intrinsic.py","dec_h1_intrinsic.py","dec_h1inv_intrinsic.py","dec_h2_intrinsic.py","dec_h2inv_intrinsic.py"],
 [("exterior derivatives","dec_d1.py:dec_d1"),("inverse 0-star","dec_h0inv_intrinsic.py:dec_h0inv_intrinsic"),("1-star","dec_h1_intrinsic.py:dec_h1_intrinsic")])

prop("C08", "Gradient, Laplacian and mass matrices are exact for piecewise-linear functions",
 "For every non-degenerate triangle mesh (and polyline where supported), the gradient operator reproduces the gradient of every linear function exactly on every face, the cotangent Laplacian is symmetric, annihilates constants and equals the Dirichlet form assembled from the gradient and face areas, and the mass matrix (barycentric, Voronoi or full) is symmetric with total mass equal to the total area (length). "
 "Intrinsic and extrinsic constructions agree up to a rotation of the face frame, and results do not depend on the order of the faces or on which corner of a face is listed first.",
 ["inputs"], "all non-degenerate triangles on a small integer grid in 2D/3D, all two- to four-face manifold complexes with grid positions, all polylines of up to 3 grid segments; every basis function",
 "Tests compare to stored matrices of a single triangle or the bunny; obtuse/acute/right cases per corner, unreferenced vertices and mixed-face meshes are not enumerated.",
 ["grad.py","grad_intrinsic.py","cotangent_weights.py","cotangent_weights_intrinsic.py","cotangent_laplacian.py","cotangent_laplacian_intrinsic.py","massmatrix.py","massmatrix_intrinsic.py"],
 [("gradient","grad.py:grad"),("intrinsic gradient","grad_intrinsic.py:grad_intrinsic"),("cotan weights","cotangent_weights_intrinsic.py:cotangent_weights_intrinsic"),("Voronoi mass","massmatrix_intrinsic.py:massmatrix_intrinsic")])

prop("C09", "Lengths, areas, angles, normals and volumes equal their exact geometric values",
 "Halfedge lengths, (double) areas, signed 2D areas, signed tet volumes, tip angles, barycenters, per-face and per-vertex normals, angle defects and dihedral angles equal the exact geometric quantity for every simplex, are indexed by the documented corner/edge convention and behave correctly under translation, reorientation and relabelling. "
 "Tip angles of each triangle sum to pi and angle defects obey Gauss-Bonnet on every closed mesh.",
 ["inputs"], "all segments/triangles/tets with vertices on a small integer grid in 2D and 3D (degenerate ones where the quantity is defined), and all small manifold complexes with grid positions",
 "Tests compare with stored values for one or two meshes; per-corner conventions, orientation flips and degenerate shapes are sampled at most once.",
 ["halfedge_lengths.py","halfedge_lengths_squared.py","doublearea.py","doublearea_intrinsic.py","volume.py","tip_angles.py","tip_angles_intrinsic.py","angle_defect.py","angle_defect_intrinsic.py","per_face_normals.py","per_vertex_normals.py","dihedral_angles.py","barycenters.py"],
 [("areas","doublearea.py:doublearea"),("angles","tip_angles_intrinsic.py:tip_angles_intrinsic"),("defects","angle_defect_intrinsic.py:angle_defect_intrinsic"),("normals","per_face_normals.py:per_face_normals"),("dihedrals","dihedral_angles.py:dihedral_angles")])

prop("C10", "Smoothness and elastic energies are symmetric, PSD, with the right null space",
 "The biharmonic (mixed finite element and Hessian) and linear-elastic energy matrices are symmetric positive semidefinite for every mesh; the mixed biharmonic energy is exactly Laplacian times inverse mass times Laplacian and vanishes on constants, the Hessian energy of a flat mesh vanishes on all linear functions, and the elastic energy vanishes on all infinitesimal rigid motions and scales with the material parameters as documented. "
 "A linear-elasticity time step with no force and a mesh at rest leaves the mesh at rest, and pinned vertices move exactly as prescribed, and the stress it reports is the (plane-stress) von Mises stress of the displacement it returns.",
 ["inputs","configurations"], "all small manifold planar complexes with grid positions, all boundary-condition modes that do not need the compiled extension, all material parameter combinations of a small alphabet, all subsets of pinned vertices",
 "Tests check one stored bunny matrix and one no-force simulation; the null-space identities on varied topologies and materials are untested.",
 ["biharmonic_energy.py","biharmonic_energy_intrinsic.py","linear_elasticity_stiffness.py","linear_elasticity.py"],
 [("mixed FEM","biharmonic_energy_intrinsic.py:biharmonic_energy_intrinsic"),("Hessian energy","biharmonic_energy.py:_hessian_energy"),("stiffness","linear_elasticity_stiffness.py:linear_elasticity_stiffness")])

prop("C11", "Every sequence of quadtree/octree subdivisions keeps all tree tables consistent",
 "Starting from any root cell, after any sequence of subdivisions (graded or ungraded) the tree's parent, child, depth, cell-centre, cell-width and adjacency tables remain mutually consistent: children tile their parent exactly, parents and children name each other, depths and widths follow the parent, leaves tile the root without overlap, and the adjacency table records direction by direction exactly which cells touch. "
 "In graded mode neighbouring leaves never differ by more than one level, and building a tree from points subdivides every cell holding points down to the requested depth.",
 ["histories","inputs"], "every sequence of leaf subdivisions up to a depth/length bound in 2D and 3D, graded and ungraded, and every placement of up to 3 points on a small lattice with every depth bound",
 "Tests subdivide a few random trees and check children widths; they do not compare the adjacency table with geometry over all histories.",
 ["subdivide_quad.py","initialize_quadtree.py"],
 [("subdivision with adjacency update","subdivide_quad.py:subdivide_quad"),("construction","initialize_quadtree.py:initialize_quadtree")],
 state=[dict(name="tree tables", meaning="parent, children, depth, centre, width and direction-coded adjacency of every cell")])

prop("C12", "Quadtree queries return exactly the cells, leaves and boundary the tree defines",
 "For every reachable quadtree/octree, the point-location query returns the leaf that contains the point (and reports when none does), the children query returns exactly the leaf cells, the boundary query returns exactly the cells (leaves and all cells separately) that have no neighbour in some direction, i.e. touch the root's boundary, and the extracted mesh has one quadrilateral (hexahedron) per leaf with exactly that leaf's corners and shares coinciding corners.",
 ["histories","inputs"], "every tree reached by a bounded sequence of graded or ungraded subdivisions in 2D and 3D; every query point of a lattice finer than the leaves, including outside the root",
 "Tests use a handful of random trees and check only membership of random points.",
 ["in_quadtree.py","quadtree_children.py","quadtree_boundary.py","bad_quad_mesh_from_quadtree.py"],
 [("point location","in_quadtree.py:in_quadtree"),("leaves","quadtree_children.py:quadtree_children"),("boundary","quadtree_boundary.py:quadtree_boundary"),("mesh","bad_quad_mesh_from_quadtree.py:bad_quad_mesh_from_quadtree")])

prop("C13", "Quadtree finite differences are consistent on every graded tree",
 "On every graded quadtree, the gradient and Laplacian stencils combine each leaf with, per direction, its equal-size or coarser neighbouring leaf or the average of its two finer ones, at the distance of the centres, one-sided where a direction has no neighbour. "
 "Hence both annihilate constants at every leaf, the gradient differentiates each coordinate along its own axis exactly, it is exact for all linear functions where no neighbour is coarser, the Laplacian annihilates linear functions and is exact for x^2 and y^2 at every leaf away from the boundary whose neighbours have equal size, and on uniform trees it is the classical five-point stencil.",
 ["inputs","histories"], "every graded tree reached by a bounded sequence of subdivisions; the basis of constant, linear and quadratic functions",
 "Tests measure convergence of one smooth function on one sequence of trees.",
 ["quadtree_gradient.py","quadtree_laplacian.py"],
 [("gradient stencil","quadtree_gradient.py:quadtree_gradient"),("Laplacian stencil","quadtree_laplacian.py:quadtree_laplacian")])

prop("C14", "AABB trees partition the elements, bound them, and are traversed soundly",
 "For every point cloud, polyline or triangle list, the bounding-volume tree has each element in exactly one leaf, parents and children naming each other with depths increasing by one, and every node's box is exactly the bounding box of the elements below it. "
 "Traversing it visits each reachable node exactly once, skips exactly the subtrees the caller's callback rejects, and honours the caller's queueing order.",
 ["inputs","schedules"], "every list of up to 5 points / 4 segments / 3 triangles over a small grid (with coincident ones), and every accept/reject answer sequence of the traversal callback on the resulting trees",
 "Tests check a few random trees for containment; coincident centroids, single elements, and the traversal's answer space are not enumerated.",
 ["initialize_aabbtree.py","traverse_aabbtree.py"],
 [("tree construction","initialize_aabbtree.py:initialize_aabbtree"),("traversal","traverse_aabbtree.py:traverse_aabbtree")])

prop("C15", "Point-to-element and point-to-mesh distances are the exact minimum",
 "The squared distance from a query point to a point, segment or triangle (degenerate ones included), and to a whole point cloud, polyline or mesh, equals the exact minimum over the element or mesh; the returned closest-element index attains it, the returned barycentric coordinates are valid (nonnegative, summing to one) and describe a point that attains it. "
 "Using the bounding-volume tree or not, a precomputed tree or a fresh one, one query at a time or batched, makes no difference; barycentric coordinates of a point reproduce that point's projection.",
 ["inputs","configurations"], "all elements with vertices on a small grid in 2D and 3D times all query points of a surrounding half-integer lattice; all clouds/polylines/meshes with up to 4 such elements; every option combination",
 "Tests use random elements with random points: vertex/edge/face regions' boundaries, degenerate elements and ties have measure zero there.",
 ["squared_distance.py","squared_distance_to_element.py","barycentric_coordinates.py"],
 [("element distance","squared_distance_to_element.py:squared_distance_to_element"),("tree search","squared_distance.py:squared_distance"),("barycentric","barycentric_coordinates.py:barycentric_coordinates")])

prop("C16", "Element-element, mesh-mesh and Hausdorff distances are exact and symmetric",
 "The distance between two segments and between two triangles (crossing, touching, parallel, coplanar or far apart) equals the exact minimum over all point pairs, is zero exactly when they intersect, is symmetric in its arguments and is attained by the returned pair of points where one is returned. "
 "The minimum distance between two meshes is the minimum over element pairs, and the sampled Hausdorff distance of identical meshes is zero, is symmetric, and equals the vertex-sampled definition.",
 ["inputs"], "all pairs of segments and a symmetry-reduced exhaustive set of triangle pairs with vertices on small integer grids in 2D/3D; all pairs of small meshes of such elements",
 "Tests use a few synthetic pairs; parallel, coplanar, edge-edge and contained configurations are hardly reached.",
 ["edge_edge_distance.py","triangle_triangle_distance.py","minimum_distance.py","approximate_hausdorff_distance.py"],
 [("segment pair","edge_edge_distance.py:edge_edge_distance"),("triangle pair","triangle_triangle_distance.py:triangle_triangle_distance"),("mesh pair","minimum_distance.py:minimum_distance"),("Hausdorff","approximate_hausdorff_distance.py:approximate_hausdorff_distance")])

prop("C17", "Ray queries report the first hit, its parameter and location, or none",
 "For every ray and every box, triangle, polyline or triangle mesh, the intersection query reports a hit exactly when the ray meets the object at a nonnegative parameter, returns the first such parameter, the point on both the ray and the object, and the element (and barycentric coordinates) that contains it, and reports the documented miss markers otherwise. "
 "The answer for a mesh is the nearest among its elements, independent of element order.",
 ["inputs"], "all rays from a lattice of origins in all lattice directions against all boxes, triangles, polylines and meshes of a small grid, excluding only exactly tangential configurations whose answer is convention",
 "Tests shoot a few rays at a box, a square and random triangles; rays through shared vertices and edges, parallel rays, origin inside or on the object, and reversed order are not enumerated.",
 ["ray_box_intersect.py","ray_triangle_intersect.py","ray_polyline_intersect.py","ray_mesh_intersect.py"],
 [("box slab test","ray_box_intersect.py:ray_box_intersect"),("triangle test","ray_triangle_intersect.py:ray_triangle_intersect"),("polyline test","ray_polyline_intersect.py:ray_polyline_intersect")])

prop("C18", "Signed distance to a polygon has exact magnitude and the inside/outside sign",
 "For every simple closed polygon and query point, the signed distance has magnitude equal to the exact distance to the polygon and is negative exactly inside and positive exactly outside, whichever vertex the polygon starts at (the general function for counter-clockwise polygons, since it takes its sign from the winding number; the polygon-specific one for either orientation); the unsigned distance is its absolute value. "
 "The winding number of a closed oriented polygon collection at any point off the curve equals its exact integer turning count, flips sign with orientation and adds over unions.",
 ["inputs"], "every simple polygon with up to 6 vertices on a small integer grid, either orientation and any start, times every lattice and half-lattice query point off the curve",
 "Tests compare with a square or circle at random points; queries aligned with vertices or edges, concave polygons and reversed orientation are measure-zero for random sampling.",
 ["signed_distance_polygon.py","winding_number.py","signed_distance.py","unsigned_distance.py"],
 [("polygon sdf","signed_distance_polygon.py:signed_distance_polygon"),("winding number","winding_number.py:winding_number"),("2D signed distance","signed_distance.py:signed_distance")])

prop("C19", "Marching squares separates positive from negative grid values exactly",
 "For every grid of scalar values, the extracted polyline crosses every grid edge whose end values lie on different sides of zero exactly once, at the linearly interpolated position, and no other edge (a value of exactly zero counts as non-positive); no duplicate vertex is produced and none is unused unless a curve shrinks to it, every interior crossing is shared by the two cells next to it, so curves close or end only at the grid boundary, and every segment is oriented with the same side on its left; either resolution of a saddle cell is accepted.",
 ["inputs"], "every assignment of values from alphabets of 2 to 5 values (negative, zero, positive) to grids of up to 4x4, 5x3 nodes, with shifted, anisotropic and tiny spacings",
 "Tests contour one circle and one empty field; ambiguous saddle cells, values exactly on the isovalue and curves that leave the grid are never reached.",
 ["marching_squares.py"],[("contouring","marching_squares.py:marching_squares")])

prop("C20", "Grid finite-difference and interpolation matrices are exact stencils",
 "On every regular grid the partial derivative and gradient matrices are the exact staggered differences of neighbouring grid values, hence exact for linear functions on every axis and spacing, and the interpolation matrix has nonnegative rows summing to one supported on the containing cell, reproduces every (multi)linear function exactly and returns grid values at grid nodes. "
 "The Laplacian eigenfunctions returned for a grid are the distinct lowest Neumann cosine modes in nondecreasing order, and matrices built from a two-point function hold exactly the function's values on the requested sparsity pattern.",
 ["inputs"], "all grid sizes up to 4 (3 in 3D) per axis, anisotropic dyadic spacings, shifted corners, every interpolation point on a lattice refining the grid; all mode counts up to a bound",
 "Tests use large square grids with smooth functions and check convergence rates only, so axis mix-ups on anisotropic grids or wrong last-cell weights can pass.",
 ["fd_partial_derivative.py","fd_grad.py","fd_interpolate.py","grid_laplacian_eigenfunctions.py","matrix_from_function.py"],
 [("difference","fd_partial_derivative.py:fd_partial_derivative"),("gradient","fd_grad.py:fd_grad"),("interpolation","fd_interpolate.py:fd_interpolate"),("modes","grid_laplacian_eigenfunctions.py:grid_laplacian_eigenfunctions")])

prop("C21", "Regular grid meshes and neighbour tables tile the grid exactly",
 "For all grid sizes, the regular square mesh tiles [-1,1]^2 and the cube mesh the unit cube: all elements are positively oriented, non-degenerate, meet edge to edge (face to face; the five-tetrahedra scheme inside each cell only), cover exactly the total area/volume with the expected element counts, and use every grid vertex. "
 "The grid neighbour table lists for every cell exactly the cells reachable by at most as many unit steps (with or without diagonal steps) as the requested order, with -1 exactly where a neighbour would fall outside the grid.",
 ["inputs","configurations"], "every grid size up to 5 per axis (3 in 3D), every mesh type, every combination of neighbour options, orders up to 3",
 "Tests use square grids of a few sizes; anisotropic and minimal sizes with every option are not covered.",
 ["regular_square_mesh.py","regular_cube_mesh.py","grid_neighbors.py"],
 [("square mesh","regular_square_mesh.py:regular_square_mesh"),("cube mesh","regular_cube_mesh.py:regular_cube_mesh"),("neighbours","grid_neighbors.py:grid_neighbors")])

prop("C22", "Primitive generators return valid, outward-oriented surfaces at any resolution",
 "At every resolution, the icosphere, cone, cylinder, torus and circle generators return meshes without duplicate or unreferenced vertices or degenerate elements, edge-manifold and consistently outward oriented, with the right Euler characteristic and boundary, and with every vertex exactly on the ideal surface of the requested dimensions.",
 ["configurations"], "every resolution up to a bound (and iteration count up to 3), several radii/heights",
 "Tests try one or a few random resolutions and mostly check vertex positions.",
 ["icosphere.py","cone.py","cylinder.py","torus.py","regular_circle_polyline.py"],
 [("icosphere","icosphere.py:icosphere"),("cone","cone.py:cone"),("cylinder","cylinder.py:cylinder"),("torus","torus.py:torus"),("circle","regular_circle_polyline.py:regular_circle_polyline")])

prop("C23", "Constrained quadratic minimisation returns the exact constrained optimum",
 "For every solvable small problem, quadratic minimisation with fixed entries and linear equality constraints, and the linear solve with fixed unknowns, return the point that satisfies every fixed value and constraint and is stationary, whichever entries are fixed and in whatever order, and whichever optional data (linear term, fixed values, right-hand sides) are given, as vectors or as matrices with several columns. "
 "A precomputed solver gives the same answer as the direct one for every sequence of different right-hand sides and fixed values it is asked to solve.",
 ["inputs","histories","configurations"], "all integer symmetric matrices of a small alphabet up to 3x3, all subsets and orders of fixed entries, all constraint rows of a small alphabet, all presence/absence and shape choices of optional arguments, all solve sequences up to length 3",
 "Tests use random large systems with random fixed indices; optional-argument combinations, reuse histories and duplicate/edge cases are not enumerated.",
 ["min_quad_with_fixed.py","fixed_dof_solve.py"],
 [("quadratic solve","min_quad_with_fixed.py:min_quad_with_fixed"),("precompute","min_quad_with_fixed.py:min_quad_with_fixed_precompute"),("linear solve","fixed_dof_solve.py:fixed_dof_solve")])

prop("C24", "Sparse (L1/group) minimisation attains the true optimum under its constraints",
 "For every small problem, minimising the quadratic plus L1 (or grouped L1) term with fixed entries and equality constraints returns a point that satisfies the constraints and whose objective is not larger than at any other feasible point, up to the solver tolerance; without a sparse term it agrees with the quadratic solver. This holds for either solver: the conic program handed to MOSEK has the same optimum, MOSEK licensing problems fall back on SCS unless MOSEK was asked for, other errors reach the caller, and nothing but an optimal solution is returned.",
 ["inputs","configurations","fault_sequences"], "all problems with up to 3 unknowns over a small integer alphabet for every optional-argument combination; the optimum enumerated exactly over all sign patterns; every MOSEK error code at every API call of four problems, every solution status",
 "Tests compare reconstruction of a few random signals.",
 ["min_l1_with_fixed.py"],[("conic program","min_l1_with_fixed.py:min_l1_with_fixed")])

prop("C25", "Meshes survive writing and reading, and the text reader accepts any valid layout",
 "Writing a mesh as OBJ with the pure-Python backend and reading it back returns the same vertices, faces, texture coordinates, normals and their indices. "
 "Reading any OBJ text whose lines follow the grammar (positive indices) returns exactly the listed vertices and faces (zero-based, -1 for an absent texture or normal index), whatever face layout (v, v/vt, v//vn, v/vt/vn), comments, blank lines, extra whitespace, line endings or unsupported statements it contains and in whatever order they come.",
 ["inputs","programs"], "every mesh with up to 3 vertices/2 faces over a coordinate alphabet with every subset of attributes; every OBJ file of up to 4 lines over a line alphabet (every statement type, comments, blank, odd whitespace, quotes, CRLF)",
 "Tests round-trip stored files written by other programs; the space of line interleavings and layouts is not enumerated.",
 ["read_mesh.py","write_mesh.py"],
 [("OBJ reader","read_mesh.py:_read_obj"),("OBJ writer","write_mesh.py:_write_obj")])

prop("C26", "Matrix files are read exactly or rejected, never silently truncated",
 "Reading a DMAT file, ascii or binary, returns exactly the column-major matrix it stores for every size, and a file that is truncated, has a wrong header or lacks data raises an error instead of returning a matrix with made-up or missing entries. Coefficients may be separated by any whitespace.",
 ["inputs","fault_sequences"], "every matrix shape up to 3x3 over a value alphabet in both encodings, and every byte/token truncation point of each such file",
 "The one test reads a single valid ascii file; no test reads a binary or a damaged file.",
 ["read_dmat.py"],[("DMAT reader","read_dmat.py:read_dmat")])

prop("C27", "Stochastic search keeps its invariants under every random outcome",
 "Whatever the random generator answers, particle swarm optimisation evaluates only points within the bounds, returns the best point it evaluated together with its objective value, and never gets worse with more iterations, for both topologies; the Metropolis-Hastings sampler returns the requested number of samples, each next sample is the proposal if its density ratio beats the random draw and a repetition of the current sample otherwise, and the density values returned match the samples.",
 ["fault_sequences","histories"], "every sequence of answers of the random generator over a small answer alphabet (including the extreme draws) for runs of a few particles and iterations",
 "Tests run long random chains and check statistics; individual acceptance decisions and extreme draws are not observable there.",
 ["particle_swarm.py","metropolis_hastings.py"],
 [("swarm update","particle_swarm.py:particle_swarm"),("acceptance","metropolis_hastings.py:metropolis_hastings")])

prop("C28", "Random surface points lie on their element with length/area-proportional choice",
 "Whatever the random generator answers, every sampled point lies on the element reported for it with nonnegative barycentric coordinates summing to one that reproduce the point, elements of zero measure are never chosen, the set of draws that selects an element has measure proportional to its length/area times its weight, and points are uniform within an element.",
 ["fault_sequences","inputs"], "every generator answer over a fine lattice of draws including both extremes, for every polyline/mesh of up to 3 elements on a small grid, with and without weights",
 "Tests compare histograms of many random draws with wide tolerances.",
 ["random_points_on_mesh.py"],[("sampling","random_points_on_mesh.py:random_points_on_mesh")])

prop("C29", "Kernels, their derivatives and Gaussian-process predictions are consistent",
 "The covariance kernels are symmetric and depend on their scale parameters as documented, each requested partial derivative is the derivative of the value (with the right sign for the second argument), and compactly supported ones are continuous and vanish outside their support. "
 "Gaussian-process means and covariances equal the textbook conditional formulas, identically through the direct, precomputed, repeated and inducing-point interfaces.",
 ["inputs","histories","configurations"], "all pairs of lattice points incl. breakpoints of the support, all derivative index pairs in 1-3D, all training sets of up to 3 lattice points, all predict sequences up to length 2",
 "Tests check convergence of derivatives at random points, which miss the piecewise breakpoints, and fit one straight line.",
 ["squared_exponential_kernel.py","compactly_supported_normal.py","compactly_supported_normal_kernel.py","gaussian_process.py"],
 [("SE kernel","squared_exponential_kernel.py:squared_exponential_kernel"),("compact kernel","compactly_supported_normal.py:compactly_supported_normal"),("GP","gaussian_process.py:gaussian_process_precompute")])

prop("C30", "Splines, skinning, rotations, normalisation and colour maps meet their contracts",
 "Catmull-Rom splines pass through their control points at equally spaced parameters with central-difference tangents (one-sided at the ends), linear blend skinning applies exactly the weighted affine transforms, the rotation between two vectors is a proper rotation taking one direction to the other for every pair (parallel and opposite included), point normalisation brings every cloud into the unit box by a similarity and returns a new array, and colour maps return valid colours (0 to 255) that follow the ColorBrewer schemes, the requested number of colours and the given value range, also for constant values and logarithmic scales.",
 ["inputs","configurations"], "all control polygons of up to 5 lattice points with a parameter lattice; all weight/handle combinations of a small alphabet; all ordered pairs of lattice directions in 2D/3D; all clouds of up to 3 lattice points; all colormap names and sizes",
 "Tests use random vectors, so parallel/opposite directions never occur, and single curves.",
 ["catmull_rom_spline.py","linear_blend_skinning.py","rotation_matrix_from_vectors.py","normalize_points.py","colormap.py","apply_colormap.py"],
 [("spline","catmull_rom_spline.py:catmull_rom_spline"),("skinning","linear_blend_skinning.py:linear_blend_skinning"),("rotation","rotation_matrix_from_vectors.py:rotation_matrix_from_vectors"),("normalisation","normalize_points.py:normalize_points")])

prop("C31", "Every function is a pure function of its arguments, in any call order",
 "No function of the library changes the arrays, matrices, lists or trees passed to it, or any global state other than the random generator it draws from; calling any function after any other (or after itself, or with results of earlier calls modified by the caller) gives exactly the result a fresh process gives, and the same values stored in another memory layout, integer width or read-only array give the same result.",
 ["histories","configurations"], "every ordered pair (and self-triple) of a catalogue of calls covering all pure-Python functions, and every memory-layout/integer-width/read-only representation of each call's array arguments",
 "Each test calls one function on freshly made arrays and looks only at its output.",
 ["normalize_points.py","subdivide_quad.py","cut_edges.py","remove_unreferenced.py","min_quad_with_fixed.py","squared_distance.py"],
 [("in-place normalisation","normalize_points.py:normalize_points"),("in-place tree update","subdivide_quad.py:subdivide_quad"),("stored problem data","min_quad_with_fixed.py:min_quad_with_fixed_precompute")])

prop("C32", "Compiled-extension algorithms (remeshing, booleans, decimation, 3D contouring)",
 "Mesh booleans, decimation, isotropic remeshing, lazy cages, swept volumes, fast winding numbers, 3D marching cubes, dual contouring and reconstruction from signed distances return valid meshes that satisfy their contracts for all inputs.",
 ["inputs"], "all small input meshes",
 "Tests use a few stored meshes.",
 ["decimate.py","remesh_botsch.py","marching_cubes.py","fast_winding_number.py","reach_for_the_spheres.py","copyleft/mesh_boolean.py"],
 [("remeshing","remesh_botsch.py:remesh_botsch"),("booleans","copyleft/mesh_boolean.py:mesh_boolean")])

prop("C33", "Wrappers of compiled algorithms ask for the right thing and honour every answer",
 "For every input and option, what each wrapper hands to the compiled extension means the same geometry, trajectory, target count, options and files the caller gave (in the types the extension takes), and for every answer the extension may give, the wrapper returns what that answer means in the documented order and form, or raises: "
 "remeshing keeps the mesh while putting feature and boundary vertices first, swept volumes compose scale, rotation and translation with proper rotations, lazy cages return the tightest cage that was found to be free of intersections, distances carry barycentric coordinates that reproduce the closest points and precomputed trees answer like fresh ones, unusable inputs are refused before any work, every error code of the file readers and writers is reported.",
 ["inputs","configurations","fault_sequences"], "every answer sequence of a stubbed extension (each listed outcome, error code or reference answer) for every small mesh, option combination, trajectory of up to 4 keyframes and file request of the bound",
 "The extension is absent or, where present, always answers well on the few stored meshes; error answers and unusual answers never occur in tests.",
 ["remesh_botsch.py","swept_volume.py","decimate.py","lazy_cage.py","copyleft/mesh_boolean.py","squared_distance.py","read_mesh.py","write_mesh.py","reach_for_the_arcs.py","dual_contouring.py"],
 [("remeshing","remesh_botsch.py:remesh_botsch"),("trajectory","swept_volume.py:swept_volume"),("cage search","lazy_cage.py:lazy_cage"),("distance","squared_distance.py:squared_distance"),("files","read_mesh.py:read_mesh"),("reconstruction","reach_for_the_arcs.py:reach_for_the_arcs")])

prop("C34", "Stochastic Poisson reconstruction equals the formulas it implements",
 "On any grid that encloses the samples, the mean field of stochastic Poisson surface reconstruction solves the regularised Poisson equation whose right-hand side is the divergence of the Gaussian-process posterior of the normals (with prior, noise and density weights), has zero average at the samples, and the variance is the exact marginal of the transformed posterior covariance up to the documented shift, for every number of samples (one included), spacing, grid shape and dimension; the default grid encloses the samples wherever they lie; sampled circles are negative inside and positive outside.",
 ["inputs","configurations"], "every single sample and pair of samples of a lattice of in-cell offsets on every grid shape of a catalogue (isotropic and anisotropic spacings, off-origin corners, 2D and 3D), rings of up to 8 samples with every combination of noise, scale, prior, subspace and verbosity",
 "Tests reconstruct stored shapes on isotropic origin-centred grids and look at signs; the sparse shortcuts are never compared with the formulas.",
 ["stochastic_poisson_surface_reconstruction.py"],
 [("posterior","stochastic_poisson_surface_reconstruction.py:stochastic_poisson_surface_reconstruction")])

prop("C35", "Reach for the Spheres stays valid and follows its flow at every iteration",
 "Every iteration of reach_for_the_spheres moves the curve or mesh by the implicit step towards tangency with the spheres of the samples, whatever the start, the shape, the sampling and the options (time step or line search, bounds on it, tolerance, clamping, bounds inside, inside/outside test, fixed boundary, batches), stops exactly when every sample is within tolerance or the iteration limit is reached, and leaves its inputs unchanged; remeshing keeps the curve a manifold of the same topology lying on the flowed curve, with satisfied or inactive parts kept; "
 "the length target never grows; one call, single steps and steps resumed from a copied state agree; curves that already fit are returned as they are; round shapes end up tangent to every sample with the inside inside; resampling keeps the given samples.",
 ["inputs","histories","configurations"], "every combination of starts (closed, two-component, open curves; small closed meshes), shapes, sample lattices and option sets of a catalogue, every state of the histories up to 25 iterations, with the compiled closest-point query and remesher replaced by reference answers",
 "No test of it runs without the extension, and those there compare final errors on stored meshes.",
 ["reach_for_the_spheres.py"],
 [("iteration","reach_for_the_spheres.py:reach_for_the_spheres_iteration"),("driver","reach_for_the_spheres.py:reach_for_the_spheres")])

prop("C36", "Matryoshka nesting is feasible, tight and self-consistent",
 "matryoshka returns a scale, rotation, placement, cut plane and removal directions under which the scaled copy of the inner mesh lies inside the outer one and each part can be slid off along its direction; in scale_only mode the configuration given (or the documented default for what is left out) is used, the scale is within the tolerance of the largest feasible one and inputs are unchanged; in the rigid and all modes the scale is the best one any evaluated candidate reached, the configuration returned attains it, "
 "rigid keeps the plane and directions, and each direction leaves on its own side; a warm start is never worse than its seed and gives the seed's configuration back when nothing better is found.",
 ["inputs","configurations","environment answers"], "every combination of convex outer meshes, inner meshes, rotations (half turns included), centres, planes and directions of a catalogue, and every list of candidates a swarm may evaluate from a catalogue; the compiled distance, winding, ray and swarm routines are replaced by reference answers",
 "No test of it runs without the extension, and those there try a few meshes with a random swarm.",
 ["matryoshka.py"],
 [("driver","matryoshka.py:matryoshka")])

prop("C37", "Image contours separate bright from dark pixels in every PNG format",
 "For every PNG image png2poly returns polylines, closed or ending at the image's rim, with points between neighbouring pixel centres, that separate exactly the pixels brighter than half of the picture's brightest one from the others: a pair of neighbouring pixels is crossed exactly once when one is bright and the other is not, and never otherwise; the answer depends on the picture only, not on how the file stores it (gray, gray with alpha, colour, palette, any bit depth), colours count by their luminance, transparent areas show white, and no file that shows a bright pixel raises.",
 ["inputs","configurations"], "every binary image up to 3x3 (thorough: 4x4) pixels, every image over several grey levels and saturated colours up to the bound, stored in every PNG colour type and bit depth",
 "Tests read two stored photographs of one format and compare nothing with the pixels.",
 ["png2poly.py"],
 [("contours","png2poly.py:png2poly")])

prop("C38", "Omitted arguments equal their documented defaults; order as documented",
 "For every public function with optional arguments, leaving an argument out gives exactly the result, printed output and requests to compiled code that passing its documented default gives, whichever other arguments are given; arguments mean the same by name and by position in the documented order; nothing is printed unless verbose is asked for; the conic solver gets the documented settings except those given; and random functions called without a generator use a new one, so forked processes and reseeded global generators do not repeat each other's draws.",
 ["configurations","histories"], "for each of about 85 functions and several base calls: every choice of up to two (thorough: three) other optional arguments from a catalogue of values, times every omitted argument alone and all of them written out, by name and by position; forked processes for the random functions",
 "Tests call most functions with all defaults or one option set, so a changed or order-dependent default goes unnoticed.",
 ["regular_cube_mesh.py","torus.py","ray_polyline_intersect.py","initialize_quadtree.py","linear_elasticity.py","gaussian_process.py","particle_swarm.py","decimate.py","remesh_botsch.py","dual_contouring_of_signed_distance_data.py","reach_for_the_arcs.py","point_cloud_to_mesh.py","edges.py","apply_colormap.py","random_points_on_mesh.py","metropolis_hastings.py"],
 [("defaults","regular_cube_mesh.py:regular_cube_mesh"),("generator","random_points_on_mesh.py:random_points_on_mesh")])

with open(os.path.join(os.path.dirname(__file__), "..", "properties.jsonl"), "w") as f:
    for d in P:
        f.write(json.dumps(d) + "\n")
print(len(P))
