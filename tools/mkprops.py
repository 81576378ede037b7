"""Writes /verif/properties.jsonl (run after editing the table below)."""
import json, os
SDF = "SeismicMesh/geometry/signed_distance_functions.py"
GUT = "SeismicMesh/geometry/utils.py"
GCC = "SeismicMesh/geometry/cpp/fast_geometry.cpp"
SIZ = "SeismicMesh/sizing/mesh_size_function.py"
FHJ = "SeismicMesh/sizing/cpp/FastHJ.cpp"
GEN = "SeismicMesh/generation/mesh_generator.py"
GUU = "SeismicMesh/generation/utils.py"
DEL = "SeismicMesh/generation/cpp/delaunay.cpp"
DC2 = "SeismicMesh/generation/cpp/delaunay_class.cpp"
DC3 = "SeismicMesh/generation/cpp/delaunay_class3.cpp"
MIG = "SeismicMesh/migration/migration.py"
MCC = "SeismicMesh/migration/cpp/cpputils.cpp"
BLK = "SeismicMesh/decomp/blocker.py"
P = []
def prop(id, title, statement, over, qtext, why, files, mech, observe, hook=None, state=()):
    P.append(dict(id=id, title=title, statement=statement,
        quantifier=dict(over=over, text=qtext), why_tests_cant=why,
        anchors=dict(files=files, mechanism=[dict(name=n, where=w) for n, w in mech],
                     state=[dict(name=n, meaning=m, where=w) for n, m, w in state],
                     observe_at=observe, hook_needed=hook)))

prop("C01", "Built-in shapes report a correct signed distance",
 "For every built-in shape (disk, ball, rectangle, box, cylinder, torus, prism), any admissible size and position, and any query point, the evaluated value is negative strictly inside the shape, positive strictly outside and zero on its boundary, and its magnitude never exceeds the true distance to the boundary. It equals the true signed distance everywhere for disk, ball, cylinder and torus, and everywhere inside for rectangle and box. The value of a point does not depend on the other points evaluated with it, and the query array is not modified.",
 ["inputs"], "all shapes, all admissible parameters, all finite query points and batches of them",
 "Tests build a handful of unit-size shapes and look at the mesh that results or at a few hand-picked points; a wrong sign or metric in an octant, far away, on an edge or for another size never appears.",
 [SDF, GCC], [("closed-form distance per shape", SDF), ("drectangle_fast / dblock_fast compiled kernels", GCC)],
 ["return value of shape.eval(points)"])
prop("C02", "Rotated, stretched and translated shapes are exact images of the base shape",
 "A shape constructed with any combination of stretch, rotation and translation takes, at the image of any point under stretch, then rotation about z, y and x in turn (in 2D the single in-plane rotation), then translation, exactly the value of the untransformed shape at that point (so sign and zero set move with the shape). Constructing or evaluating it does not modify the arrays the caller passed, so building the same shape twice from the same arguments gives the same shape.",
 ["inputs", "configurations"], "all seven shapes, all rotation angles about one or several axes, stretch vectors, translation vectors, and their combinations",
 "Tests use single rotations/stretches and inspect the resulting volume to a few percent; composition order, non-axis-aligned stretch and aliasing of arguments are not sampled.",
 [SDF], [("_manipulate pulls the query point back", SDF), ("_configure_manipulations builds the maps once", SDF)],
 ["shape.eval(T(q)) versus base.eval(q)", "argument arrays before/after"])
prop("C03", "The bounding box of a domain encloses the domain",
 "For every built-in shape under any combination of stretch, rotation and translation, and for every union, intersection, difference or periodic repetition of such shapes (including smoothed ones), no point outside the reported bounding box has a negative signed distance. Mesh generation only seeds points in that box, so this is what guarantees that no part of a domain is silently left unmeshed.",
 ["inputs", "configurations"], "all shapes, transforms, and nested set operations",
 "Tests check a few boxes for single transforms; composed rotations and nested combinations are unsampled.",
 [SDF], [("bbox built in the constructors", SDF), ("_build_stretch/_build_rotation/_build_translation", SDF)],
 ["domain.bbox, domain.eval(points outside)"])
prop("C04", "Set operations on domains have their set-theoretic meaning",
 "For any operands (including nested combinations) and any point, the union is inside where some operand is, the intersection where all are, and the difference where the first is and none of the others are; with zero smoothness the value is exactly the minimum, maximum, or maximum with negated subtrahends of the operand values. With a smoothing length k the value moves only in the direction that grows a union or shrinks an intersection or difference, by at most k/4 per pairwise blend, by exactly k/4 where two blended values are equal, and is unchanged wherever the blended values differ by at least k. Operands of different dimension are rejected. A periodic repetition is inside exactly where the period-reduced point is inside the base shape and the point is inside the clipping box.",
 ["inputs", "configurations"], "all operand lists (2..n, nested, 2D and 3D), smoothness values and points",
 "Tests mesh three or four fixed combinations and compare volumes; operand counts above two, smoothness and sign conventions away from the sampled shapes are not settled.",
 [SDF], [("Union/Intersection/Difference/Repeat eval", SDF)], ["combination.eval(p) against operand.eval(p)"])
prop("C05", "Sizing from a velocity model follows the documented rules",
 "Without gradation, time-step limit or padding, the mesh size at every grid node of the velocity model is the smaller of velocity/(wl*freq) and the velocity-gradient rule (whichever is enabled), then raised to at least hmin and lowered to at most hmax, with non-positive (water) velocities replaced by the water velocity and with the declared units converted to m/s; with neither rule enabled it is hmin. Between nodes the size is the (multi)linear interpolation, and right next to the grid it continues without a jump. An option left out behaves as its documented default. The result depends only on the arguments: velocity arrays passed by the caller are left unchanged, so repeating the call gives the same sizes. Invalid arguments (unknown options, negative wl, freq, grad, grade, dt, cr_max, pad, or an out-of-range water velocity when water is present) are rejected.",
 ["inputs", "configurations"], "all 2D/3D velocity grids, option combinations and repetition histories",
 "Tests read two velocity files with a couple of option sets and compare a few numbers; water cells in particular places, repeated calls and option interactions are not explored.",
 [SIZ], [("_wavelength_sizing, _gradient_sizing, clipping", SIZ), ("option loop", SIZ)],
 ["SizeFunction.eval at grid nodes", "velocity array before/after", "exceptions"])
prop("C06", "Mesh-size gradation is enforced and is the tightest such limit",
 "With a gradation rate g > 0, the sizes at any two grid-adjacent nodes differ by at most g times the grid spacing, along every grid axis; no size is raised by gradation; the minimum size is preserved; and the graded sizes are the largest field with these properties (so fields that already satisfy the rate are returned unchanged).",
 ["inputs"], "all 2D/3D sizing fields and shapes (including long, thin and single-cell-wide grids), rates and grid spacings",
 "The test applies one rate to one field and checks one slope; the property quantifies over fields, grid shapes and all axes.",
 [FHJ, SIZ], [("active-set limiter", FHJ), ("_enforce_gradation_sizing", SIZ)],
 ["_FastHJ.limgrad output", "SizeFunction.eval on grid nodes with grade>0"])
prop("C07", "The requested time step is stable on the sizes returned",
 "With a time step dt > 0, maximum Courant number and spatial order given, every grid node satisfies velocity*dt/size <= cr_max/space_order, sizes are only ever raised by this rule, and nodes that already satisfied it keep their size (gradation off). With dt = 0 the rule changes nothing.",
 ["inputs", "configurations"], "all velocity fields, dt, cr_max, space_order, dimensions",
 "One test computes one Courant number on one model.",
 [SIZ], [("_enforce_courant_sizing", SIZ)], ["SizeFunction.eval at grid nodes, velocity at grid nodes"])
prop("C08", "Domain padding extends the model exactly where and how requested",
 "A padding width w extends the bounding box by exactly w on every side except the top, in all lateral directions and at the bottom, leaves the sizes and velocities of the original model unchanged, adds the whole number of grid cells that fit in w (at the model's spacing along that axis) on each padded side and none at the top, and fills them according to the style: nearest-edge values, the maximum value, or a linear ramp from edge to maximum. A zero width changes nothing and any other style name is rejected.",
 ["inputs", "configurations"], "all 2D/3D models, pad widths, styles, grid spacings",
 "Two tests pad one model in 2D; 3D, non-commensurate widths, anisotropic spacing and ramps are unsampled.",
 [SIZ], [("_build_domain_pad/_pad_it", SIZ)], ["SizeFunction.bbox and eval", "written hdf5 model"])
prop("C09", "Velocity models are read and written without loss or reorientation",
 "Reading a binary model with any axis order, sort order, byte order and precision, or a SEG-Y file, returns the stored values indexed (z, x[, y]) with the first file depth at the top (depth axis reversed once); writing it to HDF5 stores exactly those values (in single precision) and their shape; layout options left out behave as their documented defaults. Missing grid sizes or byte order are rejected.",
 ["inputs", "configurations"], "all grid sizes (non-cubic), axis permutations, C/F sort, little/big endian, float32/float64, 2D SEG-Y files",
 "Tests round-trip one or two models of one layout.",
 [SIZ], [("_read_bin/_read_segy", SIZ), ("write_velocity_model", SIZ)], ["returned arrays", "HDF5 file contents"])
prop("C10", "Generated meshes are structurally valid",
 "For any 2D or 3D domain, sizing, options and seed, the returned mesh has finite vertices, in-range indices, no duplicate or unused vertices, no duplicate cells, no negatively oriented cells (in 2D every cell has positive area; in 3D flat slivers may occur before sliver removal), and is conforming: each edge (2D) or face (3D) is shared by at most two cells, lying on opposite sides of it, and no two cells overlap (in 3D: by more than a small fraction of the minimum size).",
 ["inputs", "configurations"], "all domains, sizing functions, options (iterations, checks, smoothing, restart points), seeds",
 "Tests count vertices and cells or compare a total area for a dozen fixed shapes; they never check conformity, orientation or overlap.",
 [GEN, GUT, DC2, DC3], [("Delaunay retriangulation each iteration", GEN), ("fix_mesh after termination", GUT)],
 ["(points, cells) returned by generate_mesh"])
prop("C11", "Generated meshes represent the requested domain",
 "The returned vertices lie in the domain up to a small fraction of the local size (in 3D a few next to sharp edges or corners up to about half a local size), every cell's centroid lies in the domain, boundary vertices lie on the zero level set up to a small fraction of the local size wherever the boundary is smooth at that scale (next to sharp edges and corners up to a fraction of the local size), and the covered area or volume matches the domain's up to the error of resolving its boundary at the local edge length - no part of the domain is left unmeshed and nothing outside it is meshed. A rectangle or box is extended to the (padded) model a sizing function is given on; any other domain stays what it is, however large that model, also in sliver removal.",
 ["inputs", "configurations"], "all domains (convex, concave, with holes, thin, disconnected, transformed, user callables) resolved by the sizing",
 "Tests compare the area or volume of a few shapes at one resolution, to one or two significant digits.",
 [GEN, SDF], [("_project_points_back_newton, _improve_level_set_newton", GEN), ("_remove_triangles_outside", GEN), ("create_staggered_grid seeds the box", GUU)],
 ["returned mesh against an independent description of the domain"])
prop("C12", "Fixed points and domain corners are mesh vertices",
 "In a serial run every user-supplied fixed point at least about one cell layer (0.7 local sizes) inside the domain is a vertex of the returned mesh, whatever the seed, iteration count and sizing, and so is, given enough iterations to converge (10 in 2D, 20 in 3D), every corner of a rectangle (any sizing) or box (scalar sizing) domain, each at its exact location up to a tiny fraction of the minimum size (initial points supplied by the caller must include them).",
 ["inputs", "configurations"], "all fixed-point sets (interior, boundary, clustered at mesh-size distance), domains, sizings, seeds, iteration counts",
 "Tests place corners on one rectangle.",
 [GEN, GUT], [("zero force on fixed vertices", GEN), ("_closest_node tracking across retriangulations", GEN), ("final smoothing", GUT)],
 ["distance from each fixed point to the nearest returned vertex"])
prop("C13", "Mesh generation is reproducible",
 "Two runs of mesh generation, or of sliver removal on the same points, with the same arguments and seed return bit-identical meshes, in the same or in another process, regardless of what was meshed before, of the verbosity, and of the state of the global random generators; a different seed may give another mesh. The caller's arguments (fixed points, initial points, bounding boxes, shapes, options) are not modified.",
 ["histories", "configurations"], "all call sequences and process histories",
 "Each test makes one call in one process state.",
 [GEN, GUU], [("np.random.seed(seed) before decimation", GEN)], ["returned meshes of repeated calls", "argument snapshots"])
prop("C14", "Cells honour the sizing function and are well shaped in 2D",
 "With enough iterations (30 or more) and a minimum size that the sizing function attains in the domain, the edge lengths of the returned mesh follow the requested sizing up to one global factor: the ratio of actual edge length to requested size at the edge midpoint, normalised by its mean, has small spread and its mean stays near one; the vertex count scales accordingly with refinement; and 2D meshes of smoothly bounded domains with graded sizing have mean quality close to one and no cell of very poor quality; unless smoothing is switched off, every vertex of a 2D mesh away from its boundary (and from fixed points) is at the mean of its neighbours.",
 ["inputs", "configurations"], "all uniform and graded sizings over resolved domains, seeds",
 "Tests check vertex counts of a few meshes within bounds.",
 [GEN, GUT], [("_compute_forces spring model", GEN), ("rejection sampling r0m/r0", GEN), ("laplacian2_fixed_point", GUT)],
 ["edge length / requested size over the returned mesh", "cell quality"])
prop("C15", "Options are validated and runs stop after exactly the allowed iterations",
 "Mesh generation and sliver removal perform at most max_iter iterations (mesh generation exactly that many) and return, for every positive max_iter; non-positive max_iter, non-positive minimum size, unknown options, negative verbosity, integer bounding-box entries, non-callable sizings or domains, and 2D input to sliver removal are rejected with an exception instead of looping or returning a mesh. With verbosity 0 nothing is printed by a serial run without linting.",
 ["inputs", "configurations"], "all option values and their combinations",
 "Tests try a few bad options; non-termination cannot be shown by a passing test.",
 [GEN], [("count == max_iter - 1 test", GEN), ("_parse_kwargs and value checks", GEN)],
 ["number of sizing/distance callback rounds", "exceptions", "stdout"])
prop("C16", "Sliver removal only returns success when no slivers remain",
 "When sliver removal stops before its iteration limit, every returned cell has all dihedral angles within the requested bounds; whichever way it ends, the returned mesh is structurally valid, stays in the domain, and no vertex is lost other than those no longer used by any cell. The dihedral angles it is judged by are the true ones for every cell, including flat or nearly flat cells.",
 ["inputs", "configurations"], "all input point clouds, domains, bounds, iteration limits",
 "Tests run it on two or three meshes and check the minimum angle.",
 [GEN, GCC], [("sliver loop", GEN), ("c_calc_dihedral_angles", GCC), ("c_calc_circumsphere_grad", GCC)],
 ["returned mesh, independently computed dihedral angles, printed verdict"])
prop("C17", "Immersed subdomains are resolved by the mesh",
 "With immersed subdomain shapes given, the returned mesh still covers the whole outer domain validly, and it resolves each immersed boundary: vertices lie on it all along it, at most a few local sizes apart, most cells next to it do not have vertices on both sides, and the cells whose centroids lie inside an immersed shape cover its area or volume up to a fraction of a layer of one local size.",
 ["inputs", "configurations"], "all immersed shapes inside a domain, 2D and 3D, sizes, seeds",
 "Tests mesh one disk in a square.",
 [GEN], [("levels loop in projection", GEN)], ["vertices and centroids against the immersed shape"])
prop("C18", "Parallel meshing never deadlocks or mixes up messages",
 "In a parallel run over any number of ranks and any relative speed of the ranks, every operation completes, as long as every rank starts with some points: no rank waits forever, every message sent is received by the intended operation exactly once, and no message is left undelivered at the end, also when some ranks have nothing to send to a neighbour. The result is the same for every interleaving of the ranks.",
 ["schedules", "configurations"], "all rank counts 2..n, domains (including disconnected ones), axes, message interleavings, eager and rendezvous delivery",
 "Tests run two ranks (three at most) on one machine under one timing.",
 [MIG, GEN], [("exchange", MIG), ("localize_sizing_function, localize_points, aggregate", MIG), ("_form_extents bcasts", GEN)],
 ["send/recv/bcast/reduce events on the communicator object"])
prop("C19", "Parallel meshes are as valid as serial ones",
 "For any number of ranks and decomposition axis, once the initial lattice has been left behind (some ten iterations), the mesh returned on rank 0 satisfies the same guarantees as a serial mesh: structurally valid, non-overlapping, conforming across rank interfaces without gaps, covering the domain, with vertices in the domain and sizes that follow the sizing function.",
 ["schedules", "configurations"], "rank counts 2..n, axes, 2D/3D domains, uniform and variable sizing, with and without initial points",
 "Two ranks on fixed shapes, checked by area or a vertex count.",
 [GEN, MIG, MCC, BLK], [("ghost exchange: where_to2/3", MCC), ("remove_external_entities", GUT), ("aggregate + fix_mesh", MIG)],
 ["mesh returned on rank 0"])
prop("C20", "Domain decomposition loses nothing and localises consistently",
 "Splitting a point set into blocks places every point in exactly one block, each block's extent is its tight bounding box, the blocks are ordered slabs of equal width stacked across the chosen axis; distributing them delivers block r to rank r with the same extents everywhere; a localised sizing function agrees with the global one over the rank's sub-box up to the error of linear interpolation on a grid of the minimum size; gathering sub-meshes preserves every rank's cells and coordinates; every vertex of a cell whose circumscribed ball reaches a neighbouring rank's box, or of a hull facet with a part of that box beyond it, is exported to that neighbour (to both, where its cells reach both), only such vertices are, none is exported to the same neighbour twice, the reported counts match the rows, and the exchange delivers exactly those rows; dropping cells outside a box keeps every cell with a vertex inside it and drops every cell without one.",
 ["inputs", "configurations"], "all point sets (with ties and boundary points), block counts, axes, sizing functions, sub-meshes",
 "Tests check that blocks of one random cloud are nonempty and that a migration of one triangulation matches a stored answer.",
 [BLK, MIG, MCC], [("blocker", BLK), ("localize_*; aggregate; enqueue", MIG), ("where_to2/3", MCC)],
 ["return values of the decomposition and migration functions under a recording communicator"])
prop("C21", "The incremental Delaunay structure stays Delaunay under any history",
 "After any sequence of insertions, removals and moves, the incremental triangulation holds exactly the live points, in an order that only operations change, with move and remove addressing the vertex they name by that order, its cells are positively oriented, index live vertices, fill the convex hull without overlap, and no live point lies strictly inside the circumscribed ball of a cell; the reported edges are exactly the edges of the cells. (In 3D, moves are covered while the points span three dimensions.)",
 ["histories", "inputs"], "all operation sequences, point sets including cocircular/collinear/duplicate points",
 "Tests perform one insert, move or remove and compare counts.",
 [DC2, DC3, DEL], [("CGAL triangulation with vertex info indices", DC2), ("same, 3D", DC3), ("batch _delaunay2/3", DEL)],
 ["get_finite_vertices/get_finite_cells/get_finite_edges after every operation"])
prop("C22", "Geometric kernels equal their mathematical definitions",
 "Circumcentres and radii, dihedral angles, determinants, signed volumes, simplex quality (twice inradius over circumradius, triangles), radius-edge ratios, the gradients with respect to the first vertex of the volume and of the squared circumradius, and centroids agree with exact-arithmetic reference values up to rounding for every non-degenerate simplex, are invariant under the symmetries of the simplex and under translation, and scale correctly; degenerate simplices yield no out-of-range angles or crash.",
 ["inputs"], "all simplices, including needle, sliver, large-offset and tiny ones, and batches of any length",
 "Tests check each kernel on one or two simplices.",
 [GCC, DEL, GUT], [("compiled kernels", GCC), ("circumballs", DEL), ("simp_vol/simp_qual/calc_re_ratios", GUT)],
 ["return values against rational-arithmetic references"])
prop("C23", "Mesh topology queries are exact",
 "For every 2D or 3D simplicial mesh (also with unused vertices, several components, holes or non-contiguous numbering), the edges, unique edges, boundary edges, facets, boundary facets, boundary vertices, boundary cells and the vertex-to-cell map are exactly those of the mesh; the winded boundary of a 2D mesh traverses boundary edges head to tail around a closed loop; a mesh is reported manifold exactly when its boundary edges and vertices are equally many; and unique rows and their index maps reconstruct the input.",
 ["inputs"], "all conforming simplicial meshes and index arrays",
 "Tests use one or two small meshes with consecutive numbering.",
 [GUT, GCC], [("vertex_to_entities pointers", GUT), ("unique_row_view/unique_edges", GUT)],
 ["return values against set-based references"])
prop("C24", "Mesh clean-up removes exactly the defects and nothing else",
 "Clean-up merges coincident vertices, removes duplicate cells and (when asked) unused vertices, orients cells positively, and otherwise preserves the geometry, the set of cells and is idempotent; deleting poor boundary cells removes exactly the boundary cells whose quality is below the threshold; overlap detection reports every cell whose centroid lies in a vertex-neighbour and nothing on valid meshes; linting returns a valid mesh without overlaps and leaves a clean mesh unchanged.",
 ["inputs"], "all meshes with injected duplicates, signed zeros, unused vertices, flipped cells, overlapping cells, poor boundary cells, in 2D and 3D",
 "Tests check one mesh with one injected defect.",
 [GUT], [("fix_mesh", GUT), ("delete_boundary_entities", GUT), ("do_any_overlap/linter", GUT)],
 ["returned meshes against an independent reference"])
prop("C25", "Smoothing moves only interior vertices and leaves topology alone",
 "Laplacian smoothing of any valid 2D mesh leaves connectivity and every boundary vertex (and every listed fixed vertex, where supported) unchanged, returns finite coordinates inside the hull of the boundary, and the one-shot variant places each interior vertex at the mean of its neighbours; the iterative variant performs neighbour-averaging steps only, and gives a mesh with vertices that belong to no cell back without damaging it. Inputs are not modified.",
 ["inputs"], "all valid 2D meshes, convex or not, with holes or several components, iteration limits and tolerances",
 "One test smooths one mesh and checks mean quality.",
 [GUT], [("laplacian2_fixed_point", GUT), ("laplacian2", GUT)], ["returned vertices against neighbour means"])
prop("C26", "The native code is free of memory errors and undefined behaviour",
 "No call into the compiled modules with well-formed arguments (any sizes, also empty or minimal ones, any array layout) reads or writes outside its buffers, uses freed memory, violates a container or geometry-kernel precondition, or performs undefined arithmetic; and results do not depend on the memory layout (C, Fortran or strided order, 32- or 64-bit indices) of equal arguments.",
 ["inputs", "histories"], "all argument sizes, layouts, and operation histories of the compiled modules",
 "Out-of-bounds accesses of a few bytes do not fail a test; no test runs under a sanitizer.",
 [DC2, DC3, DEL, GCC, MCC, FHJ], [("memcpy in/out of std::vector buffers sized from shapes", GCC), ("buffer_info shapes and strides", MCC)],
 ["AddressSanitizer, UndefinedBehaviorSanitizer and library-assertion reports", "results across layouts"])
prop("C27", "Equivalent descriptions of a meshing problem give the same mesh",
 "A serial run of mesh generation or sliver removal depends on what it is asked, not on how: a shape without corners and its level-set function with its bounding box, a scalar size and a function or size-function object that returns it (in 3D for domains without corners), lists, tuples and arrays in any memory layout, and an option left out or given at its documented default lead to bit-identical meshes; and describing a 2D problem (or a smoothly bounded 3D one, for a few iterations) in another unit of length, with every length multiplied by the same power of two, multiplies the vertices of the mesh by that factor and leaves its cells as they are, up to rounding.",
 ["inputs", "configurations"], "all domains, sizings, options, fixed points and immersed subdomains, and all equivalent ways to write them",
 "Tests describe each problem in one way and in units where the domain has about the size one; absolute tolerances and defaults that have drifted go unnoticed.",
 [GEN, GUU, GUT], [("_unpack_domain, _unpack_sizing, _unpack_pfix", GEN), ("tolerances proportional to h0", GEN), ("option defaults", GEN)],
 ["returned meshes of pairs of equivalent calls"])
prop("C28", "Plots show the object they are given and are saved when asked to",
 "Showing a shape draws points of its bounding box that lie close to its zero level set (relative to the size of the shape, all parts of the boundary within reach of the samples, both sides), each where it is and coloured by the shape's value there; plotting a 2D sizing function draws, over the whole (padded) model and no coarser than the stride, the size at each place, with x to the right and z upwards, on the first rank only, and returns the axes. With a file name the image is written to it and no window is opened; without one it is shown and nothing is written. Anything else than a 2D sizing function is rejected.",
 ["inputs", "configurations"], "all shapes (sizes, dimensions, transforms, combinations), sizing functions, strides, ranks, with and without file names",
 "Tests call the plotting functions and look at nothing.",
 [SDF, SIZ], [("_show", SDF), ("plot_sizing_function", SIZ)],
 ["artists of the figure", "files written", "calls that open a window"])

out = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "properties.jsonl")
with open(out, "w") as f:
    for p in P:
        assert len(p["title"]) <= 80, p["id"]
        f.write(json.dumps(p) + "\n")
print(len(P))
