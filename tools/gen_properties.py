#!/usr/bin/env python3
"""Writes /verif/properties.jsonl. The list is the single source of truth for titles/statements."""
import json, os
P = []
def p(id, title, statement, over, text, why, files, mech, state=None, observe=None, hook=None):
    assert len(title) <= 80, (id, len(title))
    P.append(dict(id=id, title=title, statement=statement,
        quantifier=dict(over=over, text=text), why_tests_cant=why,
        anchors=dict(files=files, state=[dict(name=a, meaning=b, where=c) for a, b, c in (state or [])],
            mechanism=[dict(name=a, where=b) for a, b in mech], observe_at=observe or [], hook_needed=hook)))
I, H, C, PR = "inputs", "histories", "configurations", "programs"

p("C01", "Dense matrices behave as plain 2-D arrays under any operation history",
  "A dense matrix (growable or fixed-size) behaves like a rows-by-columns array under every sequence of reads, writes, row/column replacements and swaps, transpositions, additions, subtractions and scalings: an in-range read returns the value last stored at that position. Shape, equality and the row, column, diagonal, flat and non-zero traversals always describe that same array, whether or not the matrix was transposed in between. A position outside the shape yields no value and can never alter or expose another element.",
  [H, I], "every operation sequence up to the explored depth over every small shape, including after transposition",
  "tests check a handful of fixed matrices; the row/column-major flag makes every operation behave in two ways and only histories that transpose in the middle exercise the second",
  ["src/matrix/buffer.rs", "src/matrix/mod.rs"],
  [("position computation with bounds check", "matrix/buffer.rs pos()"), ("element traversals", "matrix/mod.rs iterators")],
  [("layout flag", "whether data is row-major or column-major", "LinearMatrix")], ["get/get_mut/index", "row/col/diag/flat/indices/nzs iterators", "==, +, -, +=, *="])

p("C02", "Structured matrices read back what was stored and zero everywhere else",
  "Triangular, diagonal, dictionary, compressed-row, lower-envelope and two-sided-envelope matrices return, for every position inside their shape, the value last stored there, and exactly zero where nothing was stored or the structure forbids storage. A position outside the shape yields no value. A write that the structure cannot hold is refused and changes no element. Two matrices of one scheme that were given the same writes are equal, two holding different values are not, and a copy keeps its own values.",
  [H, I], "every write sequence up to the explored depth on every small structure (all envelopes, all sparsity patterns)",
  "tests build one or two patterns per type; index arithmetic differs per row start, envelope width and empty row",
  ["src/matrix/buffer.rs", "src/matrix/sparse.rs"],
  [("packed position arithmetic", "matrix/buffer.rs LowerTriangular/UpperTriangular pos()"), ("row start / envelope arithmetic", "matrix/sparse.rs pos()")],
  None, ["get/get_mut/index/index_mut/put", "row_nzs, row_stored, envelope, row_bounds, non_zero_count"])

p("C03", "Conversions between matrix storage schemes lose nothing",
  "Converting a matrix from one storage scheme to another (flat data, labelled values or dictionary into dense, compressed-row, lower-envelope or two-sided-envelope form, and two-sided to lower envelope) preserves the shape and every element the target scheme represents: all of them, or the lower triangle for a lower envelope. The result does not depend on the order in which elements were inserted or are visited.",
  [I, H, "schedules"], "every sparsity pattern of small square and rectangular matrices, every insertion order explored, every hash-iteration order of small dictionaries",
  "tests convert a few full patterns once; empty rows, trailing rows and unlucky hash orders are not reached",
  ["src/matrix/sparse.rs"],
  [("envelope and row-bound computation", "matrix/sparse.rs Dictionary::envelope/row_bounds"), ("From<Dictionary> implementations", "matrix/sparse.rs")], None, ["shape(), index of the converted matrix"])

p("C04", "Matrix products, sums, transposes and reindexings are arithmetically exact",
  "Products between any two compatible matrices, sums and differences in every operator form, matrix-vector products, dot products, norms, scaled additions, transposed copies, permutations and maskings of sparse matrices equal their textbook definition, exactly when the data are integers small enough to be exact. This holds for every storage scheme, sparsity pattern and shape, including rectangular ones. Incompatible shapes are refused.",
  [I], "every pair of small patterns over a small integer alphabet, every permutation, every mask",
  "the specialised sparse routines each have their own index logic; tests multiply a couple of fixed pairs",
  ["src/matrix/mod.rs", "src/matrix/sparse.rs", "src/matrix/norm.rs"],
  [("generic and specialised mul", "matrix/mod.rs mul, matrix/sparse.rs mul/mul_dict/mul_vec"), ("add_scaled_bienv, transposed, permute, mask", "matrix/sparse.rs")], None, ["results of mul, mul_dict, mul_vec, add_scaled_bienv, transposed, permute, mask, dot, frobenius"])

p("C05", "Bandwidth-reducing reordering is always a reversible permutation",
  "For every undirected graph, connected or not, the reverse Cuthill-McKee labelling is a bijection on its vertices, adjacency and degree queries (masked or not) agree with the edge set whatever order, duplication or direction the edges were given in, and breadth-first far-node queries report the true distance; the pseudo-peripheral search ends in the first vertex's component, at least as far out as that vertex, and in a tree at the end of a longest path. A vertex outside the graph is refused. Applying a permutation to data and then its inverse restores the data exactly, and the labels of a connected graph, read from the highest down, list its vertices in a breadth-first order.",
  [I], "every graph on a bounded number of vertices, every edge-list presentation explored, every permutation of bounded size",
  "tests use connected example graphs; disconnected graphs, isolated vertices and duplicated or reversed edges are not exercised",
  ["src/matrix/graph.rs"],
  [("adjacency construction", "matrix/graph.rs from_edges/from_lol"), ("level traversal", "matrix/graph.rs far_node/pseudo_peripheral/reverse_cuthill_mckee"), ("Permutation", "matrix/graph.rs")], None, ["adjacent, adjacent_masked, degree, degree_masked, far_node, pseudo_peripheral, reverse_cuthill_mckee", "permute/unpermute/permute_slice/invert"])

p("C06", "Dense elimination never returns a wrong solution as a success",
  "Solving a dense linear system by Gaussian elimination either reports an error or returns finite values that satisfy the system to rounding accuracy. It succeeds for every nonsingular, reasonably conditioned matrix whatever the order of its rows, the signs of its entries or zeros on its diagonal, and reports an error, not a success, for malformed shapes and for columns that are exactly zero.",
  [I], "every small integer matrix and right-hand side up to the explored size, plus structured families with widely scaled, negative and zero pivots",
  "tests solve a few diagonally friendly systems; pivot selection only matters for particular sign and zero patterns",
  ["src/matrix/inverse.rs", "src/matrix/solve/direct.rs"],
  [("partial pivoting", "matrix/inverse.rs solve_gausselim")], None, ["solve_gausselim result", "DenseGaussSolver::solve"])

p("C07", "Determinants, LU factors and inverses agree with exact algebra",
  "The determinant routines return the mathematically correct determinant with the right sign or report that the matrix is singular; the LU factors multiply back to the matrix whenever its leading minors are nonzero; and the inverse of a well-conditioned nonsingular matrix times the matrix is the identity to rounding. The inverse of a triangular matrix is triangular and exact to rounding, and forward and backward substitution solve their triangular systems.",
  [I], "every small integer matrix up to the explored size, every triangular pattern, plus permuted and scaled families",
  "tests check one or two matrices per routine; row-swap parity, zero pivots and special small sizes need specific patterns",
  ["src/matrix/inverse.rs", "src/matrix/buffer.rs"],
  [("LU with and without pivoting", "matrix/inverse.rs"), ("substitution and triangular inverse", "matrix/buffer.rs")], None, ["determinant, det_lu_pivot, det_lu, lu_decompose, inverse, inv_lu, tri_inv, forward_sub, backward_sub"])

p("C08", "Envelope Cholesky and LDL' factorisations reproduce the matrix",
  "For every symmetric positive definite matrix stored by envelope the Cholesky factor L has the same envelope and satisfies LL' = A, and for every symmetric matrix with nonzero leading minors the square-root-free factorisation satisfies LDL' = A with as many negative entries in D as A has negative eigenvalues. Forward, transposed and trailing-submatrix substitutions and the combined LL' and LDL' solves solve their systems to rounding. The envelope shape never changes the result.",
  [I], "every envelope of bounded size (including rows that store only the diagonal) with positive definite and indefinite data, every submatrix range, sparse right-hand sides included",
  "tests factor one banded 4x4 matrix; ragged envelopes and zero entries in right-hand sides take different branches",
  ["src/matrix/solve/direct.rs", "src/matrix/sparse.rs", "src/matrix/buffer.rs"],
  [("bordering Cholesky over row envelopes", "matrix/solve/direct.rs cholesky_envelope"), ("LDL'", "matrix/solve/direct.rs cholesky_envelope_no_root"), ("solve/solve_submatrix/solve_transposed", "matrix/sparse.rs")], None, ["factors and solution vectors"])

p("C09", "All linear solvers return the same answer in the caller's numbering",
  "For one symmetric positive definite system, assembled from the same contributions in any order, the dense, envelope Cholesky and Gauss-Seidel solvers return the same displacement vector in the original numbering of the unknowns: the direct ones to rounding and the iterative one to its convergence tolerance. This includes systems that fall into independent parts, have a single unknown, or have a zero right-hand side. Reordering a system to reduce its envelope permutes matrices and right-hand side consistently and reversibly.",
  [I, H, "schedules"], "every sparsity graph of bounded size with positive definite data, every contribution order explored, every hash-iteration order of small systems",
  "tests solve one connected banded system; renumbering errors need irregular graphs, and independent parts or zero loads take other paths",
  ["src/matrix/solve/mod.rs", "src/matrix/solve/direct.rs", "src/matrix/solve/iterative.rs", "src/matrix/graph.rs"],
  [("System assembly and reordering", "matrix/solve/mod.rs"), ("solution un-permutation", "matrix/solve/direct.rs"), ("SOR sweep", "matrix/solve/iterative.rs")],
  [("permutation", "mapping from caller numbering to envelope numbering", "System.perm")], ["Solver::solve result"])

p("C10", "Requested eigenpairs are the lowest ones, ascending and accurate",
  "For a symmetric positive definite stiffness and mass pair with distinct eigenvalues, asking for n eigenpairs returns exactly n pairs with the n lowest eigenvalues in ascending order, each satisfying K v = lambda M v to the iteration tolerance in the caller's numbering and normalised to unit mass. The count of eigenvalues below a shift equals the true number. Asking step by step or for more pairs later never changes pairs already found.",
  [I, H], "every small pair from structured families (chains, grids, trees, permuted numberings, several mass patterns), every n, every sequence of search steps explored",
  "tests search one 4x4 matrix; interval splitting, deflation and renumbering depend on the spectrum and the graph",
  ["src/matrix/solve/eigen.rs", "src/matrix/solve/direct.rs"],
  [("Sturm-count bisection", "matrix/solve/eigen.rs process_eigenrange"), ("shifted inverse iteration with deflation", "matrix/solve/eigen.rs inverse_iterate")],
  [("found pairs and search bounds", "progress of the determinant search", "DeterminantSearcher")], ["find_eigens, eigenpairs, eigenvalues_under"])

p("C11", "Element stiffness and mass are physically consistent for every triangle",
  "For every non-degenerate triangle, material and two-dimensional condition, the element stiffness matrix is symmetric, positive semidefinite, produces no force for rigid motions and equals the analytic constant-strain matrix, and the mass matrix is symmetric positive semidefinite, reproduces the total mass in each translation and equals the consistent mass of a triangle. Neither depends on where the element lies, or on the orientation or starting corner in which its nodes are listed, other than by the corresponding reordering. Axisymmetric stiffness is symmetric, positive semidefinite and stress-free under axial translation.",
  [I], "every triangle with corners on a small grid, in every corner order, with several materials, thicknesses and all conditions",
  "tests evaluate a couple of triangles and mostly print; orientation, scale and rigid-body behaviour quantify over all shapes",
  ["src/element/element.rs", "src/element/strain.rs", "src/element/integrate.rs", "src/element/material.rs"],
  [("B and C matrices", "element/strain.rs"), ("quadrature", "element/integrate.rs"), ("calc_k, calc_m", "element/element.rs")], None, ["Element::calc_k, calc_m entries", "nodal displacements"])

p("C12", "Applied loads enter the model completely and exactly once",
  "The displacements of a loaded model are those caused by all applied loads together: every nodal force, and (in plane conditions) every line load, a force per unit length of its edge whose resultant is shared equally by the edge's two nodes. Loads on edges that meet at a node add up, an edge shared by two elements is not counted twice, and a nodal force coexists with line loads at the same node. The order in which loads or elements were added, or are visited, does not matter.",
  [I, H, "schedules"], "every combination of nodal and line loads over small meshes, every order of adding them explored, every visit order of the load tables",
  "tests apply a single load kind at a time, so overwriting, double counting and visit-order effects are invisible",
  ["src/element/mod.rs", "src/element/element.rs", "src/element/integrate.rs"],
  [("load vector assembly", "element/mod.rs calc_load"), ("edge load integration", "element/element.rs int_f_l")], None, ["calc_displacements result, reactions computed from it"])

p("C13", "Constraints hold exactly in every solution and merge without loss",
  "In the computed displacements, every node satisfies the constraint it carries: fixed directions do not move, and a sliding constraint at an angle allows no motion along that angle's direction. Adding fixed-direction constraints to the same node in any order accumulates them: once a direction is fixed it stays fixed, and a fixed direction takes precedence over a sliding angle given for the same node before or after it. A free constraint takes nothing away. Unconstrained nodes are not restricted.",
  [I, H], "every assignment of constraint kinds to the nodes of small meshes, every order of repeated constraint calls",
  "tests constrain each node once with one or two kinds; merges and angled constraints with several nodes are combinations",
  ["src/element/constraint.rs", "src/element/mod.rs"],
  [("constraint merging", "element/mod.rs add_constraint"), ("degree-of-freedom transformation", "element/constraint.rs")], None, ["Deformation displacements"])

p("C14", "Static solution equals an independent finite element solution",
  "For every properly supported model, the computed nodal displacements equal those of an independent textbook constant-strain-triangle assembly, for plane stress, plane strain and axisymmetric conditions, whichever linear solver is used (to its tolerance). Consequently the solution scales linearly with the load, superposes, and does not depend on the numbering of nodes, the order of elements, or the corner at which or direction in which an element's nodes are listed.",
  [I, C], "every small mesh of the enumerated families under every support and load pattern explored, every renumbering of small meshes",
  "tests assert almost nothing numeric about displacements, and only on fixed meshes",
  ["src/element/mod.rs", "src/element/element.rs", "src/element/constraint.rs", "src/matrix/solve"],
  [("system assembly and scatter", "element/mod.rs calc_system"), ("degree-of-freedom mapping", "element/mod.rs, element/element.rs")], None, ["calc_displacements result"])

p("C15", "Vibration modes of a model equal an independent modal analysis",
  "For every properly supported plane model with distinct natural frequencies, the first n computed modes have the frequencies of an independent consistent-mass analysis in ascending order, and each mode shape satisfies the constraints and the eigenproblem. The result does not depend on node numbering or element order.",
  [I, C], "every small mesh of the enumerated families, several supports, every admissible n",
  "the only modal test is disabled in the source",
  ["src/element/mod.rs", "src/matrix/solve/eigen.rs", "src/element/element.rs"],
  [("mass and stiffness assembly", "element/mod.rs calc_modes"), ("frequency conversion", "element/mod.rs Deformation")], None, ["calc_modes: frequency(), nodal displacements"])

p("C16", "Recovered stresses follow from the displacements",
  "Stresses reported for a solved model are those of the constant-strain elements for the computed displacements, averaged over the elements meeting at each node, and independent of the order in which elements are visited. The Cauchy tensor of a stress state is symmetric and holds its components, and the equivalent (von Mises) stress is the textbook one for the state of stress, never negative, zero for zero stress and unchanged by rotating the axes.",
  [I, C], "every stress vector over a small alphabet, every small mesh and load explored",
  "tests print stresses without asserting them",
  ["src/element/stress.rs", "src/element/mod.rs", "src/element/element.rs"],
  [("StressState", "element/stress.rs"), ("nodal averaging", "element/mod.rs, matrix/mod.rs Average")], None, ["stresses(), von_mises(), to_cauchy()"])

p("C17", "Quadrature integrates polynomials exactly to its order",
  "Line quadrature with n points integrates every polynomial of degree at most 2n-1 over its segment exactly up to rounding, and the triangle rule integrates every polynomial of degree at most 2 over the reference triangle exactly. Matrix-valued and scalar integrands are treated alike, entry by entry.",
  [I], "every monomial up to the guaranteed degree, every supported order, every entry of matrix-valued integrands (linearity extends this to all polynomials)",
  "tests integrate a few functions; a wrong weight in one order stays hidden",
  ["src/element/integrate.rs"], [("abscissae and weights", "element/integrate.rs")], None, ["gauss_segment_mat, gauss_tri"])

p("C18", "A saved mesh file loads back as the same model",
  "Saving an assembled model as a mesh file and loading it again gives a model with the same material, condition, nodes, elements, constraints, nodal forces and distributed forces, up to the number of decimals the format prints, and a second round trip changes nothing. This holds for every combination of condition, constraint kind and load the model can hold.",
  [I, H, "schedules"], "every combination of constraints, loads and conditions over small meshes, coordinates of every sign and magnitude explored, every visit order of the hash tables",
  "the tests load two example files and never compare a round trip",
  ["src/file/bmsh.rs", "src/file/mod.rs"], [("writer and parser", "file/bmsh.rs")], None, ["save_elas then read_to_elas"])

p("C19", "Mesh files are read as written or rejected, never misread",
  "A mesh file with comments, blank lines or sections in the documented order yields exactly the model it describes; malformed lines, references to undefined nodes, wrong section markers and missing parts are rejected with an error or a panic and never yield a model. Comments and blank lines never change the result.",
  [I, "fault_sequences"], "every insertion of a comment or blank line, and every single-token or single-line deletion, duplication or corruption, in small valid files",
  "tests only load valid example files",
  ["src/file/bmsh.rs", "src/file/mod.rs"], [("line dispatch and section checks", "file/bmsh.rs")], None, ["read_to_elas result"])

p("C20", "Boundary files yield exactly the geometry and conditions they describe",
  "Loading a boundary file yields the vertices, segments, polygons, material, condition, constraints and distributed loads it declares, attached to the labelled items, whatever the order of labels; undefined labels and malformed lines are rejected.",
  [I, "fault_sequences"], "every small file of the enumerated grammar and every single deletion or corruption of it",
  "no test loads a boundary file and inspects the result",
  ["src/file/bbnd.rs", "src/mesher/bounds.rs"], [("parser", "file/bbnd.rs"), ("boundary store", "mesher/bounds.rs")], None, ["read_to_bound result"])

p("C21", "Chew meshes tile the domain with well-formed Delaunay triangles",
  "Meshing a polygonal boundary with the uniform (Chew) method yields triangles that cover exactly the domain: positive area, areas summing to the domain's area, no overlaps, every edge shared by at most two triangles and every boundary edge lying on the boundary. All boundary vertices appear as nodes, circumradii do not exceed the requested size, and no node lies strictly inside the circumcircle of a triangle that can see it. Bodies at any usual scale and place mesh alike, and triangulating or meshing the same body again starts afresh. This holds for every visit order of the mesher's tables.",
  [I, "schedules"], "every enumerated polygon (convex, concave, with holes) and size, every hash-iteration order within a deviation bound, several vertex-numbering histories",
  "mesher tests only check that meshing finishes on fixed inputs, in one random hash order per run",
  ["src/mesher/plane.rs", "src/mesher/bounds.rs", "src/mesher/mod.rs"],
  [("gift-wrapping constrained Delaunay", "mesher/plane.rs"), ("boundary subdivision", "mesher/bounds.rs")],
  [("full/half edges", "which sides of each edge are triangulated", "PlaneTriangulation")], ["assembled elements and nodes"])

p("C22", "Ruppert meshes tile the domain within quality and size bounds",
  "Meshing a polygonal boundary with the refining (Ruppert) method yields triangles that cover exactly the domain as a valid triangulation, with every triangle's circumradius-to-shortest-edge ratio within the mesher's quality bound and its size within the requested maximum. The coarse triangulation of the bare boundary that both methods start from is already a constrained Delaunay triangulation of exactly the domain, for bodies of any shape, with holes and sharp corners. This holds for every visit order of the mesher's tables.",
  [I, "schedules"], "every enumerated polygon without small angles and every size, every hash-iteration order within a deviation bound, several vertex-numbering histories",
  "mesher tests only check that meshing finishes on fixed inputs",
  ["src/mesher/plane.rs", "src/mesher/bounds.rs"], [("refinement loop and segment splitting", "mesher/plane.rs, mesher/bounds.rs")], None, ["assembled elements and nodes"])

p("C23", "Boundary conditions follow a segment through every subdivision",
  "When a boundary segment is subdivided for meshing, every piece inherits the distributed load of the segment, and every node on it (old ends and new points) inherits its constraint; a corner where two segments fixed along the axes meet carries both constraints. Unconstrained segments add nothing, and the pieces of a segment together cover it exactly.",
  [I, H, "schedules"], "every assignment of constraints and loads to the segments of small polygons, every split sequence and size explored, every visit order",
  "no test inspects conditions after subdivision",
  ["src/mesher/bounds.rs", "src/mesher/plane.rs"], [("segment division and condition propagation", "mesher/bounds.rs")], None, ["all_constraints, all_distributed_forces, assembled model's constraints and forces"])

p("C24", "Drawings place every node, edge and value correctly inside the image",
  "A drawing of any model with at least two distinct points is an image of the requested size in which every node, edge and filled triangle appears at its linearly scaled position with the vertical axis pointing up and nothing is drawn outside the image or away from the model. Each filled pixel has the colour of the values interpolated over its triangle, edges form gap-free lines between their end points, and points are marked. A drawing of a solved model shows every node moved by the given exaggeration, of either sign, times its displacement. A drawing shows what was last set, however often it was changed and drawn before.",
  [I], "every small set of points, edges, triangles and values, in every corner order, at several image sizes",
  "visual tests only check that drawing does not panic",
  ["src/visual/mod.rs", "src/visual/bresenham.rs", "src/visual/fill.rs"], [("line rasteriser", "visual/bresenham.rs"), ("triangle fill", "visual/fill.rs"), ("scaling", "visual/mod.rs")], None, ["pixels of the written image"])

p("C25", "Colour maps are total, continuous and ordered",
  "Each colour map assigns a colour to every value in [0, 1], takes its documented colours at the ends, moves each channel monotonically on each of its segments without jumps, and the heat map clamps values outside the range to its end colours. Values drawn over a model are normalised so that they always span the map from its low end to its high end, and a model whose values are all equal is drawn in a single colour, the one at the low end of the map.",
  [I], "every value on a fine grid of [0, 1] together with out-of-range values, and every small value list",
  "no test looks at colours",
  ["src/visual/color.rs", "src/visual/mod.rs"], [("map functions", "visual/color.rs"), ("normalisation", "visual/mod.rs set_vals")], None, ["colours of drawn pixels / map functions"])

p("C26", "Geometric predicates are exact",
  "Point arithmetic, distances, midpoints, barycentric coordinates and circumcentres, and the orientation, in-triangle, in-circle and in-sphere predicates, agree with exact arithmetic on every small-integer configuration: triangles contain their border, degenerate triangles have no circumcentre, and flat tetrahedra have no orientation. For a triangle listed anticlockwise, in-circle holds exactly for the points strictly inside its circumcircle, and exchanging two corners inverts it.",
  [I], "every tuple of points of a small grid",
  "tests sample a few points; sign errors hide in particular orders and degenerate positions",
  ["src/spatial/predicates.rs", "src/spatial/mod.rs"], [("determinant predicates", "spatial/predicates.rs"), ("point algebra", "spatial/mod.rs")], None, ["predicate results"], "re-export of the private spatial module, cfg(bugi_verif)")

p("C27", "The command line performs exactly the requested pipeline",
  "For every valid combination of options the mesh, linear and modal commands succeed and write exactly the requested outputs: a mesh file that loads back as the meshed model, and images of the requested size with the requested values, colours and number of modes. The linear command also prints the largest equivalent stress and the largest displacement of the solution. Unknown options, missing inputs and unreadable files end with a failure and produce no output.",
  [C, I], "every combination of the options of each command on small inputs",
  "there is no test of the binary",
  ["src/main.rs", "src/cli.yml"], [("argument dispatch", "main.rs")], None, ["exit status, files written, image size"])

p("C28", "A body in uniform stress is solved exactly on every mesh",
  "A boundary file that describes a body loaded on all its sides by the traction of one uniform state of stress, and held without excess, meshes (with either mesher, at any size, directly or through a saved mesh file) into a model whose solution is that state exactly: every node moves by the linear displacement field and every nodal stress and von Mises value is the given one. The answer does not depend on the mesh, the direction in which sides are given, the solver, or hidden iteration order.",
  [I, C], "every small body x mesher x size x stress state x condition x way of holding it",
  "no test runs boundary file, mesher, loads, constraints, solver and stress recovery together, and the result of each stage is only right relative to the others",
  ["src/file", "src/mesher", "src/element", "src/matrix/solve"], [("distribution of loads and constraints over the subdivided sides", "mesher/bounds.rs, mesher/plane.rs assemble"), ("solution and stress recovery", "element/mod.rs")], None, ["displacements, stresses and von Mises values of the solved mesh"])

p("C29", "Conditions on the sides of a body act on its whole mesh",
  "A boundary file that gives constraints and loads to the sides of a body yields, with either mesher and directly or through a saved mesh file, a model whose displacements and vibration modes are those of an independent analysis of the same mesh in which every node lying on a side carries that side's constraint, every mesh edge lying on a side carries its load, and nothing else is held or loaded. This holds for every way of assigning conditions to sides, including sides that slide along themselves and sides of holes, in either direction of listing.",
  [I, C], "every small body x mesher x size x assignment of constraints and loads to its sides x condition",
  "each stage keeps its own idea of which nodes and edges belong to a side; tests never follow a condition from the file to the displacements",
  ["src/file", "src/mesher", "src/element"], [("propagation of conditions to the subdivided sides", "mesher/bounds.rs, mesher/plane.rs assemble"), ("constraints and loads in the assembled system", "element/mod.rs, element/constraint.rs")], None, ["displacements and frequencies of the meshed model"])

p("C30", "A model answers for its contents at every moment of its life",
  "An element model always reports exactly the nodes, elements, constraints and loads added so far. Its displacements, stresses and vibration modes are at every moment those of its current contents, however it was built up, queried or solved before. Solving and querying change nothing, results asked for twice are the same, and several models in one program do not influence one another.",
  [H], "every sequence of building, solving and querying steps to the explored depth, on one model and on two interleaved ones",
  "tests build a model once, in one order, and solve it once; anything remembered from an earlier solution shows only when the model grows afterwards",
  ["src/element/mod.rs", "src/element/element.rs", "src/element/constraint.rs"], [("construction steps and solution entry points", "element/mod.rs")],
  [("assemblage contents", "nodes, elements, constraints, forces", "ElementAssemblage")], ["accessors of the model, displacements, stresses, frequencies and shapes of modes"])

p("C31", "Drawings of boundaries and meshes show exactly their vertices and edges",
  "The drawing of a boundary shows each of its vertices and each piece of its sides, before and after its segments are divided; the drawing of a triangulation shows exactly the nodes and the edges of the mesh it assembles into. Nothing is missing, doubled elsewhere or added, at any image size, position or scale of the body, and under any hidden iteration order.",
  [I, H, "schedules"], "every small ring and pierced body x every stage from boundary to mesh x image sizes",
  "tests only draw without looking at the picture, and the drawings are built from hash tables",
  ["src/mesher/bounds.rs", "src/mesher/plane.rs", "src/visual/mod.rs"], [("vertex numbering and edge collection for drawing", "mesher/bounds.rs visualize, mesher/plane.rs visualize")], None, ["pixels of the written image"])

p("C32", "Boundaries refuse walls that cross and answer truthfully about their geometry",
  "Storing a polygon or a segment whose wall crosses an existing wall is refused; polygons that stay clear of themselves and of each other, in any order, place and orientation, are accepted. A boundary then answers truthfully about its vertices, its walls in order, which pairs of vertices are segments, its original walls, its size, and whether the middle of an edge is seen from a vertex past every wall; declaring, splitting and adding vertices changes exactly what it says, and the last declaration of a thing holds. Walls that touch without crossing, and sights that brush a corner, are left open.",
  [I, H], "every short ring and pair of rings on a lattice, every edge and vertex of small bodies, every history of declarations to a depth",
  "tests build four valid boundaries and never look inside, and no test offers one that must be refused",
  ["src/mesher/bounds.rs"], [("wall intersection and visibility", "PlaneBoundary::intersects, midpoint_visible"), ("declarations", "store_*, set_*")], None, ["refusals, vertices, walls, segments, sizes, visibility, declared conditions"])

p("C33", "What is printed is what is stored",
  "Printing a matrix held in any storage scheme gives its number of rows and columns on the first line and then one line per row with every entry in column order: dense matrices in plain decimals correct to five places, every other scheme with its sign and correct to two significant digits. Printing a point gives its coordinates in order, correct to four decimals. This holds for every shape, sparsity pattern and value, and printing changes nothing and gives the same text twice.",
  [I], "every sparsity pattern of small shapes in every scheme that holds it, values of every size next to rounding ties, rows and columns to the bound",
  "no test prints a matrix; sparse rows, transposed layouts and unusual sizes each take their own way to the text",
  ["src/matrix/mod.rs", "src/matrix/buffer.rs", "src/matrix/sparse.rs", "src/spatial/mod.rs"], [("text of a matrix", "matrix/mod.rs disp, Display implementations of matrix/buffer.rs and matrix/sparse.rs"), ("text of a point", "spatial/mod.rs")], None, ["to_string() and disp()"], "re-export of the private spatial module, cfg(bugi_verif)")

out = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "properties.jsonl")
open(out, "w").write("".join(json.dumps(x) + "\n" for x in P))
print(len(P))
