prop("C01", "Operations keep no hidden state between calls or threads",
     "The result of every geometric operation depends only on the objects and arguments passed to it: no call reads data left behind by an earlier call, by another thread, or by the environment (clock, randomness, locale, console, memory addresses). Consequently distinct objects may be used concurrently and const operations on a shared object may run in parallel. Only the explicitly named clock, random-point and timer utilities, and the time stamp of an exported file, are exempt.",
     ["histories", "schedules", "inputs"], "all call sequences and interleavings of any library operations",
     "each test runs one call sequence in one thread; a cache or shared scratch buffer only shows after a particular earlier or concurrent call",
     ["cmmcore/nurbs_utils.h", "cmmcore/nurbs.h", "cmmcore/ccx.h", "cmmcore/csx.h", "cmmcore/ssx.h", "cmmcore/binom.h", "cmmcore/utils.h"],
     [("no mutable object of static storage duration", "all headers"), ("no mutable members", "all records")],
     "effect analysis over the resolved call graph (static-storage references, ambient inputs, mutable members, const casts)",
     "Exhaustive over every function body, record and static object the headers define or instantiate; trusts that standard-library functions outside the listed ambient facilities are functions of their arguments.")
prop("C02", "The library is header-only: any header, any number of translation units",
     "Every library header can be included on its own, repeatedly, and in any number of translation units of one program, and the program still compiles and links with exactly one definition of everything.",
     ["programs", "configurations"], "all client programs that include any subset of the headers from several translation units",
     "every test is one translation unit that includes headers in one fixed order",
     ["cmmcore/*.h", "cmmcore/bvh.hpp"],
     [("inline / template / constexpr definitions", "all headers"), ("self-contained includes and include guards", "all headers")],
     "linkage lint over every declaration of the type-checked program plus per-header compile witnesses (front end only)",
     "Exhaustive over every function and namespace-scope variable defined in a header and over every header alone; assumes the build's own forced prefix header.")
prop("C03", "Copying, moving or assigning an object preserves all of its data",
     "After copy construction, move construction or assignment of any library object, the destination carries every piece of data of the source - flags, cached matrices, child links and object references included - whatever the destination held before. Self-assignment leaves the object unchanged. Memory an object releases when it ends is its own: a copy never shares it.",
     ["inputs", "histories"], "all objects in any state, all copy/move/assign operations",
     "tests copy curves as a side effect and never compare the copy with its source",
     ["cmmcore/nurbs.h", "cmmcore/monomial.h", "cmmcore/bvh.hpp", "cmmcore/vec.h", "cmmcore/kdtree.h", "cmmcore/memoryview.h"],
     [("user-provided special member functions", "curve, monomial surface, tree node, homogeneous point"), ("compiler-generated member-wise copies", "all other records")],
     "must-transfer dataflow over the CFG of every user-provided copy/move operation; ownership rule for raw pointers a destructor releases",
     "Per field and per path; delegating constructors, copy-and-swap and helpers are followed. Bounding data derived from the rest may be recomputed instead of copied.")
prop("C04", "Derived data of curves and surfaces never goes stale",
     "After any operation that creates or changes a curve or surface, the parameter interval, the control-grid size and the bounding box it reports are those of its current knots and control points; a monomial surface likewise keeps its basis matrices in step with its dimensions. A rebuilt bounding box takes every control point into account, and each interval end is the matching end of the matching knot vector.",
     ["histories", "inputs"], "all sequences of construction, knot insertion, splitting, setters, derivation, extraction",
     "intersection pruning trusts the cached data; a stale box only loses results for particular geometry reached through a particular sequence of edits, which no test performs",
     ["cmmcore/nurbs.h", "cmmcore/monomial.h", "cmmcore/boundary_intersection.h", "cmmcore/gauss_map.h"],
     [("interval refresh", "cmmcore/nurbs.h update functions"), ("box rebuild", "cmmcore/nurbs.h"), ("grid size updates", "cmmcore/nurbs.h")],
     "interprocedural dirty-bit typestate over the CFG (access-path effects) plus loop-coverage and value-source rules",
     "All paths of every operation that can touch a curve, surface or monomial surface; callers that write through public fields or non-const accessors are responsible for refreshing. A weightless blank curve is exempt from the box obligation.")

prop("C05", "Operations change only what they are named to change",
     "An operation changes only the objects it is named to change or to deliver results in: every other argument, and the object a query is called on, comes back with the same value, even when it was passed by modifiable reference. Cached bounding data may be refreshed, and hull and tree builders may reorder (not alter) the caller's point or object array.",
     ["inputs", "histories"], "all arguments of all library operations, and all calls that follow",
     "tests look at the result of an operation and throw its arguments away; a damaged argument only shows in the next operation on it",
     ["cmmcore/nurbs_utils.h", "cmmcore/nurbs.h", "cmmcore/ccx.h", "cmmcore/csx.h", "cmmcore/ssx.h", "cmmcore/convexhull.h", "cmmcore/_convexhull/quickhull.hpp", "cmmcore/vec.h"],
     [("reference parameters and *this of every operation", "all headers"), ("frozen table of result parameters", "verif: sa/outputs.txt")],
     "interprocedural mod-ref analysis on access paths against a frozen table of output parameters",
     "Over-approximate mod sets per parameter and field for every function, element permutation (swap/sort) separated from alteration; writes through addresses stored in other objects are followed one level.")

prop("C06", "Vector algebra computes the textbook formula for every input",
     "For all inputs the vector operations - sum, difference, scaling, dot and cross product, length, distance, projection, normalisation, equality, indexing, conversion between homogeneous, Cartesian and spherical coordinates - return exactly what their definition says as a function of the real components, whether the result is fresh or written into an operand. Homogeneous points stand for the Cartesian point obtained by dividing by the weight.",
     ["inputs"], "all component values, aliasing of operands and results included; rounding aside",
     "a few sample vectors agree with many wrong formulas (swapped components, single precision, ignored weight), and everything else is built on these",
     ["cmmcore/vec.h"],
     [("operators and members of the 2, 3 and 4 component vectors", "cmmcore/vec.h"), ("free functions on points", "cmmcore/vec.h")],
     "symbolic value numbering of every function to an algebraic normal form, compared with a table of defining formulas",
     "Exact over the reals for every function in the table; a mismatch is reported only with an assignment at which the extracted formula and the definition differ.")

prop("C07", "Matrix algebra and small linear solvers satisfy their defining equations",
     "Matrix products, transposes, determinants and inverses, the 2x2 Cramer solver and the Cholesky-based solver return values that satisfy their defining equation (A*inv(A)=I, L*L^T=H, A*x=b) for all entries, whichever pivots are chosen. A singular, indefinite, non-square or mismatched input is reported by an exception or a false return, never answered with numbers.",
     ["inputs"], "all real entries; run-time sized matrices at all shapes up to 3x3 (inverses up to 2x2, permutation-like 3x3)",
     "wrong pivoting or a transposed index shows only for particular entry patterns and shapes that the sample matrices do not have",
     ["cmmcore/matrix.h", "cmmcore/newthon2.h", "cmmcore/point_inversion.h"],
     [("Matrix2x2, MatrixD, solve2x2", "cmmcore/matrix.h"), ("Cholesky, substitution", "cmmcore/newthon2.h"), ("solve2x2", "cmmcore/point_inversion.h")],
     "symbolic value numbering to rational normal forms, checked against the defining equations under the path conditions",
     "Exact over the reals with symbolic entries; sizes bounded as stated; a mismatch is reported only with entries at which the extracted formula violates the equation.")

prop("C08", "Planes, plane intersections and local frames obey plane geometry",
     "A plane built from coefficients, a normal, a point and a normal, or three points has an equation that vanishes on the defining points, a unit normal along it and an origin on it; signed distances, ray, segment, two-plane and three-plane intersections, coplanarity tests and frame coordinates satisfy the plane equations exactly for all inputs. A reported intersection point lies on every plane involved, and parallel configurations are reported as such.",
     ["inputs"], "all real coefficients and points; three-point planes and plane pairs over families of directions",
     "axis-aligned sample planes hide swapped components, wrong signs and the choice of pivot component",
     ["cmmcore/plane.h"],
     [("plane constructors, distances, intersections", "cmmcore/plane.h"), ("frame coordinates, isPtsCoplanar", "cmmcore/plane.h")],
     "symbolic value numbering to rational normal forms, checked against the plane equations under the path conditions",
     "Exact over the reals with symbolic coordinates; two-plane pairs and three-point planes over fixed families of directions with symbolic offsets; the 1e-6 parallel tolerance is the library's choice.")

prop("C09", "Closest points and distances are the true minimisers",
     "For all inputs the closest point on a line, segment or triangle is the point of that set nearest to the query point, wherever the query lies relative to vertices, edges and interior. For skew or crossing lines the reported parameters, points and distance describe the common perpendicular; central projection lands on the line of sight.",
     ["inputs"], "all real query points and non-degenerate lines, segments and triangles",
     "each region of a triangle and each end of a segment has its own formula; samples rarely reach all of them and never their boundaries",
     ["cmmcore/closest_point.h", "cmmcore/numeric_utils.h", "cmmcore/gjk.h"],
     [("closestPointOn...", "cmmcore/closest_point.h"), ("segmentsDistance, centerProjectionToXY", "cmmcore/numeric_utils.h")],
     "symbolic value numbering to piecewise rational normal forms, compared with the defining minimisation region by region",
     "Exact over the reals for every region; degenerate inputs (zero-length edges, parallel lines) are excluded; closestPointOnRay is taken for queries ahead of the start.")

prop("C10", "Bounding boxes and interval projections follow interval arithmetic",
     "Box construction from corners or points, overlap test, common box, union, growth, extents, volume and the empty box follow the interval definition on every axis for all inputs; touching boxes count as overlapping, and a box built from points contains every one of them. Projections of polygons onto an axis, point-in-polygon parity and edge normals likewise take every vertex into account.",
     ["inputs"], "all real coordinates; point lists of up to 4 points",
     "a swapped axis or a strict comparison shows only for boxes that touch or overlap on some axes and not on others",
     ["cmmcore/aabb.h", "cmmcore/bvh.hpp", "cmmcore/separability.h", "cmmcore/polygon.h"],
     [("AABB", "cmmcore/aabb.h"), ("AABBTest, polygonProject", "cmmcore/separability.h"), ("pointInPolygon2D", "cmmcore/polygon.h")],
     "symbolic value numbering to piecewise normal forms, compared with interval formulas",
     "Exact over the reals; the portable code path that the project build selects is analysed; NaN coordinates are out of scope.")

prop("C11", "Evaluation and derivatives follow the rational B-spline definition",
     "For every degree, knot vector, control polygon or net, weights and parameter in the domain, the knot span found contains the parameter, the basis functions and their derivatives satisfy the Cox-de Boor recursion, and a curve or surface evaluates to the weighted sum of its control points divided by the weighted sum of the weights. Tangents, higher and mixed partial derivatives and normals are the derivatives of that rational function; end parameters belong to the last non-empty span.",
     ["inputs"], "all knots, parameters, points and weights, for degrees up to 3 and the listed knot multiplicity patterns",
     "the sample curves have equal weights and uniform or clamped knots, for which many wrong formulas (wrong span, missing quotient rule, transposed net) agree with the definition",
     ["cmmcore/nurbs_utils.h", "cmmcore/nurbs.h", "cmmcore/nurbs_helpers.h", "cmmcore/polygon.h"],
     [("find_span, basis_funs, ders_basis_funs, curve/surface_derivatives", "cmmcore/nurbs_utils.h"), ("evaluate, derivative and normal members", "cmmcore/nurbs.h")],
     "symbolic value numbering over inputs of known shape and symbolic entries, compared with the recursive definition",
     "Exact over the reals; degree at most 3 (derivatives mostly at most 2) and small knot patterns, everything else symbolic. A mismatch is reported only with an assignment at which the two differ.")


prop("C12", "Reshaping a curve or surface keeps its geometry",
     "Knot insertion and refinement, splitting, decomposition into spans, sub-patch and isocurve extraction, closing, layout conversion between nested and flat control nets, and the surface cross product return an object that describes the same point set with the same parametrisation (the named piece of it for splits and extractions), for all knots, insertion parameters, control points and weights. Knot removal removes a knot only when the shape allows it.",
     ["inputs"], "all knots, parameters, points and weights for degrees up to 3 and the listed multiplicity patterns, insertions at new and existing knots",
     "a wrong blending ratio, a row taken for a column or a boundary span handled wrongly shows only for non-uniform knots, repeated knots, unequal weights or non-square nets",
     ["cmmcore/nurbs_utils.h", "cmmcore/nurbs.h"],
     [("knot_insertion, knot_refinement, knot_removal, surface cross product", "cmmcore/nurbs_utils.h"), ("split, subdivide, decompose, isocurve, insert_knot members", "cmmcore/nurbs.h")],
     "symbolic value numbering over inputs of known shape and symbolic entries, compared with the polar form (blossom) of the original",
     "Exact over the reals; degree at most 3 and small knot patterns, everything else symbolic. A mismatch is reported only with an assignment at which the two differ.")

prop("C13", "Element accesses stay inside their containers; nothing unset is used",
     "For every well-formed input no operation of the vector, matrix, plane, box, spline, polynomial, quadrature, memory view and serialisation modules reads or writes an element outside its array, and no value that was never written enters a computation, a decision or a result. A serialised view cut short anywhere counts as well-formed input of its reader: it may be refused but not read beyond its end.",
     ["inputs"], "all values of the inputs over the listed shapes (degrees, knot multiplicities, matrix and polygon sizes)",
     "an access one past the end is silent unless the allocator happens to object, and an unset value usually happens to be zero; both depend on rare shapes such as full multiplicity or the last span",
     ["cmmcore/nurbs_utils.h", "cmmcore/nurbs.h", "cmmcore/matrix.h", "cmmcore/vec.h", "cmmcore/aabb.h", "cmmcore/polygon.h", "cmmcore/monomial.h", "cmmcore/integrate.h", "cmmcore/newthon2.h", "cmmcore/memoryview.h", "cmmcore/serialization.h"],
     [("element accesses of basis function, knot and control point arrays", "cmmcore/nurbs_utils.h, cmmcore/nurbs.h"), ("matrix and vector indexing", "cmmcore/matrix.h, cmmcore/vec.h"), ("Monomial2D", "cmmcore/monomial.h"), ("deserialize*", "cmmcore/serialization.h, cmmcore/memoryview.h")],
     "dataflow of array extents and initialisation state alongside value numbering: the guard of every access outside its extent, or of every use of an unset value, must be unsatisfiable",
     "Containers of the listed shapes (lengths concrete, contents symbolic); accesses into containers whose length stays symbolic are not decided.")

prop("C14", "Intersection searches drop only what is proven apart",
     "When an intersection search splits its two objects, every combination of the parts is searched on with the same tolerance, reported, or dropped because a separation test applied to exactly that combination found it apart; the parts tile the objects, so no common point outside the documented tolerances is lost. What is reported lies in the parameter intervals of the pieces it was found on, satisfies the tolerance it was tested against, and results found earlier are kept.",
     ["inputs", "histories"], "all pairs of curves and surfaces, all outcomes of the separation tests and of the local solver at every level of the recursion",
     "a pair of halves that is never visited loses intersections only for inputs that cross there; the sample pairs cross in a few places and the tests check only counts or nothing",
     ["cmmcore/ccx.h", "cmmcore/csx.h", "cmmcore/ssx.h", "cmmcore/boundary_intersection.h", "cmmcore/gauss_map.h"],
     [("ccx", "cmmcore/ccx.h"), ("curve-surface search", "cmmcore/csx.h"), ("surface-surface search and its start points", "cmmcore/ssx.h, cmmcore/boundary_intersection.h")],
     "one recursion step interpreted over abstract pieces: gated value numbering records which pair of pieces each test and each recursive call is applied to, and the coverage condition is decided by propositional resolution with linear arithmetic",
     "Covers every outcome of the tests in one step of each recursion (hence by induction every depth); the separation tests are taken at their word, and numerical convergence of the local solvers is not covered.")

prop("C15", "Polynomial patches, quadrature and difference quotients are exact identities",
     "A monomial patch built from a Bezier patch has exactly its points, converting back restores the control points, and its derivatives, products and normal are those of the polynomials, for every size and coefficient. One quadrature step returns the composite Simpson rule and its error estimate, splits exactly when the estimate exceeds the tolerance and the depth allows, and hands each half its own values, so cubics are integrated exactly. Difference quotients give the exact gradient and second derivatives of quadratics.",
     ["inputs"], "all coefficients and functions; patches up to 4x4 control points, gradients in 2, 3 and 4 variables",
     "a wrong binomial, a transposed basis matrix or an accumulated scratch value is exact for the square symmetric samples and wrong elsewhere",
     ["cmmcore/monomial.h", "cmmcore/integrate.h", "cmmcore/newthon2.h", "cmmcore/binom.h", "cmmcore/gauss_map.h"],
     [("Monomial2D, bpmat, cross, computePartialDerivative", "cmmcore/monomial.h"), ("adaptiveSimpson, integrate", "cmmcore/integrate.h"), ("computeGradient, computeHessian", "cmmcore/newthon2.h"), ("binomial table", "cmmcore/binom.h")],
     "symbolic value numbering over patches of known size with symbolic coefficients, compared with polynomial algebra; the recursion of the quadrature is cut at its own contract",
     "Exact over the reals; patch sizes bounded, coefficients and functions symbolic. Convergence of the quadrature for arbitrary functions is not covered.")

prop("C16", "Iterative solvers take the defining step and return the iterate they accepted",
     "Every round of point inversion, of the Newton minimiser and of the arc-length inversion takes the step its method defines (for curves (D.d)/(E.d+D.D), for surfaces the normal equations, for minimisation the shifted Hessian with a positive shift), stops only when the stated criterion holds for the iterate it then returns, and otherwise uses up its rounds. The bounded scalar minimiser reports a place together with the objective's value there, and no place it evaluated is better. Parameter updates reproduce any step in the tangent plane and fail only when no 2x2 system is well conditioned; lengths integrate the speed of the curve.",
     ["inputs", "histories"], "all positions, derivatives, functions, tolerances and starting points; the first one to three rounds, all rounds for the bounded minimiser",
     "the sample problems converge from good starting points, where returning the previous iterate, testing the wrong residual or pairing a value with another place is within the tolerance of the test",
     ["cmmcore/point_inversion.h", "cmmcore/newthon2.h", "cmmcore/minimize_scalar.h", "cmmcore/integrate.h", "cmmcore/nurbs.h", "cmmcore/ssx.h", "cmmcore/csx.h"],
     [("point_inversion_curve, point_inversion_surface", "cmmcore/point_inversion.h"), ("newtonsMethod", "cmmcore/newthon2.h"), ("minimize_scalar_bounded", "cmmcore/minimize_scalar.h"),
      ("find_t1_newton, NURBSCurve::length, lengthAt", "cmmcore/integrate.h, cmmcore/nurbs.h"), ("improve_uv", "cmmcore/ssx.h")],
     "gated value numbering of the first rounds over uninterpreted curves, surfaces and functions, compared with the defining iteration; must-dataflow of value/argument pairs over the minimiser's control-flow graph",
     "Rounds bounded (0 to 3); the pairing rule covers every round. Convergence itself is numerical and not covered.")

prop("C17", "Spatial index queries return what a scan of all objects would",
     "A k-d tree range query returns exactly the stored points of the closed query box and the nearest-neighbour query a stored point at least distance, whatever points were built or inserted in whatever order; every point is stored once. In a bounding volume hierarchy the box of every node covers the boxes below it and every object is filed once, so a box query returns exactly the objects whose box meets the query and a pair query compares every pair of objects whose boxes share a volume of at least the built-in 1e-6.",
     ["inputs", "histories"], "all point and object sets, all tree shapes, all queries, ties included",
     "a pruned subtree only loses answers for points that tie with a splitting point or boxes that meet in a face; the sample queries avoid both",
     ["cmmcore/kdtree.h", "cmmcore/bvh.hpp"],
     [("KDTree build, insert, rangeSearch, nearestNeighbor", "cmmcore/kdtree.h"), ("build_bvh, split_objects, traverse_bvh, contains_point, intersect_bvh", "cmmcore/bvh.hpp")],
     "gated value numbering of one step of every recursion over heap nodes with abstract subtrees; recursive calls replaced by their contract (induction over the height of the tree)",
     "One step of the recursion decided for all values (induction covers all heights); builders for up to 5 objects per step; the work-list variant intersect_bvh_iterative and the growth of std::nth_element/partition are taken at their contracts.")

prop("C18", "Views of multi-dimensional data name exactly the elements of the slice",
     "A memory view of any shape, strides and offset delivers for a list of indices the element at offset + sum of index times stride, and refuses indices outside the shape. Indexing the first axis, slicing (single indices, ranges with negative bounds, any step) and reshaping yield a view of the same data that names exactly the elements Python's slicing rules name, in that order, or are refused. A copy holds the elements of the view it was made from, however they are scattered.",
     ["inputs"], "all shapes, strides, offsets, indices and slice bounds; up to three dimensions, steps -2, -1, 1, 2, 3",
     "the tests slice one contiguous block with in-range bounds and print the result; scattered views, negative steps and bounds beyond the extent never occur",
     ["cmmcore/memoryview.h"],
     [("operator(), operator[], slice, reshape, copy", "cmmcore/memoryview.h")],
     "gated value numbering over views with symbolic extents, strides, offsets, indices and bounds, compared with the strided model",
     "Extents, strides, indices and slice bounds symbolic; dimensions, step and, for reshape and copy, the shape from a list. Serialisation to bytes and printing are not covered.")

prop("C19", "What is written to bytes or files is read back unchanged",
     "Numbers, points, curves, lists of curves and memory views that are written to a byte buffer or a file come back with exactly the same degree, knots, weighted control points, periodic flag and parameter interval (for views: shape and elements in order), whatever else the buffer holds before and behind them. A reader consumes exactly the bytes its writer appended, leaves earlier bytes alone, and a buffer cut short anywhere is refused by the view reader instead of being read beyond its end; a writer of a file replaces what the file held and reports success only when it was written.",
     ["inputs"], "all numbers and flags, all layouts of views; curves of degree up to 3 with up to 6 points, lists of up to 3 curves; every cut of a serialised view",
     "writer and reader agree on the sample data even when both skip a field the sample leaves at its default; cut buffers and scattered views never occur in the tests",
     ["cmmcore/serialization.h", "cmmcore/memoryview.h"],
     [("serialize*/deserialize*, writeNURBSCurvesToFile, readNURBSCurvesFromFile", "cmmcore/serialization.h"), ("serialize, deserialize, write_to_file, read_from_file", "cmmcore/memoryview.h")],
     "gated value numbering with objects decomposed into uninterpreted bytes: the reader is composed with the writer and must yield the value written",
     "Both directions are taken from the current source, so the layout itself is free to change. Sizes bounded, contents symbolic; a curve buffer carries no length, so cut curve buffers are outside the interface.")

prop("C20", "Orderings and keys handed to containers and algorithms are lawful",
     "Every comparison the library hands to a standard sorting, selecting or searching algorithm is a strict weak order on its elements (irreflexive, antisymmetric, transitive, with transitive ties). Equality of every key used for hashing is reflexive, symmetric and transitive, and keys that are equal have equal hashes. A segment end is removed from the spatial index, and looked for in it, under the key it was filed under.",
     ["inputs"], "all triples of elements compared and all pairs of keys",
     "a lawless comparison is undefined behaviour only for particular element triples and lengths; a hash that ignores equality loses entries only when two equal keys with different representation meet",
     ["cmmcore/bvh.hpp", "cmmcore/kdtree.h", "cmmcore/vec.h", "cmmcore/cm_hash.h", "cmmcore/polyline.h", "cmmcore/gjk.h", "cmmcore/_convexhull/convexhull2d.h"],
     [("split_objects, build_bvh_bottom_up", "cmmcore/bvh.hpp"), ("PointComparator3D, buildKDTree", "cmmcore/kdtree.h"), ("Vec2Hash, Vec2Equal, Vec3Hash, Vec3Equal", "cmmcore/vec.h"),
      ("PairDoubleHash, PairDoubleEqual", "cmmcore/cm_hash.h"), ("PointKey, PointKeyHash, add_to_index, remove_from_index", "cmmcore/polyline.h")],
     "the comparison's value as a gated formula over symbolic elements, its laws decided by case splitting and linear arithmetic; hash and equality compared after unifying what equality equates",
     "All comparators found at call sites of the standard algorithms in the compiled program. The vendored quickhull is left out; the angular order of the planar hull is held to irreflexivity and antisymmetry only; the tolerance equality of direction keys is not an equivalence by design and only held to reflexivity and symmetry.")

prop("C21", "The collision test of convex sets judges correctly",
     "Two point sets are answered to be apart only when a direction separates them, which is the case exactly when their farthest difference in that direction stays behind the origin, and the farthest difference is found whatever the order of the vertices. A simplex is answered to contain the origin only when no face at its newest point sees it; otherwise a step keeps a face or edge that sees the origin together with the newest point, in consistent orientation, and turns at right angles to what it kept, towards the origin. The nearest point of a simplex is the nearest of all its faces.",
     ["inputs", "histories"], "all simplices of two to four points, all vertex lists of up to three points, all outcomes of the first three rounds",
     "a step that keeps the wrong edge or flips an orientation still converges on most inputs; only particular histories of faces cycle until the rounds run out and report a collision of disjoint sets",
     ["cmmcore/gjk.h", "cmmcore/closest_point.h"],
     [("supportVector, support, handleSimplex, GJK, closestPointOnSimplex", "cmmcore/gjk.h")],
     "gated value numbering of one simplex step over symbolic points; kept points, direction and verdict of every gate compared with the geometric invariant, verdicts of the loop as propositional consequences of abstract steps",
     "Exact reals. That the rounds suffice (convergence within the limit) is not decided; when they run out the sets count as touching, which drops nothing.")

# ---- properties the system exists to provide that static analysis cannot settle here
prop("C90", "Intersections are complete and accurate up to the tolerance",
     "Every transversal intersection of two curves, a curve and a surface, or two surfaces is reported once, at a distance from the true intersection below the given tolerance.",
     ["inputs"], "all pairs of curves and surfaces, all tolerances",
     "completeness quantifies over all shapes; tests sample a few crossing pairs",
     ["cmmcore/ccx.h", "cmmcore/csx.h", "cmmcore/ssx.h"], [("ccx, csx, ssx", "cmmcore/ccx.h, cmmcore/csx.h, cmmcore/ssx.h")],
     na="Depends on the convergence of the local Newton solves and on the soundness of the separation predicates for arbitrary rational shapes in floating point; no static argument in reach bounds those quantities. The structural part (nothing is dropped without a test on exactly that pair, parts tile the objects, reported points satisfy the tolerance test) is claimed as C14.")
prop("C91", "Convex hulls contain all points and are convex",
     "The two- and three-dimensional convex hull functions return vertices of the input whose hull contains every input point.",
     ["inputs"], "all point sets",
     "degenerate point sets (collinear, coplanar, duplicates) are unbounded in kind",
     ["cmmcore/convexhull.h", "cmmcore/_convexhull/convexhull2d.h", "cmmcore/_convexhull/quickhull.hpp"], [("convex_hull, convex_hull2d, convex_hull3d", "cmmcore/convexhull.h")],
     na="A proof needs the invariant of an incremental algorithm over a work list of facets of unbounded size with orientation signs computed in floating point; neither dataflow nor the one-step summaries used here express that the union of visible facets is a disc. That the routines leave their input alone and terminate on no shared state is part of C01 and C05.")
prop("C92", "Separation predicates are exact for the shapes they are given",
     "The minimiser-based distance and collision tests (GJK) and the spherical and three-dimensional separating-axis tests report two point sets as apart exactly when their convex hulls are disjoint.",
     ["inputs"], "all pairs of point sets",
     "near-touching and degenerate configurations are unbounded in kind",
     ["cmmcore/gjk.h", "cmmcore/separability.h"], [("GJK, SAT3D, SphericalSeparabilityTest", "cmmcore/gjk.h, cmmcore/separability.h")],
     na="Termination and exactness of GJK depend on the floating-point progress of an unbounded iteration; the three-dimensional separating-axis test tries a finite axis set whose sufficiency is a theorem about arbitrary hulls, and the spherical projection test is not exact by design (a sufficient criterion). The axis-aligned and two-dimensional projections underneath are claimed in C10.")
prop("C93", "Iterative solvers converge to the nearest solution",
     "Point inversion, the Newton minimiser and the arc-length inversion end within their tolerance of a true solution whenever one exists near the starting point.",
     ["inputs"], "all shapes, functions and starting points",
     "convergence regions are not enumerable",
     ["cmmcore/point_inversion.h", "cmmcore/newthon2.h", "cmmcore/integrate.h"], [("point_inversion_curve, newtonsMethod, find_t1_newton", "cmmcore/point_inversion.h, cmmcore/newthon2.h")],
     na="Convergence is a numerical statement about unbounded iteration of arbitrary functions. The step formula, the stopping rule and the value returned are claimed as C16.")
prop("C94", "Exported STEP files conform to the standard",
     "The STEP text written for curves and surfaces is accepted by a STEP reader and describes the same geometry.",
     ["inputs"], "all curves and surfaces",
     "no STEP reader is available to the tests",
     ["cmmcore/nurbs.h"], [("toSTEP", "cmmcore/nurbs.h")],
     na="The oracle (grammar and entity rules of ISO 10303-21/42) is neither in the repository nor in the sandbox, and the text is produced through stream formatting the analyses treat as opaque.")
