ENUM = "bounded-exhaustive enumeration of executions of the real code, judged by an independent reference model"
BOUND = "Every execution within the families' bounds is run on the real code (release build with debug assertions and overflow checks); nothing is claimed outside the bounds. Trusted: the reference model in mc/src (independent of the library), kurbo's path parsing types."
T = "src/topology.rs"; S = "src/sweep/sweep_line.rs"; L = "src/lib.rs"
prop("C01", "Boolean operations classify every point correctly (polygons)",
 "For polygon sets of any shape (self-intersecting, overlapping, degenerate, several contours) and each of union, intersection, difference and exclusive or under either fill rule, the output covers exactly those points which the operation applied to the two inputs' fill-rule membership says are inside. Only points closer to an input boundary than a small multiple of the accuracy may be classified differently.",
 ["inputs"], "all polygons with up to N vertices on small grids (and images of them under transforms), all bitmaps, nested/comb/star/strip figures; all operations and fill rules",
 "The existing tests compare snapshots and random inputs; a wrong cell appears only for particular coincidences of vertices and edges, which a full enumeration on small grids contains.",
 [T, S, "src/sweep/mod.rs", L], [("winding numbers of output segments", "topology.rs: Topology::build and from_segments"), ("intersection scanning", "sweep_line.rs: scan_left/scan_right, intersection queue"), ("operation predicates", "lib.rs: binary_op_with_eps")],
 bin="ops", technique=ENUM, note=BOUND + " Oracle: winding number of the input at a sample point in every trapezoid of the input arrangement, margin 3 eps.")
prop("C02", "Boolean operations classify every point correctly (curves)",
 "For sets bounded by lines, quadratic and cubic curves, including cusps, loops, degenerate and coincident curves, each boolean operation under either fill rule covers exactly the points that the operation applied to the inputs' membership says are inside, except within a small multiple of the accuracy of an input boundary.",
 ["inputs"], "all closed paths made of up to two curves and two lines with control points on small grids, paired with each other; all operations and fill rules",
 "The existing tests sample a few curved figures; failures need particular tangencies, cusps or coincidences, which the grids force.",
 [T, S, "src/curve/mod.rs", "src/order.rs", "src/segments.rs"], [("curve comparison", "curve/mod.rs: intersect_cubics, CurveOrder"), ("merging pieces of a curve", "topology.rs: contours, can_merge"), ("output positions", "topology.rs / position: compute_positions")],
 bin="ops", technique=ENUM, note=BOUND + " Oracle: winding numbers of the exact input curves between all crossings of scan lines in every gap between critical heights, margin 4 eps.")
prop("C03", "Output boundaries stay within the accuracy of input boundaries",
 "Every point of every output contour lies within a small multiple of the accuracy of some input curve: the operation invents no boundary far from the input, and leaves no gap- or spike-shaped artefact longer than that.",
 ["inputs"], "the polygon families of C01, and the curve families in which the library meets its accuracy; all operations and fill rules",
 "Snapshots are images; a spike or a bent curve a few dozen eps away is invisible there and only appears at particular tangencies.",
 [T, "src/curve/mod.rs"], [("output positions", "topology.rs: compute_positions, bend"), ("merging pieces of a curve", "topology.rs: contours, can_merge")],
 bin="ops", technique=ENUM, note=BOUND + " Tolerances: 2 eps for straight input, 16 eps for curves. Two known findings (curves cut next to a horizontal or degenerate tangent).")
prop("C04", "Output contours are closed, simple and do not cross",
 "Every output contour is a single closed path with finite coordinates; for inputs made of line segments, no contour repeats a point or meets itself, and no two contours cross each other.",
 ["inputs"], "the polygon families of C01 (exact predicates) and curve families (closedness, finiteness)",
 "The property is exact and global; tests look at a few pictures. Violations need coincidences (several edges through one vertex) that the enumeration contains.",
 [T], [("walking contours and splitting at repeated points", "topology.rs: contours"), ("order of segments at a point", "topology.rs: point_neighbors / scan order")],
 bin="ops", technique=ENUM, note=BOUND + " Exact rational-safe predicates on every pair of output segments. Three known findings (contacts within eps).")
prop("C05", "Contour direction and nesting agree with the set they bound",
 "Outer contours run with the set on one side and holes the opposite way; each contour's parent is the contour that directly surrounds it, nesting levels alternate between outer and hole, and a hole shares at most one point with the contour it is a hole of. Grouping the contours gives every top-level contour with exactly its descendants, each contour once.",
 ["inputs"], "the polygon and curve families of C01/C02, nested rings, touching holes, all bitmaps; all operations and fill rules",
 "The forest is a global relation among contours; existing tests check it for two figures.",
 [T, L], [("parent assignment", "topology.rs: contours, scan_west"), ("grouping", "topology.rs: Contours::grouped")],
 bin="ops", technique=ENUM, note=BOUND + " Oracle: winding of each contour separately, at a sample in every cell of the output arrangement.")
prop("C08", "Every output segment reports the true winding numbers on both sides",
 "In the topology of any collection of tagged closed paths, each output segment's clockwise and counter-clockwise winding numbers equal the winding numbers, with respect to each input separately, of the plane on the two sides of that segment. The one-set, two-set and user-defined winding number types agree with each other.",
 ["inputs"], "polygon, curve, bitmap and tuple families; one to four sets; every cell of the arrangement, approached from four directions",
 "Winding numbers are what every operation is derived from; the tests only see them through snapshots and through four predicates on two sets.",
 [T], [("winding number accumulation", "topology.rs: from_segments, add_segs_*; winding_clockwise/counter_clockwise"), ("WindingNumber implementations", "topology.rs: impl WindingNumber")],
 bin="topo", technique=ENUM, note=BOUND + " Oracle: the exact winding number of a sample in every cell; compared with what the first output segment met along a ray reports.")
prop("C09", "The topology is a consistent planar map",
 "Output segments run in sweep order, each separates two different winding numbers, at every point the jumps in winding number cancel and cyclically neighbouring segments agree about the sector between them, no two output segments of straight input coincide or cross by more than the accuracy, and the bounding box is that of the input.",
 ["inputs"], "polygon, curve, bitmap and tuple families; one to four sets",
 "Consistency is needed at every vertex of every input; wrong neighbour links only show where several edges meet or coincide.",
 [T, "src/sweep/output_event.rs"], [("linking segments around a point", "topology.rs: point_neighbors, HalfOutputSegVec"), ("merging coincident segments", "topology.rs: merge_coincident"), ("bounding box", "topology.rs: bounding_box")],
 bin="topo", technique=ENUM, note=BOUND + " Oracle: conservation laws over the whole set of output segments, exact crossing predicates.")
prop("C10", "Computed positions join the right points and stay on their own curves",
 "The path computed for each output segment starts and ends exactly at that segment's two points, has no gap, runs downwards without turning back by more than a few times the accuracy, stays within a small multiple of the accuracy of the input curve that the segment came from, and (for straight input) crosses no other segment's path. If it says which of its pieces was left unperturbed, that piece is the input curve's.",
 ["inputs"], "polygon, curve, bitmap and tuple families; one to four sets",
 "Positions are only compared as pictures by the tests; a path that overshoots and comes back looks the same.",
 ["src/position.rs", T, "src/perturbation.rs"], [("positions", "position.rs: compute_positions, ordered_curves_all_close, next_subsegment")],
 bin="topo", technique=ENUM, note=BOUND + " Tolerances: 2 eps (straight) or 16 eps (curves) around the segment's own input curve. One known finding.")
prop("C21", "Positioned paths really have the left-to-right order that was decided",
 "The paths computed for two output segments keep one order, left to right, over all heights they share: they may touch, but they never cross. This holds for every straight input, and for curves wherever rounding leaves room (crossings by less than a thousandth of the accuracy are tolerated), for coordinates of either sign.",
 ["inputs"], "polygon, curve, bitmap and tuple families, also in negative coordinates; one to four sets; every pair of output segments",
 "position.rs promises that the curves it outputs really have the decided order; pictures cannot show two paths swapping places by less than the accuracy, and only certain coincidences make them.",
 ["src/position.rs", T, "src/curve/transverse.rs"], [("positions", "position.rs: compute_positions, ordered_curves_all_close"), ("transversality tests", "curve/transverse.rs: transversal_after, transversal_before"), ("neighbors", "topology.rs: close_neighbor_height_after")],
 bin="topo", technique=ENUM, note=BOUND + " Oracle: x ranges of both paths at sampled heights between every two ends of pieces. Two known findings (tangent ends).")
prop("C22", "Contours of any predicate on n-ary winding numbers bound exactly that set",
 "For any number of tagged sets and any predicate of the winding numbers that is false outside of everything, the contours of the topology bound exactly the points whose winding numbers satisfy the predicate, with the structural guarantees of contours (closed, simple, correctly nested and directed).",
 ["inputs"], "triples of polygons and bitmaps; all boolean functions of the memberships under both fill rules; winding number thresholds",
 "The tests exercise the four binary predicates; the API promises arbitrary ones on arbitrary winding number types.",
 [T], [("contours of a predicate", "topology.rs: contours"), ("user-defined winding numbers", "topology.rs: trait WindingNumber, from_paths")],
 bin="topo", technique=ENUM, note=BOUND + " Oracle: exact winding numbers at a sample in every cell, for every truth table that occurs.")
CS = "src/curve/mod.rs"
prop("C06", "Every finite input gets an answer: no panic, no hang, finite closed output",
 "For every pair of paths with finite coordinates: any sequence of path elements, including empty paths, lone MoveTos, repeated ClosePaths, elements after a ClosePath, zero-length and degenerate pieces, coordinates from 1e-100 to 1e12 for straight paths, accuracies larger than the figure, and whose subpaths are closed, each operation under each fill rule returns, without panicking (debug assertions and overflow checks included), contours that are closed, finite and within a few times the accuracy of the input's bounding box.",
 ["inputs"], "all sequences of path elements up to a depth over small grids; families with extreme scales and accuracies; all operations and fill rules",
 "Robustness is a claim about every sequence of elements; fuzz targets sample them, unit tests list a few.",
 [L, T, S, CS, "src/segments.rs"], [("reading paths", "segments.rs: add_bez_path, add_non_closed_bez_path"), ("termination of curve comparison", "curve/mod.rs: intersect_cubics_rec"), ("sweep loop", "sweep_line.rs: Sweeper::next_line")],
 bin="ops", technique=ENUM, note=BOUND + " A case that takes over 20 s counts as a hang. Curves with cusps at 1e7 times the accuracy take seconds and are outside the bounds. One known finding (curve of height 1e-300).")
prop("C07", "Invalid inputs are reported as errors, and nothing else is",
 "A path with a NaN coordinate gives Error::NaN and one with an infinite coordinate gives Error::Infinity, wherever in either operand the coordinate is; otherwise a path with a subpath that does not end where it started gives NonClosedPath with the start and end of the first such subpath; every other pair of paths is accepted. It never panics, through binary_op and binary_op_with_eps (and, for paths with finite coordinates, Topology::from_paths_binary).",
 ["inputs"], "every coordinate of every element of five figures (and every pair of coordinates) set to NaN, +inf, -inf, in either operand; all sequences of path elements up to a depth",
 "One bad coordinate in an interior control point, or an unusual order of MoveTo and ClosePath, escapes tests that try a few.",
 [L, T, "src/segments.rs"], [("checking finiteness", "lib.rs: check_finite, binary_op"), ("checking closedness", "segments.rs: add_bez_path")],
 bin="ops", technique=ENUM, note=BOUND + " Oracle: a validator written from the documentation.")
prop("C18", "Results do not depend on how the same sets are written down",
 "The set that an operation returns stays the same (up to the accuracy) when subpaths are reordered, a contour starts at another vertex or is closed implicitly, every contour's direction is reversed, lines are written as quadratic or cubic curves, edges are subdivided, empty subpaths are added, the operands of a symmetric operation are exchanged, or the whole plane is reflected, turned by right angles or scaled.",
 ["inputs"], "every rewriting of a list, for every pair of the polygon, bitmap and curve families; all operations and fill rules",
 "A metamorphic relation over all inputs; the tests never compare two ways of writing one figure.",
 [L, T, "src/segments.rs", S], [("path reading", "segments.rs"), ("symmetric handling of both operands", "topology.rs: BinaryWindingNumber")],
 bin="ops", technique=ENUM, note=BOUND + " Every rewriting is judged against the exact membership of the original figures.")
prop("C19", "Operations compose: results are valid inputs and obey the laws of sets",
 "The contours of a result can be fed back as an operand, through any sequence of operations, and the set they describe is at every step the one that the same sequence of set operations gives, up to an error that grows only linearly with the number of steps. In particular the laws of set algebra hold (idempotence, absorption, De Morgan with respect to a frame, xor as a symmetric difference, partition of the union into the two differences and the intersection).",
 ["history"], "all programs of operations of a depth over a pool of shapes, each result fed into the next; 12 laws for all pairs of the other families",
 "Output of one operation (coordinates rounded, curves cut) is a harder input than anything in the tests; errors accumulate over histories.",
 [L, T, "src/position.rs"], [("contours as paths", "topology.rs: contours, Contours"), ("binary operations", "lib.rs: binary_op")],
 bin="ops", technique=ENUM, note=BOUND + " Oracle: membership of a sample in every cell of the arrangement of all shapes used, margin per step.")
prop("C20", "Operations are deterministic and all entry points agree",
 "Calling an operation twice with the same arguments gives bit-for-bit the same contours, whatever else was computed in between; calls through binary_op, binary_op_with_eps with the automatically chosen accuracy, and Topology with the corresponding predicate give the same contours; inputs given as paths, path elements or point lists give the same topology.",
 ["inputs", "history"], "every pair of the families; repeated calls, other calls in between, clones, all entry points",
 "Hash maps and caches decide orders inside; a dependence on history only shows for particular inputs.",
 [L, T, "src/order.rs"], [("entry points", "lib.rs: binary_op, binary_op_with_eps; topology.rs: from_paths_binary, from_polylines_binary, from_paths"), ("comparison cache", "order.rs: ComparisonCache")],
 bin="ops", technique=ENUM, note=BOUND)
prop("C11", "The sweep reports every segment as one connected path along itself",
 "For any set of segments, of closed or open paths, the sweep reports heights in increasing order, and the reports about each segment, in order, form one connected path: it begins at the segment's start, comes from above and goes on below exactly once at every height in between, ends at the segment's end, never runs back and forth within a height, and everywhere lies within a small multiple of the accuracy of the segment. Horizontal segments are covered from end to end.",
 ["inputs"], "all sets of up to 5 unrelated segments over small point sets (joined or not), all pairs of polygons, curves, stars, combs, open paths; several accuracies, some of them large relative to the figure",
 "The sweep's own tests are snapshots of pictures of a few inputs, and its property tests sample; a segment lost, cut short or dragged away needs several almost coincident events at one height.",
 [S, "src/sweep/range.rs", "src/sweep/output_event.rs", "src/sweep/mod.rs", "src/segments.rs"], [("positions on a sweep line", "sweep_line.rs: next_range, feasible_horizontal_positions"), ("splitting into batches", "range.rs: events, increase_x"), ("entering and leaving", "sweep_line.rs: handle_enter, handle_exit")],
 bin="sweep", technique=ENUM, note=BOUND + " Tolerance 3 eps (max norm) for segments, 12 eps for curves; the shape of the reports is checked exactly.")
prop("C12", "The sweep line is complete and always in order up to the accuracy",
 "At every height the sweep line holds exactly the segments that cross it, in an order in which no segment precedes another one that is to its left by more than a small multiple of the accuracy: at that height and all the way down to the next sweep line. Every change from one sweep line to the next is within the ranges reported as changed.",
 ["inputs"], "all sets of up to 5 unrelated segments over small point sets, all pairs of polygons, curves, stars, combs, open paths; every sweep line and every gap between two sweep lines",
 "This is the algorithm's central invariant (docs/sweep.typ); the tests check it only with an optional feature on sampled inputs. A missed intersection needs a particular order of events.",
 [S, "src/order.rs", CS, "src/treevec.rs"], [("scheduling intersections", "sweep_line.rs: intersection_scan_left/right, handle_intersection"), ("inserting", "sweep_line.rs: insertion_idx, handle_enter"), ("changed ranges", "sweep_line.rs: compute_changed_intervals")],
 bin="sweep", technique="explicit-state exploration: every reachable sweep-line state of every input in the bounds, compared with a reference model of the sweep line", note=BOUND + " Oracle: exact contents; pairwise comparison of the segments' true extents within 3 eps of the height, margin 3 eps.")
prop("C17", "The sweep line's container behaves exactly like a vector",
 "Through every sequence of insertions and removals, at any index, TreeVec holds exactly the elements a plain vector would hold, in the same order: length, indexing, mutable access, iteration, sub-ranges (shared and mutable), collecting, cloning and binary search all agree with the vector, and the tree keeps its balance invariants. (For node widths of at least 4, as its documentation requires.)",
 ["history"], "every reachable tree shape for node widths 4 to 8 up to a number of elements, with every operation from each; all operation histories at interesting places for widths 4, 5, 16 and 128 (the width in use)",
 "The unit tests try three histories; splitting, merging and rebalancing of inner nodes needs particular shapes, and with the real width of 128 these only arise above thousands of segments, which no test reaches.",
 ["src/treevec.rs"], [("splitting", "treevec.rs: Node::insert"), ("merging and rebalancing", "treevec.rs: Node::remove, merge_from_left, merge_from_right"), ("iteration over ranges", "treevec.rs: TreeIter, TreeIterMut")],
 bin="tree", technique="explicit-state exploration: breadth-first search over all reachable shapes of the real data structure, every operation of every state checked against a vector model", note="States are the shapes of the real tree (from its own debug output); elements are relabelled in every state, so that every transition is checked for every element. Trusted: Vec.")
prop("C13", "Curve comparison agrees with the geometry of the two curves",
 "For any two y-monotone cubics, tolerance and accuracy, the comparison partitions exactly the common range of heights; wherever it says left or right, that curve really is on that side by at least the tolerance minus the accuracy (some height within the accuracy), wherever it says close the curves come within tolerance plus accuracy of each other at a height that near, and after adding vertical slop no height has the wrong order. Definite orders are always separated by a close interval.",
 ["inputs"], "all pairs of monotone cubics over lattices of control points (also flattened, stretched, offset and with different ranges), and all cubics against all small displacements of themselves, for displacements around the tolerance; tolerances 0.1 to 1e-6",
 "The comparison is iterative and approximate, and its errors depend on tangencies, near-horizontal stretches and near-coincidence of two cubics (16 parameters); its tests check a dozen pairs.",
 [CS], [("comparing", "curve/mod.rs: intersect_cubics, intersect_cubics_rec, with_rotation, push_quadratic_signs"), ("root finding", "curve/mod.rs: monic_quadratic_roots"), ("estimates", "curve/mod.rs: EstParab")],
 bin="curve", technique=ENUM, note=BOUND + " Oracle: the true horizontal extents near each height, from an independent root finder (safeguarded Newton on Bernstein form) and the exact x extrema.")
prop("C14", "Comparison results and the cache obey their algebra",
 "A curve comparison behaves as a step function of the height: flipping, looking up the order at or after a height, the interval at a height, the next touch or crossing after a height, and adding vertical slop all agree with that function; slop keeps the definite orders exactly where they hold throughout the slop. The cache answers every question as the comparison itself would, always in the same way whatever was asked before, the opposite for the opposite question, and never puts three segments in a circle.",
 ["inputs", "history"], "the comparisons of all pairs of cubics of lattices, seven slops, all queries at, between and next to all boundaries; all triples of cubics of lattices for the cache, in all orders of asking",
 "Off-by-one mistakes at interval boundaries and in the middle of close intervals show only for particular sequences of intervals; the tests look at one.",
 [CS, "src/order.rs"], [("queries", "curve/mod.rs: CurveOrder::order_at, order_after, entry_at, next_touch_after"), ("slop", "curve/mod.rs: CurveOrder::with_y_slop"), ("cache", "order.rs: ComparisonCache")],
 bin="curve", technique=ENUM, note=BOUND + " Oracle: a piecewise-constant function with its own definition of each query, written from the documentation.")
prop("C15", "Segments cut paths into monotone pieces and keep track of them",
 "Adding paths to a segment arena cuts every element, exactly in order, into y-monotone pieces that start where the last one ended, stay on the element and leave nothing of it out; lines are kept as they are. Previous and next links form exactly the contours that were added, cyclic for closed ones; orientations and oriented ends are true; entrances and exits list the starts of all segments and the ends of all non-horizontal ones, in order of height. Whatever is added later changes nothing about earlier segments; x at a height, and its bounds around a height, are right. Open subpaths are reported with their true end points.",
 ["inputs", "history"], "all paths of up to five elements (lines, quadratics, cubics, closings, moves) over small point sets, some next to degenerate; all histories of up to four additions from a menu of 28",
 "The cutting depends on roots in 8 parameters, with special cases for vanishing coefficients; the arena's state depends on the history of additions; the tests try a few.",
 ["src/segments.rs", "src/geom.rs"], [("adding", "segments.rs: add_points, add_closed_polyline, add_bez_path, add_non_closed_bez_path, update_enter_exit"), ("cutting", "geom.rs: monotonic_pieces, force_monotonic"), ("evaluating", "geom.rs: Segment::at_y, lower, upper")],
 bin="segs", technique="explicit-state exploration: all histories of additions against a list model, and bounded-exhaustive enumeration of paths judged by independent geometry", note=BOUND)
prop("C16", "The numeric kernels meet their documented accuracy",
 "Solving a monotone cubic for a height gives a parameter in [0, 1], exact at the ends, whose height is right to 1e-9 times the size of the coefficients; the piece of a curve between two heights starts and ends exactly at those heights, lies on the curve and does not turn back; the quadratic estimate of a curve is exact at its ends and wrong by no more than the bounds it reports; a quadratic's reported roots and signs describe its sign everywhere; shifting and evaluating agree.",
 ["inputs"], "all monotone cubics over lattices including control points within 1e-16 of the ends, eight scales and offsets, all pairs of 15 heights; all quadratics with small integer coefficients, or with coefficients from 1e-12 to 1e300 and zeros of both signs",
 "Numerical failures sit at nearly vanishing coefficients and next to the ends; the property tests sample, and have missed an ever more wasteful and an inaccurate root finder.",
 [CS], [("roots", "curve/mod.rs: solve_t_for_y, solve_x_for_y, y_subsegment"), ("estimates", "curve/mod.rs: EstParab::from_cubic"), ("signs", "curve/mod.rs: Quadratic::signs, shift")],
 bin="curve", technique=ENUM, note=BOUND + " Oracle: de Casteljau evaluation and safeguarded Newton root finding, direct evaluation of the quadratic.")
