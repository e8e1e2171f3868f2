"""The properties: writes properties.jsonl and MANIFEST.json for those whose check exists."""
import json
import os

V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
TESTS = "The repository's tests"
P = []


def prop(id, title, statement, over, text, why, files, mech, technique, note):
    P.append(dict(id=id, title=title, statement=statement, over=over, text=text, why=why, files=files,
                  mech=mech, technique=technique, note=note))


N = "neutralocean/"
SURF = "neutralocean/surface/isopycnal.py"
OM = "neutralocean/surface/omega.py"

prop("C01", "A potential density surface lies where its potential density is the isovalue",
     "For every cast, if the potential density (referenced to the surface's reference pressure) has opposite signs relative to the isovalue at the two ends of the cast's first block of valid bottles, the surface is wet there, at a pressure within the requested tolerance of a crossing of the isovalue; if it has the same sign everywhere on the cast, the surface is NaN there. "
     "Where wet, the returned salinity and temperature are the chosen interpolants of that cast's data at the returned pressure; salinity, temperature and pressure are NaN together. Casts with fewer than two valid bottles are always NaN.",
     ["inputs", "configurations"],
     "all casts (land, bottom, under ice, with gaps, one bottle, 1D or ND pressure) x equations of state x interpolants x Boussinesq or not x tolerances",
     TESTS + " solve one synthetic ocean with one equation of state and linear interpolation, and compare density at a loose tolerance; no gaps, ice, PCHIP, specific volume, Boussinesq or dry/wet boundary.",
     [SURF, "neutralocean/surface/_vertsolve.py", "neutralocean/fzero.py"],
     [("potential_surf", SURF), ("vertical solver", "neutralocean/surface/_vertsolve.py")],
     "runtime monitor: every returned cast judged by an independent sign-change oracle on reference EOS and interpolants",
     "Randomised executions of the real function; each cast's verdict comes from the published EOS / GSW C library and numpy/scipy interpolants. Ambiguous casts (several crossings) are judged only for what the statement promises.")

prop("C02", "An anomaly surface lies where its density anomaly is the isovalue",
     "As for potential density surfaces, with the in-situ density (or specific volume) minus that of the reference salinity and temperature at the same pressure in place of potential density: wet within tolerance of a crossing of the isovalue when the ends of the cast bracket it, NaN when no crossing exists. "
     "Where wet, salinity and temperature are the cast's interpolants at the returned pressure, and all three outputs are NaN together.",
     ["inputs", "configurations"],
     "all casts x equations of state x interpolants x Boussinesq or not x reference salinities and temperatures x tolerances",
     TESTS + " solve one synthetic ocean with one equation of state and linear interpolation.",
     [SURF, "neutralocean/surface/_vertsolve.py"],
     [("anomaly_surf", SURF), ("vertical solver", "neutralocean/surface/_vertsolve.py")],
     "runtime monitor: every returned cast judged by an independent sign-change oracle",
     "As C01.")

prop("C03", "Isopycnal surfaces honour the given reference, isovalue and pinning",
     "A surface given only a pinning cast and pressure passes exactly through that point, with reference values taken there and the isovalue evaluated there; given a reference and a pinning point it passes exactly through the point with the given reference; given a reference and an isovalue it is the surface of that isovalue. "
     "The returned diagnostics report the reference and isovalue actually used. A call that gives none of these combinations is refused rather than answered.",
     ["inputs", "configurations"],
     "all combinations of reference, isovalue, pinning cast and pinning pressure x kinds of surface x equations of state",
     TESTS + " use a single pinning point and one reference/isovalue pair.",
     [SURF], [("_process_args / _isopycnal", SURF)],
     "runtime monitor on call arguments and results over all argument combinations",
     "Exact equality at the pinning cast; other casts judged with the C01/C02 oracle.")

prop("C04", "A neutral link ends where the two bottles are equally dense at mid-pressure",
     "Linking a bottle to a cast returns a pressure on the cast at which the bottle and the cast's interpolated water have equal density referenced to their average pressure, within tolerance; it returns NaN exactly when no such point exists on the cast's first block of valid bottles (given a bracketed search), or the cast has fewer than two valid bottles. "
     "The returned salinity and temperature are the cast's interpolants at the returned pressure.",
     ["inputs", "configurations"],
     "all bottles x casts (gaps, ice, bottom, one bottle) x equations of state x interpolants x tolerances",
     TESTS + " never call it directly.",
     ["neutralocean/traj.py", "neutralocean/fzero.py"],
     [("ntp_bottle_to_cast", "neutralocean/traj.py")],
     "runtime monitor: each link judged by an independent sign-change oracle",
     "As C01.")

prop("C05", "A neutral trajectory is a chain of neutral links",
     "Along a neutral trajectory, each point is the neutral link of the point before it to the next cast, starting from the given point on the first cast; once a link fails, every later point is NaN. "
     "Salinity, temperature and pressure are NaN together.",
     ["inputs", "histories"],
     "all sequences of casts, including land and shallow casts, and starting points on or off the first cast",
     TESTS + " never call it.",
     ["neutralocean/traj.py"], [("neutral_trajectory", "neutralocean/traj.py")],
     "online trace checker: every step of the trajectory judged as a neutral link from its predecessor",
     "As C04.")

prop("C06", "An omega surface is pinned, consistent, and connected to its pinning cast",
     "After any number of iterations, an omega surface is at exactly the initial pressure at the pinning cast, every wet cast lies on its data's pressure range with salinity and temperature equal to the interpolants there, and the three outputs are NaN together. "
     "No cast is wet that cannot be reached from the pinning cast through ocean casts. A start that does not exist at the pinning cast is refused.",
     ["inputs", "configurations", "histories"],
     "all oceans x grids (rectilinear, periodic, trees, general graphs, disconnected basins) x initial surfaces (scalar or array) x formulations x iteration counts x wetting x mixed layers",
     TESTS + " run one small rectilinear ocean and check the error norm only.",
     [OM, "neutralocean/bfs.py", "neutralocean/surface/_vertsolve.py"],
     [("omega_surf", OM), ("breadth-first search", "neutralocean/bfs.py")],
     "runtime invariant monitor on every returned surface",
     "Invariants are recomputed from the inputs by reference interpolants and own graph search.")

prop("C07", "Each omega iteration is the least-squares correction of neutrality errors",
     "One iteration (wetting off) moves each cast of the pinning cast's connected wet region to where its density, at its old pressure, has changed by the perturbation that minimises the face-weighted sum of squared neutrality errors, relative to zero at the pinning cast; casts outside the region become NaN, and casts that cannot be moved so become NaN. "
     "Both formulations give this solution (the iterative one approximately). With a linear equation of state one iteration makes the region's surface exactly isopycnal.",
     ["inputs", "histories"],
     "all surfaces reached after any number of iterations x grids and geometries x equations of state x formulations",
     TESTS + " compare one final error norm, which a wrong weighting or sign in part of the grid need not change.",
     [OM, "neutralocean/surface/_vertsolve.py", "neutralocean/ntp.py"],
     [("matrix problems", OM), ("vertical update", "neutralocean/surface/_vertsolve.py")],
     "online checker of the iteration's transition relation against a dense least-squares reference",
     "Surface after n and n+1 iterations compared with an independent dense solution and vertical solve; LSQR formulation within 1e-2 of the largest perturbation.")

prop("C08", "Wetting grows a surface by neutral links from its wet neighbours",
     "Starting from one point, or from the part of a given surface connected to the pinning cast, an omega surface is extended pass by pass from the casts already wet: a dry ocean cast, in the pass after a neighbour of it first became wet, becomes wet if and only if some wet neighbour has a neutral link to it that lies below the mixed layer, at the average pressure of those links. "
     "Wetting stops only when no untried cast next to the wet region is left, and the number of newly wet casts is the number reported.",
     ["inputs", "histories"],
     "all oceans x grids x starting points and surfaces x mixed layers",
     TESTS + " check only the final error norm of one ocean, which is insensitive to which casts are wet.",
     ["neutralocean/bfs.py", OM, "neutralocean/traj.py"],
     [("perimeter wetting", "neutralocean/bfs.py"), ("initial surface", OM)],
     "online checker: wetting replayed pass by pass with the public neutral-link function as primitive",
     "Exact replay on bipartite grids, where the order within a pass cannot matter; bounds and completeness on general graphs.")

prop("C09", "The mixed layer is removed from omega surfaces as specified",
     "From the second iteration on, casts where the surface is shallower than the given mixed layer base are removed before the surface is updated, and links into the mixed layer are not accepted by wetting in any iteration; the given initial surface is not cut in the first iteration. "
     "Giving mixed layer parameters instead of a mixed layer is the same as giving the mixed layer computed with them; giving none removes nothing.",
     ["inputs", "histories", "configurations"],
     "all mixed layer fields or parameters x oceans x grids x iteration counts",
     TESTS + " never use a mixed layer.",
     [OM, "neutralocean/bfs.py", "neutralocean/mixed_layer.py"],
     [("mixed layer removal", OM), ("link test", "neutralocean/bfs.py")],
     "online checker of iterations with a mixed layer against the reference transition",
     "As C07 and C08.")

prop("C10", "Diagnostics describe the surface and the iterations that produced it",
     "The neutrality error norms and wet cast counts reported equal those of the surface returned, and for omega surfaces the i'th entry describes the surface after i iterations, the same as a run stopped there; the changes of pressure and density reported for an iteration are those it made, and every diagnostic has one entry per iteration plus the initial state. "
     "Asking for diagnostics or printed output never changes the surface.",
     ["inputs", "histories", "configurations"],
     "all surfaces x diagnostics on/off x output on/off x iteration counts",
     TESTS + " read one error norm at the end of one run.",
     [SURF, OM, "neutralocean/ntp.py"], [("diagnostics", OM), ("diagnostics", SURF)],
     "offline checker of the recorded iteration history against independently recomputed norms",
     "Norms recomputed with the reference EOS; histories compared with runs stopped at each iteration.")

prop("C11", "Neutrality errors are the density differences along edges, area-weighted",
     "The neutrality error of an edge is the difference, from its first to its second cast, of salinity and temperature weighted by the density derivatives at the average salinity, temperature and pressure, divided by the edge's length; it is NaN when either cast is dry. "
     "The norms are the area-weighted root mean square and mean absolute value of these over wet edges, and zero when there are none.",
     ["inputs", "configurations"],
     "all surfaces x graphs x geometries (missing, scalar, per edge) x equations of state x Boussinesq or not",
     TESTS + " use unit geometry and compare a norm with a stored order of magnitude.",
     ["neutralocean/ntp.py"], [("ntp_epsilon_errors(_norms)", "neutralocean/ntp.py")],
     "runtime monitor against reference derivatives and norms",
     "Reference derivatives from complex-step differentiation and the GSW C library.")

prop("C12", "A rectilinear grid joins each cast to its neighbours with the given distances",
     "The grid's edges are exactly the pairs of casts adjacent along either horizontal dimension, once each, including across periodic boundaries and not across others, and each carries the given distance between the casts and length of the face between them, whichever shape those were given in. "
     "Mapping edge data back onto the grid puts each edge's value at its cast, with NaN where a non-periodic boundary has no edge.",
     ["inputs", "configurations"],
     "all grid sizes (including one row) x periodicities x scalar, 1D and 2D distances",
     TESTS + " build one grid with unit distances.",
     ["neutralocean/grid/rectilinear.py"], [("build_grid, edgedata_to_maps", "neutralocean/grid/rectilinear.py")],
     "runtime monitor: edge multiset and geometry compared with an independent enumeration",
     "Every edge of every generated grid is judged.")

prop("C13", "A tripolar grid folds its northern edge and wraps its zonal edge",
     "The grid's edges are exactly the pairs of casts adjacent in the interior, around the periodic zonal dimension, and across the folded northern boundary, where each cast faces its mirror image; each edge carries the given distances, from arrays with or without the padding of the model's files.",
     ["inputs", "configurations"], "all grid sizes x distance arrays, padded or not",
     TESTS + " never build one.",
     ["neutralocean/grid/tripolar.py"], [("build_grid", "neutralocean/grid/tripolar.py")],
     "runtime monitor: edges and geometry compared with an independent enumeration",
     "Every edge of every generated grid is judged.")

prop("C14", "A multi-face grid joins casts within and across faces as its topology says",
     "For any simple or face-connected topology, the grid's edges are exactly the pairs of casts adjacent within a face or across connected faces, including rotated connections, once each; each edge carries the distances of the first cast's left or lower side, and unconnected boundaries have no edges.",
     ["inputs", "configurations"], "all face connections (periodic, rotated, lat-lon-cap) x face sizes x distances given or not",
     TESTS + " never build one.",
     ["neutralocean/grid/xgcm.py"], [("build_grid", "neutralocean/grid/xgcm.py")],
     "runtime monitor: edges and geometry compared with an independent enumeration",
     "Topologies: single face (periodic or not), two faces, 13-face lat-lon-cap.")

prop("C15", "Graph representations are faithful to the given edges and weights",
     "Converting between an adjacency matrix (dense or sparse, symmetric or one-sided), a list of edges, and a neighbour list preserves the undirected graph: every edge appears once (twice in a neighbour list, in the order given), with its own distance and face length. "
     "A search from a root visits exactly the good casts joined to it by good casts, each once; applying a binary function to edges gives its value on each edge's end points, in order.",
     ["inputs"], "all undirected graphs x representations x weights x sets of good nodes",
     TESTS + " do not test these functions.",
     ["neutralocean/grid/graph.py", "neutralocean/bfs.py"],
     [("build_grid, edges_to_graph, edges_to_csr", "neutralocean/grid/graph.py"), ("bfs_conncomp1", "neutralocean/bfs.py")],
     "runtime monitor: round trips compared with an independent set of edges; independent union-find",
     "Every edge and node of every generated graph is judged.")

prop("C16", "Divergence conserves what flows along edges",
     "The divergence at a cast is the net outflow along its edges, each value times its face length, divided by the cast's area; whatever the graph, the area-weighted sum over all casts is zero, and the operator is linear. "
     "Aggregation sums exactly the values of each group and ignores negative labels.",
     ["inputs"], "all graphs x edge data x geometries",
     TESTS + " do not test these functions.",
     ["neutralocean/grid/tools.py", "neutralocean/lib.py"],
     [("divergence", "neutralocean/grid/tools.py"), ("aggsum", "neutralocean/lib.py")],
     "conservation monitor plus exact reference on integer data",
     "Integer-valued data make sums exact.")

prop("C17", "Interpolants and their derivatives are those of the first valid block of data",
     "Every variant of the linear and PCHIP interpolators (one or many problems, with or without missing data, one or two variables, via coefficients or direct) gives the same value and derivatives: those of the standard interpolant of the first contiguous block of valid data, continuous from the left at knots, reproducing the data and monotone between them for PCHIP. "
     "Evaluation outside that block, at NaN, or with fewer than two valid points gives NaN, never an error or a value.",
     ["inputs", "configurations"],
     "all data (missing values anywhere, 1 to many points, extreme scales) x evaluation sites (knots, ends, outside, NaN) x derivative orders x variants x broadcasts",
     TESTS + " compare one fixed dataset without missing values at interior points for a few variants.",
     ["neutralocean/ppinterp/linear.py", "neutralocean/ppinterp/pchip.py", "neutralocean/ppinterp/ppinterp.py", "neutralocean/ppinterp/tools.py"],
     [("make_pp and evaluators", "neutralocean/ppinterp/")],
     "differential runtime monitor: all variants against numpy/scipy interpolants",
     "Reference: numpy linear and scipy PCHIP, restricted to the first valid block.")

prop("C18", "The root finder brackets, converges, and always terminates",
     "Given a function that changes sign over a range, the bracketed root finder returns a point within tolerance of a sign change after a bounded number of evaluations, all within the range; without a sign change or with a bad range it returns NaN. "
     "Expanding outwards from a guess returns a sub-range with a sign change, near the guess when one is near, whenever the two ends of the full range differ in sign, never leaves the range, and terminates for every guess, including outside the range, at its ends, and in ranges of a few floating point numbers.",
     ["inputs"], "all continuous or discontinuous functions x ranges x guesses x tolerances",
     TESTS + " find roots of three smooth functions.",
     ["neutralocean/fzero.py"], [("brent, guess_to_bounds, brent_guess", "neutralocean/fzero.py")],
     "instrumented function: every evaluation recorded (argument, count) and judged",
     "Evaluation logs show every argument at which the function was evaluated; a limit on evaluations stands for termination.")

prop("C19", "Equations of state and their derivatives are the published ones",
     "Each equation of state returns the published density or specific volume, and each derivative function returns that equation's true partial derivatives to the orders it claims, with the documented units, throughout the oceanographic range; the TEOS-10 polynomial takes negative salinity as zero, as the published code does.",
     ["inputs"], "all salinities, temperatures and pressures in the oceanographic range x equations of state x derivatives",
     TESTS + " compare one check value per equation, and first derivatives by finite differences at loose tolerance on a few points.",
     ["neutralocean/eos/gsw.py", "neutralocean/eos/gswc.py", "neutralocean/eos/jmd95.py", "neutralocean/eos/jmdfwg06.py"],
     [("equations of state", "neutralocean/eos/")],
     "differential runtime monitor against independently transcribed polynomials (complex step) and the GSW C library",
     "Trusts the transcription (itself matched against check values) and the GSW C library.")

prop("C20", "Equation of state factories give the function asked for, every time",
     "Asking for an equation of state, or its salinity and temperature or pressure derivatives, by name or function, gives that function; with gravity and reference density both given it takes depth instead, evaluated at the corresponding hydrostatic pressure, with pressure derivatives scaled to depth derivatives. "
     "Repeated and interleaved requests with different parameters never give one another's functions, and vectorised versions broadcast to the scalar function's values.",
     ["inputs", "histories", "configurations"],
     "all equations x derivatives x gravities and densities x sequences of requests longer than any cache",
     TESTS + " make each function once, never Boussinesq.",
     ["neutralocean/eos/tools.py", "neutralocean/lib.py"],
     [("make_eos, make_eos_s_t, make_eos_p, make_bsq, vectorize_eos", "neutralocean/eos/tools.py")],
     "history monitor: random request sequences, each returned function judged against the reference EOS",
     "As C19.")

prop("C21", "The mixed layer base is where potential density first exceeds the threshold",
     "For casts whose potential density increases downwards, the mixed layer base is the interpolated pressure at which potential density (at the given reference pressure) exceeds that of the given near-surface bottle by the given amount, for density and specific volume equations alike; it is NaN where the cast never reaches it.",
     ["inputs", "configurations"],
     "all stable casts x equations of state x thresholds x bottle indices x reference pressures x interpolants x layouts",
     TESTS + " never call it.",
     ["neutralocean/mixed_layer.py"], [("mixed_layer", "neutralocean/mixed_layer.py")],
     "runtime monitor against reference EOS and interpolants",
     "Casts are sorted so that the density difference is strictly increasing, as the method needs.")

prop("C22", "Veronis density is the integrated vertical density gradient",
     "The Veronis density equals the potential density at the starting pressure plus the factor times the integral of the locally referenced density gradient from the starting to the final pressure, to the accuracy of the step; it is additive over sub-intervals, antisymmetric in direction, exact for a linear equation of state, and NaN outside the cast.",
     ["inputs", "configurations"],
     "all casts x pressures (knots, ends, outside) x steps x equations of state x interpolants",
     TESTS + " never call it.",
     ["neutralocean/label.py"], [("veronis", "neutralocean/label.py")],
     "runtime monitor: reference quadrature, plus additivity and antisymmetry between executions",
     "Reference: independent trapezoid on the same nodes and Gauss-Legendre quadrature to the step's accuracy.")

prop("C23", "Stabilisation makes every cast stable, moves it least, and spares stable casts",
     "After stabilisation, every adjacent pair of bottles in a cast's first block of valid data has at least the requested locally referenced density gradient, missing data and casts that were already stable are bitwise unchanged, and the weighted size of the change is no larger than needed. "
     "Counting unstable pairs counts exactly the adjacent pairs whose upper bottle is at least as dense at their mean pressure, or, given an interpolant, the bottles at which it makes locally referenced density decrease with pressure.",
     ["inputs", "configurations"],
     "all casts with instabilities x thresholds (scalar or per pair) x weights x layouts x equations of state",
     TESTS + " never call it.",
     ["neutralocean/stability.py"], [("stabilize_ST, count_unstable", "neutralocean/stability.py")],
     "runtime monitor: constraint, frame and optimality conditions checked on the mutated data",
     "Optimality judged against an independent optimisation of the same problem for few bottles.")

prop("C24", "Results do not depend on how the data are laid out or wrapped",
     "Surfaces, trajectories, mixed layers and stability counts have the same numbers whichever dimension is vertical, whether the ocean data are plain or labelled arrays, contiguous or views, of any numeric type or byte order holding the same values, with pressure 1D or repeated for every cast, and with the pinning cast given as an index, tuple, list or labelled coordinates in any order. "
     "Surfaces of labelled data are labelled with the same dimensions, coordinates, name and attributes, less the vertical.",
     ["inputs", "configurations"],
     "all layouts and containers x public functions",
     TESTS + " use one layout of plain arrays.",
     ["neutralocean/lib.py", SURF, OM, "neutralocean/traj.py"],
     [("input processing", "neutralocean/lib.py")],
     "differential runtime monitor: same calculation over layouts, bitwise comparison",
     "Equality is bitwise, as the numbers processed are the same.")

prop("C25", "Inputs are never modified",
     "No public function changes the arrays, labelled arrays, grids, dictionaries or options it is given, nor returns surfaces, grids or interpolants that share memory with them, except those documented to: stabilisation, which changes salinity and temperature only, and the search of a graph, which consumes its set of good nodes.",
     ["inputs", "configurations"], "all public functions x layouts x containers, including read-only arrays",
     TESTS + " never compare inputs before and after.",
     ["neutralocean/"], [("all public functions", "neutralocean/")],
     "write monitor: byte snapshots and read-only memory around every public call",
     "Writes are detected by comparison of bytes and by write protection.")

prop("C26", "No execution reads or writes outside its arrays or depends on stale memory",
     "No public function, on any valid input including empty, one-bottle and all-missing casts and unconnected grids, reads or writes outside the arrays it was given or allocated, and no result depends on the contents of uninitialised memory.",
     ["inputs", "configurations"], "all public functions x hostile shapes and missing data patterns",
     TESTS + " run compiled code without bounds checks on ordinary data.",
     ["neutralocean/bfs.py", "neutralocean/ppinterp/", "neutralocean/traj.py", "neutralocean/surface/_vertsolve.py", "neutralocean/grid/graph.py"],
     [("compiled kernels", "neutralocean/")],
     "bounds sanitizer (compiled code rebuilt with bounds checks) and heap poisoning with differential comparison",
     "The compiled kernels are rebuilt with index checking; runs under different heap fill patterns must agree bitwise.")

prop("C27", "Results are deterministic, independent of history and of other threads",
     "The same call gives bitwise the same result in a fresh process, after any sequence of other calls with other parameters, and while other threads run other calls.",
     ["histories", "schedules", "configurations"], "all sequences and concurrent mixtures of public calls",
     TESTS + " run each calculation once, in one order, in one thread.",
     ["neutralocean/eos/tools.py", "neutralocean/ppinterp/tools.py", "neutralocean/surface/_vertsolve.py"],
     [("function caches", "neutralocean/eos/tools.py"), ("function caches", "neutralocean/surface/_vertsolve.py")],
     "history and concurrency monitor: result digests compared over orders, processes and thread schedules",
     "Digests of every result; the thread runs use a tiny switch interval and random delays.")

prop("C28", "Array utilities give what they document for every missing-data pattern",
     "Finding the first missing value, the first valid block, the value at an index along the vertical, and filled selection give, for every pattern of missing data, dimension and index, the documented result and shape.",
     ["inputs"], "all shapes, axes, patterns of missing data and indices",
     TESTS + " never call them directly.",
     ["neutralocean/lib.py", "neutralocean/ppinterp/lib.py"],
     [("find_first_nan, val_at, take_fill", "neutralocean/lib.py"), ("valid_range", "neutralocean/ppinterp/lib.py")],
     "runtime monitor against brute-force definitions, exhaustive over short missing-data patterns",
     "Every pattern of missing values up to a length is enumerated at run time.")

prop("C29", "Omega iterations start, stop and wet when their parameters say",
     "Iterations end at the first one, not before the minimum number, whose mean density perturbation is below its tolerance (in kg m-3 even for specific volume) or whose root mean square pressure change is below its own, and otherwise at the maximum number. "
     "Wetting happens in exactly the iterations from its first to its last, and a run with a larger maximum continues one with a smaller maximum unchanged.",
     ["inputs", "histories", "configurations"], "all iteration parameters x oceans x equations of state",
     TESTS + " use a single setting and look at the end result.",
     [OM], [("iteration loop", OM)],
     "trace checker over the recorded iteration history",
     "Tolerances are placed between observed values of consecutive iterations; histories are compared bitwise.")


prop("C30", "A search that wets extends a surface by single neutral links as far as they go",
     "Searching a surface from a wet root while wetting finds exactly the wet casts connected to the root, each once, and leaves casts that were wet as they were. A dry ocean cast next to a cast found becomes wet if and only if some cast found has a neutral link to it that lies below the mixed layer, and is placed at the first such link in the order of the search, with salinity and temperature there; the number of casts wetted is reported. From a dry root nothing is found and nothing changes.",
     ["inputs", "configurations"], "all graphs x oceans x given surfaces x mixed layers x orders of neighbours x roots",
     TESTS + " never call it.",
     ["neutralocean/bfs.py", "neutralocean/traj.py"],
     [("bfs_conncomp1_wet", "neutralocean/bfs.py")],
     "runtime monitor: every search judged by an independent replay of neutral links along its own queue",
     "Randomised executions; the queue returned is the trace, each cast next to it is judged by the public neutral-link function.")

prop("C31", "A synthetic ocean is the one its parameters describe",
     "A synthetic ocean of any shape has salinity and temperature that vary linearly by level from the surface to the bottom, pressures that increase as the cube of the level to the depth asked for, and land exactly along the walls that are not periodic. The surface salinity anomaly given raises salinity by that much at the southernmost surface casts, decreasing linearly to the north and to the bottom, and changes nothing else; if zonally uniform, all longitudes are equal. The grid's positions, distances and areas are those of cells on a sphere, and calls are repeatable and share no memory.",
     ["inputs", "configurations"], "all shapes x depths x salinity anomalies x walls x uniform or not",
     TESTS + " use one ocean, whose errors they compare with recorded numbers.",
     ["neutralocean/synthocean.py"],
     [("fields, walls and grid of the synthetic ocean", "neutralocean/synthocean.py")],
     "runtime monitor: every ocean made is compared with closed-form fields and spherical geometry, and with oceans that differ in one option",
     "Randomised executions over shapes and options.")

prop("C32", "What cannot be computed is refused, and refusing leaves no trace",
     "A request that cannot be met raises an error instead of being answered: an unknown equation of state, interpolant, formulation, shift or vertical dimension; a surface whose reference and pinning are missing, incomplete or of the wrong kind; a start of another shape than the ocean, or that does not exist at the pinning cast; a pinning cast outside the ocean; diagnostics without a grid; distances of a grid that do not fit its dimensions or one another. Nothing given has changed when it is refused, and valid requests made after it are answered exactly as before.",
     ["inputs", "histories", "configurations"], "all functions x ways for a request to be impossible",
     TESTS + " make no impossible request.",
     ["neutralocean/surface/isopycnal.py", "neutralocean/surface/omega.py", "neutralocean/lib.py", "neutralocean/ppinterp/tools.py", "neutralocean/eos/tools.py", "neutralocean/grid"],
     [("surface arguments", "neutralocean/surface/isopycnal.py"), ("omega arguments", "neutralocean/surface/omega.py"), ("grid arguments", "neutralocean/grid")],
     "runtime monitor: each valid call is made impossible in one way; the monitor requires an exception, unchanged arguments, and bitwise the same answer to the valid call before and after",
     "Randomised executions over functions and ways.")


def main():
    done = [p for p in P if os.path.exists(f"{V}/nv/checks/{p['id'].lower()}.py")]
    with open(f"{V}/properties.jsonl", "w") as f:
        for p in done:
            f.write(json.dumps(dict(
                id=p["id"], title=p["title"], statement=p["statement"],
                quantifier=dict(over=p["over"], text=p["text"]), why_tests_cant=p["why"],
                anchors=dict(files=p["files"], mechanism=[dict(name=a, where=b) for a, b in p["mech"]])),
                ensure_ascii=False) + "\n")
    checks = [dict(property=p["id"], quick_cmd=f"/opt/venv/bin/python check.py {p['id']}",
                   thorough_cmd=f"VERIF_TIER=thorough /opt/venv/bin/python check.py {p['id']}",
                   evidence_file=f"evidence/{p['id']}.json", technique=p["technique"], level="exploration",
                   level_note=p["note"]) for p in done]
    json.dump(dict(version=1, setup_cmd="true", checks=checks, not_applicable=[],
                   notes="Pure Python/numba project: checks import /repo's working tree directly and compile it anew in every process; no hooks in /repo."),
              open(f"{V}/MANIFEST.json", "w"), indent=1, ensure_ascii=False)
    open(f"{V}/MANIFEST.json", "a").write("\n")
    for p in P:
        assert len(p["title"]) <= 80, p["title"]
        assert p["statement"].replace("e.g.", "").count(". ") <= 2, (p["id"], p["statement"])


if __name__ == "__main__":
    main()
