"""Writes /verif/properties.jsonl (the single source of the property texts)."""
import json, os

P = []


def prop(id, title, statement, over, text, why, files, mech, state=(), observe=()):
    P.append({
        "id": id, "title": title, "statement": " ".join(statement.split()),
        "quantifier": {"over": over, "text": " ".join(text.split())},
        "why_tests_cant": " ".join(why.split()),
        "anchors": {
            "files": files,
            "state": [{"name": a, "meaning": b, "where": c} for a, b, c in state],
            "mechanism": [{"name": a, "where": b} for a, b in mech],
            "observe_at": list(observe),
            "hook_needed": None,
        },
    })


GR = "pygsp/graphs/graph.py"
prop("C01", "A graph represents exactly the adjacency matrix it was given",
     """A graph built from any valid square adjacency matrix (dense, list, or any sparse
     format and numeric type) holds exactly its non-zero weights, and the vertex count,
     edge count, binary adjacency, degrees, weighted degrees, directedness, weightedness
     and self-loop answers are those of that matrix. The edge list contains every edge
     exactly once with its weight (once per pair for undirected graphs) and rebuilds the
     adjacency matrix. Non-square, NaN or infinite matrices are rejected.""",
     ["inputs", "configurations"],
     "All square weight matrices: directed or not, with self-loops, explicit zeros, isolated vertices, one vertex, no edge, every container format and dtype.",
     "The tests build a handful of hand-written matrices and named graphs; they never vary format, dtype, sparsity pattern, loops and directedness together.",
     [GR], [("Graph.__init__, get_edge_list, d, dw, is_*", GR)],
     [("_adjacency", "CSR weights", GR), ("_d, _dw, _A, _directed", "lazy caches", GR)],
     ["W, A, d, dw, n_vertices, n_edges, get_edge_list()"])

prop("C02", "Connectivity and connected components are exact",
     """A graph is reported connected if and only if every vertex can reach every other one
     (along edge directions when directed). Splitting an undirected graph returns the
     partition of its vertices into maximal connected sets, each as a connected graph whose
     weights, coordinates and signals are those of the original restricted to that set, with
     the original indices recorded; directed graphs are refused rather than split. The
     answer is the same no matter which other quantities were queried before.""",
     ["inputs", "histories"],
     "All directed and undirected graphs, including isolated vertices, one vertex, and several components, and any earlier queries.",
     "Tests check a few small fixed graphs, never against an independent reachability computation.",
     [GR], [("is_connected", GR), ("extract_components", GR)],
     [("_connected", "cached answer", GR)], ["is_connected()", "extract_components()"])

prop("C03", "The Laplacian matrix obeys its definition",
     """The combinatorial Laplacian is the diagonal of weighted degrees minus the weights and
     the normalized one is the identity minus the degree-normalized weights with zero
     diagonal at isolated vertices; directed graphs use the average of the weights and their
     transpose, and switching type recomputes it. Self-loops cannot be seen by the
     combinatorial Laplacian, which annihilates constant signals. For non-negative
     weights both are symmetric positive semi-definite, with as many null eigenvalues as
     connected components (without loops), and the normalized spectrum lies in [0, 2].""",
     ["inputs", "configurations"],
     "All weight matrices of every numeric type (boolean, small or unsigned integers, floats), directed or not, with loops or isolated vertices, both Laplacian types.",
     "Tests compare L on a few float graphs; dtype overflow, loops and isolated vertices in combination with direction are not sampled.",
     [GR, "pygsp/utils.py"], [("compute_laplacian", GR), ("symmetrize", "pygsp/utils.py")],
     [("L, lap_type", "current Laplacian", GR)], ["L"])

prop("C04", "The Laplacian is the divergence of the gradient",
     """The differential operator D has one column per edge of the edge list and satisfies
     L = D D^T for either Laplacian type and any direction. The gradient on an edge is the weighted
     difference of the (degree-normalized, for the normalized Laplacian) signal across it
     and the divergence is the adjoint of the gradient,
     for single signals and for stacks of signals alike. The Dirichlet energy equals both x^T L x and the
     squared norm of the gradient.""",
     ["inputs", "configurations"],
     "All non-negatively weighted graphs and all vertex and edge signals.",
     "Tests use two tiny graphs; normalized-and-directed, self-loops and multi-column signals are not covered.",
     ["pygsp/graphs/difference.py", GR], [("compute_differential_operator, grad, div", "pygsp/graphs/difference.py"), ("dirichlet_energy", GR)],
     [("_D", "cached operator", "pygsp/graphs/difference.py")], ["D", "grad()", "div()", "dirichlet_energy()"])

prop("C05", "The Fourier basis diagonalizes the Laplacian",
     """The full Fourier basis is orthonormal, its columns are eigenvectors of the current
     Laplacian for the returned eigenvalues, which are real, non-negative, sorted, start at
     exactly zero and end at the reported largest eigenvalue; the coherence is the largest
     absolute entry of the basis, between 1/sqrt(N) and 1. A partial basis holds the smallest
     eigenvalues with their eigenvectors, and never shadows a later request
     for a larger or full basis; impossible sizes are rejected. This holds for disconnected graphs and for weights of any
     magnitude.""",
     ["inputs", "configurations", "histories"],
     "All undirected and directed graphs with non-negative weights, both Laplacians, every number of requested eigenvectors, repeated requests.",
     "Tests check a couple of connected graphs with unit-scale weights.",
     ["pygsp/graphs/fourier.py"], [("compute_fourier_basis", "pygsp/graphs/fourier.py")],
     [("_U, _e, _coherence, _lmax", "cached decomposition", "pygsp/graphs/fourier.py")], ["U, e, lmax, coherence"])

prop("C06", "The graph Fourier transform is a unitary, invertible linear map",
     """The inverse Fourier transform of the Fourier transform gives back any signal, and conversely, for
     single signals and for tensors of any rank, acting on the first axis only. The transform
     is linear, preserves norms and inner products, maps each eigenvector to a unit impulse,
     and turns multiplication by the Laplacian into multiplication by the eigenvalues.
     Signals whose first dimension is not the number of vertices are rejected.""",
     ["inputs"],
     "All graphs and all real or integer signals and tensors (1-D to 4-D).",
     "Tests transform one random signal on one graph.",
     ["pygsp/graphs/fourier.py"], [("gft, igft", "pygsp/graphs/fourier.py")], (), ["gft()", "igft()"])

prop("C07", "Estimates of the largest eigenvalue bound the spectrum",
     """The algebraic bound is never below the true largest Laplacian eigenvalue and stays
     within the classical bounds (twice the largest weighted degree; two when normalized),
     and the iterative estimate is at most a little more than one percent above the true value and below it
     by no more than its solver's tolerance (not at all for small graphs). The exact
     value replaces the estimate after an eigendecomposition, any method may be requested again after any
     other or after switching the Laplacian, and an unknown method is always rejected.""",
     ["inputs", "histories", "configurations"],
     "All undirected and directed graphs with non-negative weights of any scale, including isolated vertices and no edges; all sequences of estimation requests.",
     "Tests check a few regular graphs where bounds are tight.",
     [GR], [("estimate_lmax, _get_upper_bound, lmax", GR)], [("_lmax, _lmax_method", "cached estimate and its provenance", GR)], ["lmax"])

prop("C08", "Derived quantities never go stale over any history of calls",
     """After any sequence of queries, computations, failed calls and Laplacian switches on a graph, every
     quantity it reports (Laplacian, degrees, eigenvalues, basis, largest eigenvalue,
     differential operator, connectivity, filtering results) equals the one computed by a fresh graph
     built with the same weights and current Laplacian type. Querying never changes the weights,
     the signals or the coordinates, and the weights cannot be reassigned in place.""",
     ["histories"],
     "All finite sequences of public graph operations on all graphs.",
     "Caches are filled lazily in whatever order users call; tests exercise one or two orders.",
     [GR, "pygsp/graphs/fourier.py", "pygsp/graphs/difference.py"],
     [("cache invalidation in compute_laplacian", GR), ("lazy properties", "pygsp/graphs/fourier.py")],
     [("_lmax, _lmax_method, _U, _e, _coherence, _D", "caches tied to lap_type", GR)], ["all read accessors"])

prop("C09", "Exact filtering applies g(L) = U g(Λ) U^T to every signal",
     """Filtering with the exact method multiplies every signal by U g(Λ) U^T for each filter,
     whatever the number of signals, features and filters, with the result laid out as
     vertices by signals by features (singleton axes removed). Filtering is linear, filtering a stack equals filtering
     each signal alone, synthesis is the adjoint of analysis, the frame matrix is the analysis
     operator, localizing is filtering a scaled impulse, and signals of inadmissible shape are rejected. The same layout and relations hold
     for the Chebyshev method.""",
     ["inputs", "configurations"],
     "All graphs, filter banks (custom or built-in), signal tensors of 1 to 3 dimensions, both methods.",
     "Tests use Logo/Sensor graphs with a few shapes.",
     ["pygsp/filters/filter.py"], [("Filter.filter, analyze, synthesize, localize, compute_frame", "pygsp/filters/filter.py")], (),
     ["filter()", "analyze()", "synthesize()", "localize()", "compute_frame()"])

prop("C10", "Chebyshev approximation is exact on polynomials and converges",
     """Chebyshev filtering of order m equals exact filtering for every polynomial kernel of
     degree at most m, converges to exact filtering for smooth kernels as the order grows,
     and its coefficients reconstruct the kernel at the Chebyshev nodes. The ideal
     band-pass approximation equals the truncated Chebyshev series of the indicator, and the
     Jackson-damped coefficients are the series times the Jackson factors, without changing
     the caller's arguments. The Lanczos approximation converges to exact
     filtering, from an orthonormal basis in which the operator is tridiagonal.""",
     ["inputs", "configurations"],
     "All graphs, kernels, orders, quadrature sizes and signals (1-D or 2-D).",
     "Tests compare at order 30-ish on one graph with loose tolerances.",
     ["pygsp/filters/approximations.py", "pygsp/filters/filter.py"],
     [("compute_cheby_coeff, cheby_op, cheby_rect, compute_jackson_cheby_coeff, lanczos_op", "pygsp/filters/approximations.py")], (),
     ["filter(method='chebyshev')", "approximations.*"])

prop("C11", "Filter banks documented as tight frames are tight",
     """For every admissible parameter, the squared responses of the regular, Held, Simoncelli,
     Papadakis, half-cosine, itersine (with an even overlap), Meyer, simple-tight and tight-by-design banks sum to
     the same constant (one where documented) at every frequency of the spectrum, so that exact
     analysis followed by synthesis multiplies any signal by that constant and preserves its energy. The responses
     are finite and follow the documented low-pass/high-pass arrangement and number of filters.""",
     ["inputs", "configurations"],
     "All graphs (connected or not), all filter counts, degrees, cut-offs and scales, all frequencies in the spectrum.",
     "Tests evaluate each bank with default parameters on one graph.",
     ["pygsp/filters/regular.py", "pygsp/filters/held.py", "pygsp/filters/simoncelli.py", "pygsp/filters/papadakis.py", "pygsp/filters/halfcosine.py", "pygsp/filters/itersine.py", "pygsp/filters/meyer.py", "pygsp/filters/simpletight.py"],
     [("kernels of each class", "pygsp/filters/*.py")], (), ["evaluate()", "analyze()/synthesize()", "estimate_frame_bounds()"])

prop("C12", "Built-in kernels equal their documented formulas",
     """For every parameter value, scalar or list, the responses of the heat, wave, rectangular,
     exponential-window, Mexican-hat, Abspline, itersine, half-cosine, Meyer and other built-in
     filters equal their published formula at every frequency, with one filter per parameter
     value in the given order. Normalization makes each filter of unit norm
     over the spectrum. Kernels are element-wise: the response to a list of frequencies is the list of responses, and does not depend on array shape or on other frequencies; parameters of wrong length or range are rejected.""",
     ["inputs", "configurations"],
     "All graphs, all admissible parameters as scalars, lists or arrays, all frequencies in [0, lmax].",
     "Tests check shapes and frame bounds for default parameters; only a few values are compared.",
     ["pygsp/filters/heat.py", "pygsp/filters/wave.py", "pygsp/filters/rectangular.py", "pygsp/filters/expwin.py", "pygsp/filters/mexicanhat.py", "pygsp/filters/abspline.py"],
     [("kernels of each class", "pygsp/filters/*.py")], (), ["evaluate()"])

prop("C13", "Frame bounds, complement, inverse and bank algebra are exact",
     """The estimated frame bounds at given frequencies are the extremes of the summed squared
     responses, and at the eigenvalues they bound the energy of the analysis coefficients of every signal. Complementing a bank makes it
     tight with the requested (or smallest feasible) bound and rejects infeasible ones; the
     inverse bank gives perfect reconstruction of any frame, and the least-squares solution otherwise. Indexing, slicing,
     concatenating and re-targeting a bank to another graph select, join and keep exactly the kernels
     concerned.""",
     ["inputs", "programs"],
     "All filter banks, custom or built-in, on all graphs; all index expressions.",
     "Tests sample two or three banks.",
     ["pygsp/filters/filter.py"], [("estimate_frame_bounds, complement, inverse, __getitem__, __add__, __call__, __matmul__", "pygsp/filters/filter.py")], (),
     ["estimate_frame_bounds()", "complement()", "inverse()"])

prop("C14", "Gabor and modulation banks act as their formulas",
     """A Gabor bank has one filter per graph frequency whose response is the given kernel
     translated to that frequency. A modulation bank's coefficients are the inner products of
     the signal with the modulated (by each eigenvector), localized kernel, in either order of
     localization and modulation as requested; modulation multiplies by sqrt(N) times an eigenvector, and stacks of signals are treated signal by signal or rejected. A bank follows the current Laplacian of its graph.
     Energy of the coefficients follows from those formulas, and synthesis is adjoint to analysis.""",
     ["inputs", "configurations"],
     "All graphs with a full Fourier basis, all kernels, all signals, both modulation orders.",
     "Tests use one graph and one kernel.",
     ["pygsp/filters/gabor.py", "pygsp/filters/modulation.py"], [("Gabor, Modulation", "pygsp/filters/*.py")], (), ["filter()", "localize()", "modulate()"])

prop("C15", "Exporting then importing or saving then loading preserves the graph",
     """Converting a graph to a NetworkX graph and back, or saving it to GraphML, GML or GEXF and loading it,
     gives a graph with the same vertices, weights, direction, self-loops, and the same signals
     value by value (including multi-dimensional signals), without altering the exported graph or its signals. Importing
     sums the weights of parallel edges, takes the weights from the named attribute
     or counts edges as one when told so, and marks missing attributes
     as not-a-number.""",
     ["inputs", "configurations"],
     "All weighted directed and undirected graphs, any number of attached signals of any dimension and type, all formats, and all NetworkX graphs.",
     "Tests round-trip a few fixed graphs with one- or few-column signals.",
     ["pygsp/graphs/_io.py"], [("to_networkx, from_networkx, save, load, _break_signals, _join_signals", "pygsp/graphs/_io.py")],
     [("signals", "attached signals", GR)], ["to_networkx()", "from_networkx()", "save()", "load()"])

prop("C16", "A subgraph is the induced graph on the chosen vertices",
     """Taking a subgraph by a list of indices, in any order, or by an indicator mask gives the
     graph whose weights are the original weights between the chosen vertices in that order,
     with coordinates, signals, Laplacian type and plotting options carried over accordingly. The original graph
     is unchanged, and later changes to the subgraph's plotting options or signals do not affect it. Choosing all vertices gives the same graph.""",
     ["inputs"],
     "All graphs, all vertex subsets and orderings, masks, attached signals.",
     "Tests take two subgraphs of one graph.",
     [GR], [("subgraph", GR)], (), ["subgraph()"])

prop("C17", "A line graph connects exactly the edges sharing a vertex",
     """The line graph of a graph has one vertex per edge (self-loops included), in edge-list order,
     joined with unit weight exactly when the two edges share an end point, and never to
     itself. Its coordinates are the mid-points of the edges.""",
     ["inputs"],
     "All graphs with any weights, directed or not, with self-loops or not.",
     "Tests compare one random graph with an independent computation.",
     ["pygsp/graphs/linegraph.py"], [("LineGraph", "pygsp/graphs/linegraph.py")], (), ["LineGraph(graph).W, coords"])

prop("C18", "Matrix utilities obey their definitions",
     """Symmetrizing by average, maximum, fill, lower or upper triangle gives the documented
     symmetric matrix, equal for dense and sparse input and leaving symmetric input unchanged.
     Pairwise distances are the Euclidean distances between columns, resistance distances are the effective
     resistances of the network, rescaling centers every row and makes the largest value
     one, and logarithmic scales are geometrically spaced between the documented
     ends.""",
     ["inputs"],
     "All square matrices (dense or sparse, any numeric type), point sets, connected graphs or Laplacians, and scale ranges.",
     "Tests compare dense with sparse on one random matrix; the rest is only exercised by doctests.",
     ["pygsp/utils.py"], [("symmetrize, distanz, resistance_distance, rescale_center, compute_log_scales", "pygsp/utils.py")], (), ["utils.*"])

prop("C19", "Deterministic graph models have exactly the documented structure",
     """Rings, paths, two-dimensional grids, tori, stars, comets, complete graphs and low-stretch trees of
     every admissible size and parameter have exactly the edges, weights, direction and number of vertices that
     their definition requires, with one coordinate row per vertex. Ring and path
     spectra are the classical cosine spectra, and inadmissible
     parameters are rejected.""",
     ["configurations"],
     "All sizes, neighbourhood orders, directions and diagonal weights.",
     "Tests instantiate one or two sizes of each, mostly without looking at the edges.",
     ["pygsp/graphs/ring.py", "pygsp/graphs/path.py", "pygsp/graphs/grid2d.py", "pygsp/graphs/torus.py", "pygsp/graphs/star.py", "pygsp/graphs/comet.py", "pygsp/graphs/fullconnected.py", "pygsp/graphs/lowstretchtree.py"],
     [("constructors", "pygsp/graphs/*.py")], (), ["W, coords"])

prop("C20", "Random graph models honour their parameters and their seed",
     """Every random graph model yields a graph with the requested number of vertices that
     satisfies its defining constraints (degrees, edge counts, probabilities of zero or one,
     block structure, connectivity when asked for, positions in the advertised domain,
     weights in range, no loops or directions unless asked). The same seed and parameters always give the same
     graph, different seeds may differ, and the process-wide random state is neither
     read nor changed. Empirical edge frequencies agree with the model's probabilities.""",
     ["inputs", "configurations", "schedules"],
     "All models, all admissible parameters and all seeds.",
     "Tests fix one seed and one size per model.",
     ["pygsp/graphs/erdosrenyi.py", "pygsp/graphs/stochasticblockmodel.py", "pygsp/graphs/barabasialbert.py", "pygsp/graphs/randomregular.py", "pygsp/graphs/randomring.py", "pygsp/graphs/community.py", "pygsp/graphs/nngraphs/sensor.py", "pygsp/graphs/nngraphs/cube.py", "pygsp/graphs/nngraphs/sphere.py", "pygsp/graphs/nngraphs/twomoons.py", "pygsp/graphs/swissroll.py", "pygsp/graphs/davidsensornet.py"],
     [("constructors", "pygsp/graphs/*.py")], (), ["W, coords, attributes"])

prop("C21", "Nearest-neighbour graphs join exactly the nearest points",
     """A k-nearest-neighbour graph joins each point to its k nearest other points and a radius
     graph joins all pairs within the radius, after the documented centering and rescaling,
     with Gaussian weights of the distance and the chosen symmetrization and metric. The default kernel
     width is the mean neighbour distance; the point set given by the user is
     not modified. Image-patch graphs are nearest-neighbour graphs of
     the patches.""",
     ["inputs", "configurations"],
     "All point sets in general position, k, radii, metrics, widths, symmetrizations.",
     "Tests construct a few graphs and compare two code paths on one point cloud.",
     ["pygsp/graphs/nngraphs/nngraph.py", "pygsp/graphs/nngraphs/imgpatches.py", "pygsp/graphs/nngraphs/grid2dimgpatches.py"],
     [("NNGraph.__init__", "pygsp/graphs/nngraphs/nngraph.py")], (), ["W, coords"])

prop("C22", "Semi-supervised learning returns the minimizer of its objective",
     """Tikhonov regression returns the minimizer of ||Mx - y||^2 + tau x^T L x, and for tau zero
     the harmonic extension that keeps the known values exactly and, being harmonic, stays within their range.
     Classification solves the same problem on indicator columns, and the simplex version
     the one constrained to the probability simplex. The values of unknown vertices are never
     used, the result does not depend on the numeric type of the measurements, and
     the caller's measurements and mask are left unchanged.""",
     ["inputs"],
     "All connected undirected graphs, masks, measurements (vectors or several columns, integer or real) and tau.",
     "Tests solve a few fixed problems.",
     ["pygsp/learning.py"], [("regression_tikhonov, classification_tikhonov, classification_tikhonov_simplex", "pygsp/learning.py")], (), ["return values"])

prop("C23", "Kron reduction and sparsification keep the electrical network",
     """Kron reduction onto any subset of vertices gives the graph (or matrix) whose Laplacian is the
     Schur complement of the original one, so effective resistances between kept vertices
     are unchanged, connectivity and symmetry are preserved, and reducing in two
     steps equals reducing at once. Sparsification only keeps existing edges, drawn in proportion to their weight times
     effective resistance and re-scaled so that the total leverage is kept; it preserves the type of its input and the null row sums of a Laplacian,
     and is reproducible from its seed. Multiresolution returns
     nested graphs with consistent vertex indices, each reduced from the former onto the half given by its largest eigenvector.""",
     ["inputs", "configurations"],
     "All connected undirected graphs, all vertex subsets, all admissible accuracies and seeds.",
     "Tests never check reduction at all beyond examples in docstrings.",
     ["pygsp/reduction.py"], [("kron_reduction, graph_sparsify, graph_multiresolution", "pygsp/reduction.py")],
     [("G.mr", "level bookkeeping", "pygsp/reduction.py")], ["kron_reduction()", "graph_sparsify()", "graph_multiresolution()"])

prop("C24", "The graph pyramid reconstructs every signal",
     """Analysing a signal with the graph pyramid and synthesizing from its coarsest approximation
     and prediction errors gives back the signal (and each intermediate approximation) for any filters,
     number of levels, and one or several signals. Coarse approximations are the low-passed
     signal on the kept vertices; interpolation agrees with the given samples at the sampled vertices
     up to the polynomial approximation error, and solves the regularized
     problem elsewhere.""",
     ["inputs", "configurations"],
     "All connected graphs, levels, filters, regularizations and signals.",
     "No existing test runs the pyramid.",
     ["pygsp/reduction.py"], [("pyramid_analysis, pyramid_synthesis, interpolate", "pygsp/reduction.py")], (), ["pyramid_analysis()", "pyramid_synthesis()", "interpolate()"])

prop("C25", "Graph features equal their definitions",
     """The localized atoms of a filter are the rows of its operator, their norms are the
     norms of these rows, for each filter of a bank and with the requested filtering method. The spectrogram is, for each
     vertex and each shift of the window along the spectrum, the squared norm of the localized
     shifted atom. The average adjacency degree of a vertex is the average
     of the degrees of the vertex and its neighbours.""",
     ["inputs", "configurations"],
     "All graphs, filter banks, windows and numbers of shifts.",
     "Only docstring examples run them.",
     ["pygsp/features.py"], [("compute_tig, compute_norm_tig, compute_spectrogram, compute_avg_adj_deg", "pygsp/features.py")], (), ["features.*"])

prop("C26", "Layout gives every vertex a finite coordinate of the requested kind",
     """Setting coordinates stores the given array unchanged, or for each named layout computes one
     finite row per vertex with the documented geometry: equally spaced on the line or circle,
     eigenvector coordinates for the Laplacian eigenmaps, grouped by community, or uniform random. Seeded layouts
     are reproducible and keep fixed vertices fixed, and wrong shapes or unknown names
     are rejected.""",
     ["inputs", "configurations"],
     "All graphs, layouts, dimensions and seeds.",
     "Tests call each layout once.",
     ["pygsp/graphs/_layout.py"], [("set_coordinates, _fruchterman_reingold_layout", "pygsp/graphs/_layout.py")], [("coords", "vertex positions", GR)], ["coords"])

prop("C27", "Plots show the graph's data and do not alter it",
     """Plotting a graph draws one marker per vertex at its coordinates, colored and sized by the given signal,
     and one segment per edge between its end points; plotting a signal in one
     dimension draws its values, and plotting a filter draws its response over the spectrum. Plotting never changes the graph, its signals,
     its options, the filter or the caller's arrays, and rejects
     inadmissible arguments.""",
     ["inputs", "configurations"],
     "All graphs with 1-D to 3-D coordinates, all signals, sizes, colors, highlight lists, filters and spectrograms, with either backend.",
     "Tests mostly check that plotting does not raise.",
     ["pygsp/plotting.py"], [("_plot_graph, _plot_filter, _plot_spectrogram", "pygsp/plotting.py")], (), ["matplotlib artists", "pyqtgraph items"])

prop("C28", "Computations leave the caller's data and the global state alone",
     """No public computation (constructing graphs or filters, filtering, transforming, learning, reducing, exporting,
     computing features, estimating) modifies the arrays, lists, matrices, signals or options passed to it, nor the weights
     or attached signals of the graph it works on. Results handed out for equal inputs are equal whatever was computed before,
     on the same or other objects and with the same or other arguments, and objects built from the same default options do not share
     mutable state.""",
     ["inputs", "histories"],
     "All public functions over all their admissible inputs, in any order.",
     "Tests compare outputs, not the inputs after the call.",
     ["pygsp/"], [("copying before writing", "pygsp/")], (), ["arguments after each call"])

prop("C29", "Results do not depend on vertex numbering or weight units",
     """Renumbering the vertices renumbers every result accordingly: degrees, Laplacian, filtered
     signals, gradients, energies, interpolations and reductions; spectra and eigenvalue
     estimates are unchanged. Multiplying all weights by a constant multiplies the
     combinatorial Laplacian and its spectrum by it and leaves the normalized ones unchanged. The
     spectrum and filtering of a union of disjoint graphs is the union of theirs.""",
     ["inputs", "programs"],
     "All graphs, all permutations, all positive scale factors, all pairs of graphs.",
     "No existing test compares a graph with a transformed copy.",
     [GR, "pygsp/graphs/fourier.py", "pygsp/filters/filter.py", "pygsp/learning.py", "pygsp/reduction.py"], [("whole pipeline", "pygsp/")], (), ["all results"])

prop("C30", "Total-variation proximal operator returns the minimizer",
     """The total-variation proximal operator of a signal returns the minimizer of
     half the squared distance to the signal plus gamma times the l1 norm of the graph gradient,
     with or without the matrix form, leaving its input unchanged.""",
     ["inputs"],
     "All undirected graphs, signals and positive gamma.",
     "No test calls it.",
     ["pygsp/optimization.py"], [("prox_tv", "pygsp/optimization.py")], (), ["prox_tv()"])

out = os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "properties.jsonl")
with open(out, "w") as f:
    for p in P:
        assert len(p["title"]) <= 80, (p["id"], len(p["title"]))
        f.write(json.dumps(p, ensure_ascii=False) + "\n")
print(len(P))
