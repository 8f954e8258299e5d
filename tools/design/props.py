# id: (technique, beyond tests / bounds)
P = {
"C01": ("reference model: the dense matrix itself", "Spec: W, A, N, Ne, d, dw, is_directed, is_weighted, has_loops and get_edge_list of a matrix in any container and dtype, from explicit counting on the dense array; invalid matrices (non-square, NaN, infinities at any entry of any container) must raise. The edge list is rebuilt into W. Histories query attributes in random order. Bounds: up to 9 vertices."),
"C02": ("reference model: Warshall closure and union-find", "Spec: `is_connected` (strong, for directed graphs) against a transitive closure, `extract_components` against union-find, with coordinates, signals and `info['orig_idx']` of each part, after any sequence of other queries. Bounds: up to 12 vertices."),
"C03": ("reference model: definition of both Laplacians in float64", "Spec: L against the definition for seven dtypes, six containers, directed or not, loops and isolated vertices, along random sequences of `compute_laplacian`; symmetric, positive semi-definite, constant null vector, number of null eigenvalues = number of components, spectrum in [0, 2] when normalized; unknown types raise and leave the graph as it was."),
"C04": ("reference model and adjointness laws", "Spec: D column by column from the edge list, L = D Dᵀ, grad / div against the explicit difference per edge, adjointness <grad x, y> = <x, div y>, Dirichlet energy three ways, for vectors and stacks, any dtype. A wrong length is rejected."),
"C05": ("invariants of an eigendecomposition over histories of requests", "Spec: orthonormality, L U = U diag(e), sorted, e[0] = 0 exactly, e[-1] = lmax, coherence = max |U| in [1/sqrt(N), 1]; partial bases (any number, several in a row, before or after a full one) hold the smallest eigenvalues and never shadow a larger request."),
"C06": ("algebraic laws of a unitary map", "Spec: round trips, linearity, Parseval, action on eigenvectors, diagonalization, first axis only, for real, integer and complex tensors of rank 1 to 4 whose other axes may have N entries as well."),
"C07": ("reference model: dense largest eigenvalue", "Spec: for sequences of `estimate_lmax` (each method, unknown ones), eigendecompositions and Laplacian switches: bound >= truth and within classical bounds, Lanczos within [1-1e-6, 1.01] of the truth for N <= 10 (complete Krylov space), exact after an eigendecomposition. For larger graphs the code asks the solver for a tolerance of 5e-3, so the lower side is only required to be an eigenvalue within that tolerance."),
"C08": ("stateful model-based testing", "Spec: histories of up to 14 of about thirty operations (queries, computations, partial bases, switches, failing calls, filtering by long-lived filters); after every operation the quantity concerned, at the end all of them, against a model that knows only W and the Laplacian type. Long-lived filters include Heat, Gabor, Modulation and banks that read the bound on the spectrum at evaluation. W cannot be reassigned."),
"C09": ("reference model: dense U g(Λ) Uᵀ signal by signal", "Spec: analysis, synthesis and layout for every admissible shape; rejection of others; frame, localization, adjointness, stack-versus-single, linearity; Chebyshev with polynomial kernels, where it is exact. The number of signals and of features is drawn to coincide with N often, where layouts are ambiguous to the implementation."),
"C10": ("reference model: numpy.polynomial interpolation, closed-form series, Krylov exactness", "Spec: the order-m result equals p_m(L)x for p_m the interpolant at the m+1 Chebyshev nodes, exact for degree <= m, convergent for entire kernels; `cheby_rect` and Jackson coefficients against closed forms; `lanczos_op` exact for degree below its order and for any kernel once its order reaches N."),
"C11": ("invariant (partition of unity) and round-trip", "Spec: sum of squared responses constant over random frequencies, eigenvalues and all break points for every tight family with random admissible parameters; exact analysis then synthesis multiplies by the constant; complements of random banks."),
"C12": ("reference model: scalar `math` formulas", "Spec: every built-in kernel at every drawn frequency, one filter per parameter in order, normalization, element-wise evaluation (scalar, list, array, 2-d, other dtype), rejections. Frequencies include both sides of every break point."),
"C13": ("reference model: explicit sums and dense pseudo-inverse", "Spec: frame bounds at given frequencies and at eigenvalues (extremes of energies, attained on eigenvectors), complements with default / feasible / infeasible (by 10% down to 1e-8) bounds, inverses, bank algebra (indexing, slices, +, +=, toarray, calls)."),
"C14": ("reference model: dense sums from the class documentation", "Spec: Gabor responses, coefficients, synthesis, frames and atoms; modulation spectra, both orders of localization and modulation, energies, adjointness, stacks, rejections; several banks on one graph; after full or partial bases; repeated eigenvalues and several components."),
"C15": ("round-trip and reference accumulation", "Spec: export/import (NetworkX, GraphML, GML, GEXF) of weights, direction, loops, signals value by value (NaN, infinities, integers, booleans, multi-dimensional with more than ten columns), repeated twice; imports of NetworkX multigraphs with missing attributes, odd node names, weight names. graph-tool is not installed, so its backend is out of reach."),
"C16": ("reference model: NumPy indexing", "Spec: weights, coordinates, signals, Laplacian type, plotting options of subgraphs and of subgraphs of subgraphs, for index lists and masks in every form, after caches are filled; independence of later changes."),
"C17": ("reference model: pairwise test of edges", "Spec: adjacency, unit weights, order, mid-points, for graphs with loops, directions, several components; twice (line graph of line graph)."),
"C18": ("reference model: element-wise definitions, network equations", "Spec: five symmetrizations on every dtype and format, distances, effective resistances by solving for unit currents plus Foster's theorem, rescaling, logarithmic scales."),
"C19": ("exhaustive reference model per vertex pair", "Spec: every size and parameter up to 40 vertices (1024 for trees): the whole adjacency matrix against the definition, spectra against closed forms, rejections, coordinates; the four data sets and constructor options."),
"C20": ("invariants of each model, metamorphic seeds, exact binomial tests", "Spec: constraints of each model on the whole matrix; two constructions with the same seed under different global states agree and do not move the global states; different seeds are not all equal; pooled counts against the exact law (two-sided tail below 1e-11)."),
"C21": ("reference model: exhaustive search", "Spec: edges and weights of k-nearest and radius graphs for every metric, backend, option; ties accept any choice among the tied; default width; unmodified points; image patches cut by hand."),
"C22": ("reference model: dense solve, optimality certificates", "Spec: normal equations' residual within the iterative solver's tolerance, harmonic extension, maximum principle, unknown values NaN / inf / junk, any dtype; simplex solutions feasible and within FISTA's bound of an independent projected-gradient run."),
"C23": ("reference model: dense Schur complement and pseudo-inverse; metamorphic two-step reduction; sampling law", "Spec: Kron on graphs and matrices, resistances, connectivity, composition; sparsification support, scale, total leverage, type, row sums, seeds, frequencies by exact tests; multiresolution indices, nesting and the downsampling rule."),
"C24": ("round-trip and reference model by dense algebra", "Spec: reconstruction at every level, every coefficient, linearity, interpolation, least squares, Landweber iterates, for one or several signals and filters, exact or Chebyshev."),
"C25": ("reference model by dense algebra", "Spec: atoms, norms and spectrograms for banks, methods and orders; average degrees by counting."),
"C26": ("closed forms, eigen-equations, metamorphic relations", "Spec: each layout's geometry; spring layout centred, scaled, with fixed vertices, reproducible, equivariant to translations, exchange of axes and renumbering."),
"C27": ("reading the drawn artists back; snapshots", "Spec: positions, colours, sizes, segments, widths, limits, titles, curves, eigenvalue marks, also on the pyqtgraph backend (offscreen), also as the first plot of a new process; bitwise snapshots of every argument."),
"C28": ("stateful testing with bitwise snapshots and differential re-execution", "Spec: histories of a dozen of about 120 public operations on shared objects; after each, every input and NumPy's global state are compared bitwise, and the result with the one on fresh copies; results are then overwritten, which must change nothing. Some seventy functions and constructors are also called several times with other arguments (or the same array with new contents) on one graph and bank; each result equals that of the first call on fresh copies."),
"C29": ("metamorphic relations", "Spec: renumbering, scaling by a constant over twelve decades, disjoint union, reversal of directions, applied to about forty results each."),
"C30": ("optimality certificate by duality", "Spec: duality gap of the result with a dual variable fitted independently, mean conservation, shrinkage limits, non-expansiveness, operators with adjoints."),
}
