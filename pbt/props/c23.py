"""C23: Kron reduction, sparsification and multiresolution."""
import numpy as np
from hypothesis import strategies as st
from scipy import sparse

from pygsp import filters, graphs, reduction

from ..gens import build, close, dense, graph, need, norm_of, raises, ref_components, ref_laplacian, subset, tensor, upto
from ..runner import Part

RULE = ("Kron: random undirected graphs (trees, cycles, cliques, grids, unions, self-loops, integer/boolean/double weights), with or without coordinates, any subset of vertices in any order "
        "with at least one per component, and diagonally dominant matrices; the result is compared with a dense Schur complement, effective resistances by pseudo-inverse, path structure, and two-step "
        "reduction. Sparsification: random graphs and Laplacian matrices in every sparse format, accuracies over the admissible range, seeds; support, sign, row sums, total leverage, reproducibility and "
        "frequencies of the sampled edges. Multiresolution: connected graphs, one to four levels, with or without Fourier bases and sparsification. Non-trivial: at least one vertex eliminated and one edge kept "
        "(Kron), some edge dropped or re-weighted (sparsification), some vertex eliminated (multiresolution).")
ASSUMPTIONS = ["condition number of the eliminated block below 1e7", "every component keeps a vertex", "a sparsified graph may be disconnected (documented warning), where the next reduction is not defined"]


def resistances(L):
    P = np.linalg.pinv(L, rcond=1e-12 * len(L), hermitian=True)
    d = np.diag(P)
    return d[:, None] + d[None, :] - 2 * P


def schur(M, ind):
    rest = [i for i in range(len(M)) if i not in set(ind)]
    S = M[np.ix_(ind, ind)]
    cond = 1.0
    if rest:
        C = M[np.ix_(rest, rest)]
        cond = np.linalg.cond(C)
        if cond < 1e12:
            S = S - M[np.ix_(ind, rest)] @ np.linalg.solve(C, M[np.ix_(rest, ind)])
    return S, cond


@st.composite
def kron_cases(draw):
    g = draw(graph(min_n=1, max_n=9, directed=False, loops=True, kinds=["ones", "int", "float", "scaled", "wide"]))
    n = g["n"]
    comps = ref_components(dense(g))
    ind = [draw(st.sampled_from(c)) for c in comps]
    rest = [i for i in range(n) if i not in ind]
    if rest:
        bits = draw(st.integers(0, (1 << len(rest)) - 1))
        ind += [v for k, v in enumerate(rest) if bits >> k & 1]
    ind = draw(st.permutations(ind))
    more = draw(st.integers(0, (1 << n) - 1))
    return {"g": g, "ind": ind, "more": more, "coords": draw(st.sampled_from([None, 1, 2, 3])), "dtype": draw(st.sampled_from(["float", "float", "int", "bool"])),
            "list": draw(st.booleans()), "plotting": draw(st.booleans())}


def kron(c, note):
    g, n, ind = c["g"], c["g"]["n"], c["ind"]
    W = dense(g)
    if c["dtype"] != "float":
        W = (W * 1).astype(int) if c["dtype"] == "int" and W.max() < 2 ** 50 else W > 0 if c["dtype"] == "bool" else W
    A = W.astype(float)
    np.fill_diagonal(A, 0)
    if ref_components(A) != ref_components(dense(g)):
        return  # rounded away
    coords = None
    if c["coords"]:
        coords = np.arange(n * c["coords"], dtype=float).reshape(n, c["coords"])
        coords = coords[:, 0] if c["coords"] == 1 else coords
    kw = {"plotting": {"edge_width": 7}} if c["plotting"] else {}
    G = graphs.Graph(W.copy(), coords=coords, **kw)
    L = ref_laplacian(A, "combinatorial")
    R, cond = schur(L, ind)
    if cond > 1e7:
        return
    arg = list(ind) if c["list"] else np.array(ind)
    keep = np.array(ind)
    H = reduction.kron_reduction(G, arg)
    need(np.array_equal(np.asarray(arg), keep), "indices modified")
    need(np.array_equal(G.W.toarray(), W), "graph modified")
    need(type(H) is graphs.Graph and H.N == len(ind) and H.lap_type == "combinatorial", "result %s", H)
    elim = n - len(ind)
    note.nontrivial(elim > 0 and H.n_edges > 0)
    note.label(g["shape"], f"eliminated {min(elim, 4)}")
    B = H.W.toarray().astype(float)
    s = norm_of(L)
    tol = 1e-13 * cond + 1e-12
    need(np.array_equal(B, B.T) and not H.is_directed(), "reduction of an undirected graph is directed")
    need(not B.diagonal().any(), "self-loops: %s", B.diagonal())
    close(np.diag(B.sum(0)) - B, R, tol, "Laplacian of the reduction", ref=s)
    close(H.L, R, tol, "Laplacian of the reduction", ref=s)
    need(bool((B >= 0).all()), "negative weights: %s", B)
    # an edge iff a path through eliminated vertices
    P = np.zeros((n, n), dtype=bool)
    E = A != 0
    rest = [i for i in range(n) if i not in set(ind)]
    T = E[np.ix_(rest, rest)] | np.eye(len(rest), dtype=bool)
    for k in range(len(rest)):
        T |= T[:, [k]] & T[[k], :]
    P = E[np.ix_(ind, ind)] | ((E[np.ix_(ind, rest)].astype(int) @ T.astype(int) @ E[np.ix_(rest, ind)].astype(int)) > 0)
    np.fill_diagonal(P, False)
    need(not (B != 0)[~P].any(), "edges between vertices not connected through eliminated ones: %s", B)
    if g["kind"] != "wide":
        need(bool((B != 0)[P].all()), "edges missing: %s", B)
        comp = [sorted(ind.index(v) for v in k if v in ind) for k in ref_components(A)]
        need(ref_components(B) == sorted(comp), "components %s", ref_components(B))
        need(H.is_connected() == (len(comp) == 1), "connectivity")
        r = resistances(L)[np.ix_(ind, ind)]
        same = np.zeros((len(ind), len(ind)), dtype=bool)
        for k in comp:
            same[np.ix_(k, k)] = True
        close(np.where(same, resistances(np.diag(B.sum(0)) - B), 0), np.where(same, r, 0), 1e-8, "effective resistances", ref=max(norm_of(np.where(same, r, 0)), 1e-300))
    if coords is None:
        need(not hasattr(H, "coords"), "coordinates out of nowhere")
    else:
        need(np.array_equal(H.coords, coords[keep]), "coordinates %s", H.coords)
    need(H.plotting == G.plotting and H.plotting is not G.plotting, "plotting options")
    # in two steps: first keep more vertices
    sup = list(ind) + [i for i in rest if c["more"] >> i & 1]
    H2 = reduction.kron_reduction(reduction.kron_reduction(G, sup), list(range(len(ind))))
    close(H2.W, B, 10 * tol, "reduction in two steps", ref=max(s, 1e-300))
    # the same through the Laplacian matrix
    M = reduction.kron_reduction(G.L, list(ind))
    need(sparse.issparse(M), "type %s", type(M))
    close(M, R, tol, "reduction of the Laplacian matrix", ref=s)


@st.composite
def large_cases(draw):
    n = draw(st.integers(12, 60))
    return {"n": n, "seed": draw(st.integers(0, 10 ** 6)), "density": draw(st.sampled_from([0.05, 0.15, 0.3, 0.7, 1.0])), "keep": draw(st.integers(1, n - 1)), "half": draw(st.booleans()),
            "scale": draw(st.sampled_from([1.0, 1.0, 1e-4, 1e5])), "tree": draw(st.booleans()), "int": draw(st.integers(0, 3)) == 0}


def large(c, note):
    """Graphs large enough for rounding errors to differ on both sides of the diagonal."""
    n = c["n"]
    rng = np.random.default_rng(c["seed"])
    A = np.zeros((n, n))
    for i in range(1, n):
        j = rng.integers(i) if c["tree"] else i - 1
        A[i, j] = 0.05 + rng.random()
    A += np.tril(rng.random((n, n)) * (rng.random((n, n)) < c["density"]), -1) * (1 + c["tree"])
    if c["int"]:
        A = np.ceil(A * 3)
    A = (A + A.T) * c["scale"]
    k = n // 2 if c["half"] else c["keep"]
    ind = rng.permutation(n)[:k]
    L = ref_laplacian(A, "combinatorial")
    R, cond = schur(L, list(ind))
    if cond > 1e7:
        return
    note.nontrivial(k > 1)
    note.label(f"{n // 20 * 20}+ vertices", f"density {c['density']}")
    G = graphs.Graph(sparse.csr_matrix(A))
    need(not G.is_directed(), "harness")
    s = norm_of(L)
    tol = 1e-13 * cond + 1e-12
    H = reduction.kron_reduction(G, list(ind))
    B = H.W.toarray()
    need(np.array_equal(B, B.T) and not H.is_directed(), "reduction of an undirected graph is directed")
    need(not B.diagonal().any() and bool((B >= -tol * s).all()), "self-loops or negative weights")
    close(H.L, R, tol, "Laplacian of the reduction", ref=s)
    need(H.is_connected(), "connectivity")
    close(resistances(H.L.toarray()), resistances(L)[np.ix_(ind, ind)], 1e-7, "effective resistances", ref=max(norm_of(resistances(L)), 1e-300))
    sub = rng.permutation(k)[:max(1, k // 2)]
    H2 = reduction.kron_reduction(H, list(sub))
    need(not H2.is_directed(), "directed at the second step")
    close(H2.W, reduction.kron_reduction(G, list(ind[sub])).W, 10 * tol, "reduction in two steps", ref=s)
    close(H2.L, schur(L, list(ind[sub]))[0], 10 * tol, "Laplacian of the second reduction", ref=s)


@st.composite
def matrix_cases(draw):
    n = draw(upto(1, 8, 50))
    A = draw(tensor((n, n), -9, 9, 1))
    mask = draw(st.integers(0, (1 << n * n) - 1))
    ind = draw(st.permutations(draw(subset(n, 1))))
    return {"A": A, "mask": mask, "ind": ind, "sym": draw(st.booleans()), "nearly": draw(st.one_of(st.none(), st.integers(-9, -2))), "shift": draw(st.integers(1, 30)) / 10, "format": draw(st.sampled_from(["csr", "csc", "lil"]))}


def matrix(c, note):
    A = np.array(c["A"])
    n, ind = len(A), c["ind"]
    A = A * np.array([c["mask"] >> k & 1 for k in range(n * n)]).reshape(n, n)
    if c["sym"]:
        A = (A + A.T) / 2
        if c["nearly"]:  # up to one entry
            i, j = np.unravel_index(np.argmax(np.abs(A)), A.shape)
            A[i, j] *= 1 + 10.0 ** c["nearly"]
    np.fill_diagonal(A, np.maximum(np.abs(A).sum(0), np.abs(A).sum(1)) + c["shift"])
    M = sparse.csr_matrix(A).asformat(c["format"])
    K = reduction.kron_reduction(M, ind)
    need(np.array_equal(M.toarray(), A), "matrix modified")
    need(sparse.issparse(K), "type %s", type(K))
    S, cond = schur(A, ind)
    note.nontrivial(len(ind) < n and np.count_nonzero(A) > n)
    note.label(c["format"], "symmetric" if c["sym"] else "asymmetric")
    close(K, S, 1e-11, "Schur complement", ref=norm_of(A))
    close(np.linalg.inv(K.toarray()), np.linalg.inv(A)[np.ix_(ind, ind)], 1e-9, "block of the inverse", ref=max(norm_of(np.linalg.inv(A)), 1e-300))


@st.composite
def reject_cases(draw):
    return {"g": draw(graph(min_n=2, max_n=7, loops=False, min_edges=1)), "eps": draw(st.sampled_from([-0.1, 0, "low", 1.0001, 2, 10])), "v": draw(st.integers(0, 1))}


def reject(c, note):
    g = c["g"]
    W = dense(g)
    n = g["n"]
    note.nontrivial(True)
    raises(NotImplementedError, lambda: reduction.kron_reduction(build(g, lap_type="normalized"), [c["v"]]), "reduction of a normalized Laplacian")
    if not np.array_equal(W, W.T):
        raises(NotImplementedError, lambda: reduction.kron_reduction(build(g), [c["v"]]), "reduction of a directed graph")
        return
    raises(NotImplementedError, lambda: reduction.graph_sparsify(build(g, lap_type="normalized"), 0.9), "sparsification of a normalized Laplacian")
    eps = 0.999 / np.sqrt(n) if c["eps"] == "low" else c["eps"]
    raises(ValueError, lambda: reduction.graph_sparsify(build(g), eps), f"accuracy {eps}")
    raises(ValueError, lambda: reduction.graph_sparsify(build(g).L, eps), f"accuracy {eps}")
    raises(NotImplementedError, lambda: reduction.graph_multiresolution(build(g), 1, downsampling_method="nope"), "unknown downsampling")
    raises(NotImplementedError, lambda: reduction.graph_multiresolution(build(g), 1, reduction_method="nope"), "unknown reduction")


# ------------------------------------------------------------------ sparsification
@st.composite
def sparsify_cases(draw):
    g = draw(graph(min_n=2, max_n=14, directed=False, loops=True, kinds=["ones", "int", "float", "scaled"], min_edges=1, connected=draw(st.booleans())))
    n = g["n"]
    t = draw(st.integers(0, 20)) / 20
    return {"g": g, "eps": min(1.0, float(1 / np.sqrt(n) + t * (1 - 1 / np.sqrt(n))) + 1e-12), "seed": draw(st.integers(0, 2 ** 31 - 1)), "format": draw(st.sampled_from(["csr", "csc", "lil", "coo"])),
            "kind": draw(st.sampled_from(["graph", "graph", "matrix"])), "maxiter": draw(st.sampled_from([1, 3, 10])), "tiny": draw(st.sampled_from([1.0, 1.0, 1e-9, 1e6]))}


def sparsify(c, note):
    g = c["g"]
    n = g["n"]
    W = dense(g) * c["tiny"]
    A = W.copy()
    np.fill_diagonal(A, 0)
    if not A.any():
        return
    G = graphs.Graph(sparse.csr_matrix(W))
    L = ref_laplacian(A, "combinatorial")
    state = np.random.get_state()[1].copy()
    M = G if c["kind"] == "graph" else sparse.csr_matrix(L).asformat(c["format"])
    out = [reduction.graph_sparsify(M, c["eps"], maxiter=c["maxiter"], seed=c["seed"]) for _ in range(2)]
    need(np.array_equal(state, np.random.get_state()[1]), "global random state used despite the seed")
    need(np.array_equal(G.W.toarray(), W), "graph modified")
    if c["kind"] == "graph":
        need(all(type(o) is graphs.Graph for o in out), "type %s", type(out[0]))
        B, B2 = [o.W.toarray().astype(float) for o in out]
        need(not out[0].is_directed() and out[0].N == n, "directed or wrong size")
    else:
        need(np.array_equal(M.toarray(), L), "matrix modified")
        need(all(sparse.issparse(o) for o in out), "type %s", type(out[0]))
        S, S2 = [o.toarray() for o in out]
        B, B2 = [np.diag(np.diag(x)) - x for x in (S, S2)]
        close(S.sum(0), np.zeros(n), 1e-10, "row sums of the Laplacian", ref=max(norm_of(S), 1e-300))
        close(np.diag(S), B.sum(0), 1e-10, "degrees", ref=max(norm_of(S), 1e-300))
    need(np.array_equal(B, B2), "not reproducible from its seed")
    need(np.array_equal(B, B.T), "asymmetric: %s", B)
    need(bool(np.isfinite(B).all()) and bool((B >= 0).all()), "weights %s", B)
    need(not B[A == 0].any(), "edges out of nowhere (or self-loops): %s", B)
    note.nontrivial(B.any() and not np.allclose(B, A))
    note.label(c["kind"], g["shape"])
    R = resistances(L)
    total = np.triu(B * R).sum()
    comps = len(ref_components(A))
    if B.any():  # no sample at all for the smallest graphs
        need(abs(total - (n - comps)) < 1e-7 * n, "total leverage %.6g instead of %d", total, n - comps)
        lev = np.triu(B * R)
        r = lev[lev > 0] / (n - comps)  # counts over number of samples
        need(float(r.min()) > 0, "zero counts")
        # two edges of the same number of draws: every ratio of counts is rational of small terms
        q = 1 / r.min()
        if q <= 60 and len(r) > 1 and n <= 14:  # otherwise the counts are large
            ok = any(np.abs(r * q * k - np.round(r * q * k)).max() < 1e-5 for k in range(1, 61))
            need(ok, "weights are not counts of draws: %s", r * q)


@st.composite
def frequency_cases(draw):
    n = draw(st.integers(8, 16))
    groups = draw(st.lists(st.integers(0, 2), min_size=n, max_size=n))
    w = draw(st.lists(st.sampled_from([0.2, 1, 2, 5, 20]), min_size=6, max_size=6))
    return {"n": n, "groups": groups, "w": w, "seed": draw(st.integers(0, 10 ** 6)), "kind": draw(st.sampled_from(["graph", "matrix"]))}


def frequency(c, note):
    n, K = c["n"], 12
    gr = c["groups"]
    idx = {(0, 0): 0, (0, 1): 1, (0, 2): 2, (1, 1): 3, (1, 2): 4, (2, 2): 5}
    cls = np.array([[idx[tuple(sorted((gr[i], gr[j])))] for j in range(n)] for i in range(n)])
    A = np.array(c["w"])[cls]
    np.fill_diagonal(A, 0)
    L = ref_laplacian(A, "combinatorial")
    R = resistances(L)
    iu = np.triu_indices(n, 1)
    pe = (A * R)[iu] / (n - 1)
    f = np.zeros(len(pe))
    qs = []
    for k in range(K):
        M = graphs.Graph(A) if c["kind"] == "graph" else sparse.csr_matrix(L)
        S = reduction.graph_sparsify(M, 1 / np.sqrt(n) + 1e-12, seed=c["seed"] + k)
        B = S.W.toarray() if c["kind"] == "graph" else -S.toarray()
        x = (B * R)[iu] / (n - 1)
        need(np.isfinite(x).all() and x.max() > 0, "nothing sampled")
        qs.append(1 / x[x > 0].min())  # the number of draws, as some edge was drawn once
        f += x / K
    Q = K * min(qs)
    note.nontrivial(len(set(c["w"])) > 1 and len(set(gr)) > 1)
    note.label(f"{len(set(cls[iu]))} classes")
    for k in set(cls[iu]):
        p = pe[cls[iu] == k].sum()
        sd = np.sqrt(max(p * (1 - p), 0) / Q)
        d = f[cls[iu] == k].sum() - p
        need(abs(d) <= 7 * sd + 7 / Q, "class %d is drawn with frequency %.4f instead of %.4f (sd %.4f): sampling not proportional to leverage", k, p + d, p, sd)


# ------------------------------------------------------------------ multiresolution
@st.composite
def multi_cases(draw):
    g = draw(graph(min_n=1, max_n=16, directed=False, connected=True, loops=draw(st.integers(0, 3)) == 0, kinds=["ones", "int", "float", "scaled"]))
    return {"g": g, "levels": draw(st.integers(0, 4)), "full": draw(st.booleans()), "pre": draw(st.sampled_from([None, "full", "partial"])), "coords": draw(st.booleans()), "reg": draw(st.sampled_from([None, 0.005, 0.1, 1.0])),
            "sparsify": draw(st.sampled_from([False, False, True])), "eps": draw(st.sampled_from([None, 0.3, 0.7, 1.0])), "seed": draw(st.integers(0, 10 ** 6)), "np_seed": draw(st.integers(0, 10 ** 6))}


def multi(c, note):
    g, n = c["g"], c["g"]["n"]
    W = dense(g)
    G = build(g)
    if c["coords"]:
        G.set_coordinates(np.arange(2.0 * n).reshape(n, 2))
    if c["pre"]:
        G.compute_fourier_basis(1 if c["pre"] == "partial" else None)
        U, e = G.U.copy(), G.e.copy()
    np.random.seed(c["np_seed"])
    kw = {} if c["reg"] is None else {"reg_eps": c["reg"]}
    if c["eps"]:
        kw["sparsify_eps"] = c["eps"]
    try:
        Gs = reduction.graph_multiresolution(G, c["levels"], sparsify=c["sparsify"], compute_full_eigen=c["full"], **kw)
    except ValueError:
        if c["sparsify"]:
            return  # too coarse a sparsification disconnected a graph (documented warning): its reduction does not exist
        raise
    reg = c["reg"] or 0.005
    need(len(Gs) == c["levels"] + 1 and Gs[0] is G, "%d graphs", len(Gs))
    need(np.array_equal(G.W.toarray(), W), "graph modified")
    if c["pre"] == "full":
        need(np.array_equal(G.U, U) and np.array_equal(G.e, e), "Fourier basis modified")
    need(np.array_equal(G.mr["idx"], np.arange(n)) and np.array_equal(G.mr["orig_idx"], np.arange(n)), "indices of the first level")
    note.nontrivial(Gs[-1].N < n)
    note.label("sparsify" if c["sparsify"] else "kron", f"down to {min(Gs[-1].N, 5)}")
    for i in range(c["levels"]):
        a, b = Gs[i], Gs[i + 1]
        idx = np.asarray(b.mr["idx"])
        need(idx.dtype.kind == "i" and len(idx) == b.N >= 1 and len(set(idx)) == b.N and (np.diff(idx) > 0).all() and idx.min() >= 0 and idx.max() < a.N, "level %d: indices %s", i, idx)
        need(np.array_equal(b.mr["orig_idx"], np.asarray(a.mr["orig_idx"])[idx]), "level %d: original indices %s", i, b.mr["orig_idx"])
        need(b.mr["level"] == i, "level number %s", b.mr["level"])
        A = a.W.toarray().astype(float)
        np.fill_diagonal(A, 0)
        conn = len(ref_components(A)) == 1
        L = ref_laplacian(A, "combinatorial")
        s = max(norm_of(L), 1e-300)
        if conn:
            R, cond = schur(L, list(idx))
            if cond > 1e8:
                return
            B = b.W.toarray().astype(float)
            if not (c["sparsify"] and b.N > 2):
                close(b.L, R, 1e-13 * cond + 1e-12, f"Laplacian of level {i + 1}", ref=s)
            else:
                need(not B[np.abs(R) <= 1e-12 * s].any(), "level %d: edges out of nowhere", i + 1)
            # vertices of one polarity of the eigenvector of largest eigenvalue
            w, V = np.linalg.eigh(L)
            if a.N > 1 and w[-1] - w[-2] > 1e-6 * w[-1] and np.abs(V[:, -1]).min() > 1e-6:
                v = V[:, -1] * np.sign(V[0, -1])
                need(list(idx) == list(np.nonzero(v >= 0)[0]), "level %d: kept %s of %s", i, idx, v)
            if a.N > 1 and w[-1] - w[-2] > 1e-6 * w[-1]:
                need(len(idx) < a.N, "level %d: nothing eliminated", i)
        else:
            return
        if c["coords"] and not (c["sparsify"]):
            need(np.array_equal(b.coords, G.coords[b.mr["orig_idx"]]), "coordinates of level %d", i + 1)
        need((b._e is not None and b._U is not None and len(b._e) == b.N) if c["full"] else b._lmax is not None, "level %d: spectrum not computed", i + 1)
        K, cond = schur(L + reg * np.eye(a.N), list(idx))
        close(a.mr["K_reg"], K, 1e-13 * cond + 1e-12, "regularized reduction", ref=s + reg)
        f = a.mr["green_kernel"]
        x = np.array([0, 0.3, 7.0])
        need(isinstance(f, filters.Filter) and f.G is a, "green kernel")
        close(np.ravel(f.evaluate(x)), 1 / (reg + x), 1e-12, "green kernel")


@st.composite
def complete_cases(draw):
    return {"n": draw(st.one_of(st.integers(3, 80), st.integers(60, 80))), "w": draw(st.sampled_from([1.0, 0.25, 3.0])), "perturbed": draw(st.booleans())}


def complete(c, note):
    """All but one of the eigenvalues are equal: hard for iterative solvers, from some of their (random) starting vectors."""
    n = c["n"]
    W = np.full((n, n), c["w"])
    if c["perturbed"]:
        W *= 1 + 1e-15 * np.random.default_rng(n).standard_normal((n, n))
        W = (W + W.T) / 2
    np.fill_diagonal(W, 0)
    for _ in range(5):
        a, b = reduction.graph_multiresolution(graphs.Graph(W), 1, sparsify=False)
        note.nontrivial(b.N < n)
        need(b.N >= 1 and b.mr["idx"][0] == 0, "kept %s", b.mr["idx"])
        close(b.L, schur(a.L.toarray(), list(b.mr["idx"]))[0], 1e-11, "Laplacian of a reduced complete graph", ref=c["w"] * n)


PARTS = [
    Part("kron", kron_cases(), kron, 1200, large=300),
    Part("large", large_cases(), large, 300),
    Part("matrix", matrix_cases(), matrix, 500, large=200),
    Part("reject", reject_cases(), reject, 100),
    Part("sparsify", sparsify_cases(), sparsify, 800, large=300),
    Part("frequency", frequency_cases(), frequency, 80),
    Part("complete", complete_cases(), complete, 60),
    Part("multiresolution", multi_cases(), multi, 600, large=300),
]


def tree_multiresolution(case, note):
    Gs, kept = reduction.tree_multiresolution(graphs.Path(case["n"]), 1, root=0)
    need(len(Gs) == 2, "%d levels", len(Gs))


KNOWN = {"C23-tree-multiresolution": tree_multiresolution}
