"""C29: results follow a renumbering of the vertices, a change of unit, and disjoint unions."""
import numpy as np
from hypothesis import strategies as st
from scipy import sparse

from pygsp import features, filters, graphs, learning, optimization, reduction, utils

from .. import gens
from ..gens import LAP, build, close, dense, graph, kernel, kernel_fn, lap_scale, need, norm_of, null_spectrum, ref_components, ref_laplacian, spectral_scale, tensor, toarray
from ..runner import Part

RULE = ("Random directed and undirected graphs with self-loops, either Laplacian, compared with (1) a copy whose vertices are renumbered at random, (2) a copy whose weights are multiplied by a constant over twelve decades, (3) their union with another "
        "graph (possibly a single vertex), (4) the graph of reversed edges: degrees, Laplacians, spectra, operators, filters of any kind and method, designed filter banks, frames, energies, learning, interpolation, reductions, resistances, features, "
        "nearest-neighbor graphs, line graphs and proximal operators must correspond exactly. Non-trivial: a permutation which is not the identity (1), a factor other than one (2), both graphs with an edge (3, 4), and an edge.")
ASSUMPTIONS = ["kernels are smooth", "iterative solutions are compared up to their tolerance times the condition number"]


def apply(g, p):
    """Vertex i of the renumbered graph is vertex p[i]."""
    W = dense(g)
    return W[np.ix_(p, p)]


@st.composite
def permuted(draw):
    g = draw(graph(min_n=2, max_n=9, loops=True, min_edges=1))
    n = g["n"]
    return {"g": g, "lap": draw(LAP), "p": draw(st.permutations(list(range(n)))), "x": draw(tensor((n,))), "X": draw(tensor((n, 2))), "ks": draw(st.lists(kernel(), min_size=1, max_size=3)), "method": draw(st.sampled_from(["exact", "fourier", "bounds"])),
            "order": draw(st.integers(1, 40)), "i": draw(st.integers(0, n - 1)), "known": draw(st.lists(st.booleans(), min_size=n, max_size=n)), "labels": draw(st.lists(st.integers(0, 2), min_size=n, max_size=n)),
            "tau": draw(st.sampled_from([0.1, 0.5, 2.0])), "Nf": draw(st.integers(3, 6))}


def edge_map(G, values, p=None):
    """{(source, target): values}, in the numbering of the original graph."""
    i, j, _ = [np.asarray(a) for a in G.get_edge_list()]
    out = {}
    for a, b, v in zip(i, j, values):
        a, b = (int(a), int(b)) if p is None else (int(p[a]), int(p[b]))
        flip = not G.is_directed() and a > b
        out[(b, a) if flip else (a, b)] = -v if flip else v
    return out


def maps_equal(a, b, tol, what):
    need(set(a) == set(b), "%s: edges %s, expected %s", what, sorted(a), sorted(b))
    if a:
        ks = sorted(a)
        close(np.array([a[k] for k in ks]), np.array([b[k] for k in ks]), tol, what, ref=max(norm_of([b[k] for k in ks]), 1e-300))


def prepare(G, method):
    if method == "bounds":
        G.estimate_lmax("bounds")
    else:
        G.compute_fourier_basis()


DESIGNS = {
    "Itersine": lambda G, n: filters.Itersine(G, n), "Regular": lambda G, n: filters.Regular(G, n), "Held": lambda G, n: filters.Held(G), "Simoncelli": lambda G, n: filters.Simoncelli(G), "Papadakis": lambda G, n: filters.Papadakis(G), "HalfCosine": lambda G, n: filters.HalfCosine(G, n),
    "Rectangular": lambda G, n: filters.Rectangular(G, 0.1, 0.63), "Expwin": lambda G, n: filters.Expwin(G, 0.1, 0.63), "Meyer": lambda G, n: filters.Meyer(G, n), "Abspline": lambda G, n: filters.Abspline(G, n), "SimpleTight": lambda G, n: filters.SimpleTight(G, n), "MexicanHat": lambda G, n: filters.MexicanHat(G, n),
    "Heat": lambda G, n: filters.Heat(G, n), "Wave": lambda G, n: filters.Wave(G, n, 0.7),
}
SMOOTH_DESIGNS = ["Heat", "Wave", "MexicanHat", "Itersine", "Abspline"]


def permute(c, note):
    g, p = c["g"], np.array(c["p"])
    W = dense(g)
    V = apply(g, p)
    n, lap = g["n"], c["lap"]
    G, H = graphs.Graph(sparse.csr_matrix(W), lap_type=lap), graphs.Graph(sparse.csr_matrix(V), lap_type=lap)
    s = spectral_scale(None, W, lap)
    note.nontrivial(c["p"] != sorted(c["p"]))
    note.label(lap, c["method"], "directed" if G.is_directed() else "undirected")
    for f in ("is_directed", "is_connected", "is_weighted", "has_loops"):
        need(getattr(G, f)() == getattr(H, f)(), "%s differs", f)
    need(G.n_edges == H.n_edges and G.n_vertices == H.n_vertices, "size differs")
    need(np.array_equal(H.d, G.d[p]), "degrees %s, %s", H.d, G.d[p])
    close(H.dw, G.dw[p], 1e-12, "weighted degrees", ref=norm_of(W) * n)
    ls = lap_scale(W, lap)
    close(H.L, G.L.toarray()[np.ix_(p, p)], 1e-12, "Laplacian", ref=ls)
    if null_spectrum(G, s):
        return
    if not G.is_directed():
        a = sorted(sorted(int(p[i]) for i in C.info["orig_idx"]) for C in H.extract_components())
        b = sorted(sorted(int(i) for i in C.info["orig_idx"]) for C in G.extract_components())
        need(a == b, "components %s, expected %s", a, b)
    prepare(G, c["method"])
    prepare(H, c["method"])
    close(H.lmax, G.lmax, 1e-9, "lmax", ref=max(G.lmax, 1e-300))
    x, X = np.array(c["x"]), np.array(c["X"])
    close(H.dirichlet_energy(x[p]), G.dirichlet_energy(x), 1e-9, "energy", ref=ls * n * (norm_of(x) + 1e-9) ** 2)
    G.compute_differential_operator()
    H.compute_differential_operator()
    ga, gb = edge_map(H, H.grad(x[p]), p), edge_map(G, G.grad(x))
    maps_equal(ga, gb, 1e-9, "gradient") if norm_of(x) else None
    maps_equal(edge_map(H, H.get_edge_list()[2], p) if H.is_directed() else {k: abs(v) for k, v in edge_map(H, H.get_edge_list()[2], p).items()},
               edge_map(G, G.get_edge_list()[2]) if G.is_directed() else {k: abs(v) for k, v in edge_map(G, G.get_edge_list()[2]).items()}, 1e-12, "weights")
    close(H.div(H.grad(x[p])), G.div(G.grad(x))[p], 1e-9, "divergence of the gradient", ref=ls * max(norm_of(x), 1))
    if c["method"] != "bounds":
        close(H.e, G.e, 1e-9, "spectrum", ref=max(G.lmax, 1e-300))
        # energy per (possibly multiple) eigenvalue
        ea, eb = H.gft(x[p]) ** 2, G.gft(x) ** 2
        cuts = np.nonzero(np.diff(G.e) > 1e-5 * s)[0] + 1
        if len(cuts) + 1 == n or np.all(np.diff(G.e)[np.setdiff1d(np.arange(n - 1), cuts - 1)] < 1e-9 * s):
            a, b = [np.array([t.sum() for t in np.split(e, cuts)]) for e in (ea, eb)]
            close(a, b, 1e-6, "energy per frequency", ref=max(norm_of(b), 1))
            if len(cuts) + 1 == n:
                close(H.coherence, G.coherence, 1e-6, "coherence", ref=1)
    fns = [kernel_fn(k, s) for k in c["ks"]]
    FG, FH = filters.Filter(G, fns), filters.Filter(H, fns)
    kw = {"method": "exact"} if c["method"] == "exact" else {"order": c["order"]}
    ref = max(1.0, norm_of(X)) * 30
    close(FH.filter(X[p], **kw), FG.filter(X, **kw)[p], 1e-8, "filtered signals", ref=ref)
    T = np.stack([X * (k + 1) for k in range(len(fns))], 2)
    close(FH.filter(T[p], **kw), FG.filter(T, **kw)[p], 1e-8, "synthesized signals", ref=ref * 6)
    j = int(np.nonzero(p == c["i"])[0][0])
    close(FH.localize(j, **kw), FG.localize(c["i"], **kw)[p], 1e-8, "localized filters", ref=30 * np.sqrt(n))
    close(np.array(FH.estimate_frame_bounds()), np.array(FG.estimate_frame_bounds()), 1e-8, "frame bounds", ref=900)
    a = FH.compute_frame(**kw).reshape(len(fns), n, n)
    b = FG.compute_frame(**kw).reshape(len(fns), n, n)
    close(a, b[:, p][:, :, p], 1e-8, "frame", ref=30)
    for k in range(len(fns)):
        close(features.compute_tig(FH, i=k, **kw), features.compute_tig(FG, i=k, **kw)[p][:, p], 1e-8, "Tig", ref=30)
    if not G.is_directed() and G.n_edges:
        close(features.compute_avg_adj_deg(H), features.compute_avg_adj_deg(G)[p], 1e-10, "average adjacency degree")
    if G.lmax > 0:
        for name in sorted(DESIGNS):
            if c["method"] == "exact" or name in SMOOTH_DESIGNS:
                a, b = DESIGNS[name](H, c["Nf"]), DESIGNS[name](G, c["Nf"])
                grid = np.linspace(0, G.lmax, 9)[1:-1] * 0.999
                close(a.evaluate(grid), b.evaluate(grid), 1e-6, f"responses of {name}", ref=max(1, norm_of(b.evaluate(grid))))
    if c["method"] == "exact" and lap == "combinatorial":
        close(features.compute_spectrogram(H, M=4, method="exact"), features.compute_spectrogram(G, M=4, method="exact")[p], 1e-6, "spectrogram", ref=1)
    further(c, G, H, W, p, x, X, lap, n)


def further(c, G, H, W, p, x, X, lap, n):
    L = ref_laplacian(W, lap)
    M = np.array(c["known"])
    ref = max(1.0, norm_of(X))
    A = np.diag(M.astype(float)) + c["tau"] * L
    comps = ref_components(W)
    if M.any() and np.linalg.cond(A) < 1e3:
        for y in (x, X):
            a, b = learning.regression_tikhonov(H, y[p], M[p], tau=c["tau"]), learning.regression_tikhonov(G, y, M, tau=c["tau"])
            close(a, b[p], 1e-4 * np.linalg.cond(A), "regression", ref=ref)
        lab = np.array(c["labels"])
        if len(set(lab[M])) > 1:
            a, b = learning.classification_tikhonov(H, lab[p], M[p], tau=c["tau"]), learning.classification_tikhonov(G, lab, M, tau=c["tau"])
            close(a, b[p], 1e-4 * np.linalg.cond(A), "classification", ref=1)
            a, b = [learning.classification_tikhonov_simplex(*t, tau=c["tau"], verbosity="NONE", rtol=1e-12, maxit=300) for t in ((H, lab[p], M[p]), (G, lab, M))]
            close(a, b[p], 1e-5, "constrained classification", ref=1)
    if M.any() and not M.all() and all(M[k].any() for k in comps) and norm_of(W) > 1e-9:
        R = L[np.ix_(~M, ~M)]
        if np.linalg.cond(R) < 1e6:
            a, b = learning.regression_tikhonov(H, X[p], M[p], tau=0), learning.regression_tikhonov(G, X, M, tau=0)
            close(a, b[p], 1e-9 * np.linalg.cond(R), "harmonic extension", ref=ref)
            if lap == "combinatorial" and not G.is_directed() and np.linalg.cond(R) < 1e4:
                keep = np.nonzero(M)[0]
                inv = np.argsort(p)
                # the kept vertices, in any order
                a, b = reduction.kron_reduction(H, inv[keep]), reduction.kron_reduction(G, keep)
                close(a.W, b.W.toarray(), 1e-7, "Kron reduction", ref=norm_of(W) * n)
                if 1e-2 < norm_of(W) < 1e2:
                    eps = 0.1 * norm_of(W)
                    a, b = [reduction.interpolate(g, X[keep], k, order=60, reg_eps=eps) for g, k in ((H, inv[keep]), (G, keep))]
                    if c["method"] != "exact":
                        close(a, b[p], 1e-6, "interpolation", ref=ref * n)
    if lap == "combinatorial" and len(comps) == 1 and 1e-3 < norm_of(W) < 1e3:
        e = np.linalg.eigvalsh(L)
        if e[1] > 1e-4 * e[-1]:
            close(utils.resistance_distance(H), toarray(utils.resistance_distance(G))[np.ix_(p, p)], 1e-7, "resistance distances", ref=n / e[1])
    if not G.is_directed() and G.n_edges < 15:
        a, b = graphs.LineGraph(H), graphs.LineGraph(G)
        i, j, _ = H.get_edge_list()
        names = [tuple(sorted((int(p[k]), int(p[l])))) for k, l in zip(i, j)]
        i, j, _ = G.get_edge_list()
        order = {tuple(sorted((int(k), int(l)))): t for t, (k, l) in enumerate(zip(i, j))}
        q = [order[t] for t in names]
        close(a.W, b.W.toarray()[np.ix_(q, q)], 1e-12, "line graph", ref=1)


# ------------------------------------------------------------------ units
@st.composite
def scaled(draw):
    c = draw(permuted())
    c["k"] = draw(st.sampled_from([1e-6, 1e-3, 0.1, 0.5, 2.0, 3.0, 10.0, 1e3, 1e6]))
    g = c["g"]
    if g["kind"] == "scaled":
        g["edges"] = [[i, j, 1.0 + 0.5 * (k % 3)] for k, (i, j, _) in enumerate(g["edges"])]
    return c


def scale(c, note):
    g, k, lap = c["g"], c["k"], c["lap"]
    W = dense(g)
    n = g["n"]
    G, H = graphs.Graph(sparse.csr_matrix(W), lap_type=lap), graphs.Graph(sparse.csr_matrix(k * W), lap_type=lap)
    f = k if lap == "combinatorial" else 1.0
    s = spectral_scale(None, W, lap)
    note.nontrivial(True)
    note.label(lap, str(k))
    need(G.n_edges == H.n_edges and np.array_equal(G.d, H.d) and G.is_directed() == H.is_directed() and G.is_connected() == H.is_connected(), "structure differs")
    close(H.dw, k * G.dw, 1e-12, "weighted degrees")
    ls = lap_scale(W, lap)
    close(H.L, f * G.L.toarray(), 1e-12, "Laplacian", ref=f * ls)
    if null_spectrum(G, s):
        return
    prepare(G, c["method"])
    prepare(H, c["method"])
    close(H.lmax, f * G.lmax, 1e-9, "lmax", ref=f * max(G.lmax, 1e-300))
    x, X = np.array(c["x"]), np.array(c["X"])
    close(H.dirichlet_energy(x), f * G.dirichlet_energy(x), 1e-9, "energy", ref=f * ls * n * max(norm_of(x), 1e-9) ** 2)
    G.compute_differential_operator()
    H.compute_differential_operator()
    close(H.grad(x), np.sqrt(f) * G.grad(x), 1e-10, "gradient", ref=np.sqrt(f * ls) * max(norm_of(x), 1))
    if c["method"] != "bounds":
        close(H.e, f * G.e, 1e-9, "spectrum", ref=f * max(G.lmax, 1e-300))
    fns = [kernel_fn(q, s) for q in c["ks"]]
    gns = [kernel_fn(q, f * s) for q in c["ks"]]
    kw = {"method": "exact"} if c["method"] == "exact" else {"order": c["order"]}
    ref = max(1.0, norm_of(X)) * 30
    close(filters.Filter(H, gns).filter(X, **kw), filters.Filter(G, fns).filter(X, **kw), 1e-8, "filtered signals", ref=ref)
    if G.lmax > 0:
        for name in sorted(DESIGNS):
            a, b = DESIGNS[name](H, c["Nf"]), DESIGNS[name](G, c["Nf"])
            grid = np.linspace(0, 1, 9)[1:-1] * 0.999
            ya, yb = a.evaluate(grid * H.lmax), b.evaluate(grid * G.lmax)
            close(ya, yb, 1e-6, f"responses of {name}", ref=max(1, norm_of(yb)))
            if name in SMOOTH_DESIGNS and kw.get("method") != "exact":
                close(a.filter(x, **kw), b.filter(x, **kw), 1e-5, f"signals filtered by {name}", ref=10 * max(1, norm_of(x)) * max(1, norm_of(yb)))
    if c["method"] == "exact":
        close(features.compute_spectrogram(H, M=4, method="exact"), features.compute_spectrogram(G, M=4, method="exact"), 1e-6, "spectrogram", ref=1)
    M = np.array(c["known"])
    L = ref_laplacian(W, lap)
    comps = ref_components(W)
    A = np.diag(M.astype(float)) + c["tau"] * L
    if M.any() and np.linalg.cond(A) < 1e3:
        a, b = learning.regression_tikhonov(H, X, M, tau=c["tau"] / f), learning.regression_tikhonov(G, X, M, tau=c["tau"])
        close(a, b, 1e-4 * np.linalg.cond(A), "regression", ref=ref)
    if M.any() and not M.all() and all(M[q].any() for q in comps):
        R = L[np.ix_(~M, ~M)]
        if np.linalg.cond(R) < 1e6:
            a, b = learning.regression_tikhonov(H, X, M, tau=0), learning.regression_tikhonov(G, X, M, tau=0)
            close(a, b, 1e-9 * np.linalg.cond(R), "harmonic extension", ref=ref)
            if lap == "combinatorial" and not G.is_directed() and np.linalg.cond(R) < 1e4:
                keep = np.nonzero(M)[0]
                a, b = reduction.kron_reduction(H, keep), reduction.kron_reduction(G, keep)
                close(a.W, k * b.W.toarray(), 1e-7, "Kron reduction", ref=k * norm_of(W) * n)
                a, b = [reduction.interpolate(t, X[keep], keep, method="exact", reg_eps=0.1 * u * norm_of(W)) for t, u in ((H, k), (G, 1))] if c["method"] == "exact" else [np.zeros(1)] * 2
                close(a, b, 1e-6, "interpolation", ref=ref * n)
    if lap == "combinatorial" and len(comps) == 1:
        e = np.linalg.eigvalsh(L)
        if e[1] > 1e-4 * e[-1]:
            close(utils.resistance_distance(H), toarray(utils.resistance_distance(G)) / k, 1e-7, "resistance distances", ref=n / e[1] / k)


# ------------------------------------------------------------------ unions
@st.composite
def unions(draw):
    g = draw(graph(min_n=1, max_n=6, loops=True, directed=False, kinds=["ones", "int", "float", "scaled"]))
    h = draw(graph(min_n=1, max_n=6, loops=True, directed=False, kinds=["ones", "int", "float", "scaled"]))
    n = g["n"] + h["n"]
    return {"g": g, "h": h, "dir": draw(st.booleans()), "p": draw(st.permutations(list(range(n)))), "lap": draw(LAP), "x": draw(tensor((n, 2))), "poly": draw(st.lists(kernel(kinds=["poly"]), min_size=1, max_size=3)), "ks": draw(st.lists(kernel(), min_size=1, max_size=3)),
            "order": draw(st.integers(4, 20)), "known": draw(st.lists(st.booleans(), min_size=n, max_size=n)), "tau": draw(st.sampled_from([0.1, 1.0]))}


class Shaped(filters.Filter):
    def filter(self, s, **kw):  # dimensions of length one are dropped otherwise
        return np.reshape(super().filter(s[..., None], **kw), s.shape + (len(self._kernels),))


def union(c, note):
    g, h, lap = c["g"], c["h"], c["lap"]
    W1, W2 = dense(g), dense(h)
    if c["dir"]:  # keep a direction only
        W1, W2 = np.triu(W1), np.triu(W2)
    n1, n = g["n"], g["n"] + h["n"]
    p = np.array(c["p"])
    inv = np.argsort(p)
    B = np.zeros((n, n))
    B[:n1, :n1], B[n1:, n1:] = W1, W2
    U = graphs.Graph(sparse.csr_matrix(B[np.ix_(p, p)]), lap_type=lap)
    A1, A2 = graphs.Graph(sparse.csr_matrix(W1), lap_type=lap), graphs.Graph(sparse.csr_matrix(W2), lap_type=lap)
    note.nontrivial(bool(g["edges"]) and bool(h["edges"]))
    note.label(lap, "directed" if c["dir"] else "undirected")
    split = lambda y: (y[inv][:n1], y[inv][n1:])
    join = lambda a, b: np.concatenate([a, b])[p]
    need(U.n_edges == A1.n_edges + A2.n_edges or A1.is_directed() != A2.is_directed(), "%d edges", U.n_edges)
    need(not U.is_connected(), "connected")
    need(U.is_directed() == (A1.is_directed() or A2.is_directed()), "directed %s", U.is_directed())
    if A1.is_directed() == A2.is_directed():
        need(np.array_equal(U.d, join(A1.d, A2.d)), "degrees")
    close(U.dw, join(A1.dw, A2.dw), 1e-12, "weighted degrees", ref=max(norm_of(B) * n, 1e-300))
    Lb = np.zeros((n, n))
    Lb[:n1, :n1], Lb[n1:, n1:] = A1.L.toarray(), A2.L.toarray()
    close(U.L, Lb[np.ix_(p, p)], 1e-12, "Laplacian", ref=lap_scale(B, lap))
    s = spectral_scale(None, B, lap)
    if any(null_spectrum(t, s) for t in (U, A1, A2)):
        return
    for t in (U, A1, A2):
        t.compute_fourier_basis()
    close(U.e, np.sort(np.concatenate([A1.e, A2.e])), 1e-9, "spectrum", ref=s)
    close(U.lmax, max(A1.lmax, A2.lmax), 1e-9, "lmax", ref=s)
    x = np.array(c["x"])
    x1, x2 = split(x)
    close(U.dirichlet_energy(x[:, 0]), A1.dirichlet_energy(x1[:, 0]) + A2.dirichlet_energy(x2[:, 0]), 1e-9, "energy", ref=lap_scale(B, lap) * n * max(norm_of(x), 1) ** 2)
    for t in (U, A1, A2):
        t.compute_differential_operator()
    close(np.sort(np.abs(U.grad(x[:, 0]))), np.sort(np.abs(np.concatenate([A1.grad(x1[:, 0]), A2.grad(x2[:, 0])]))), 1e-9, "gradient", ref=np.sqrt(lap_scale(B, lap)) * max(norm_of(x), 1)) if A1.is_directed() == A2.is_directed() else None
    ref = 30 * max(1, norm_of(x))
    fns = [kernel_fn(k, s) for k in c["ks"]]
    F = [Shaped(t, fns) for t in (U, A1, A2)]
    close(F[0].filter(x, method="exact"), join(F[1].filter(x1, method="exact"), F[2].filter(x2, method="exact")), 1e-8, "filtered signals", ref=ref)
    fns = [kernel_fn(k, s) for k in c["poly"]]
    F = [Shaped(t, fns) for t in (U, A1, A2)]
    if A1.lmax > 1e-3 * s and A2.lmax > 1e-3 * s:
        close(F[0].filter(x, order=c["order"]), join(F[1].filter(x1, order=c["order"]), F[2].filter(x2, order=c["order"])), 1e-6, "polynomial filters", ref=ref)
    if not U.is_directed():
        a = sorted(sorted(int(p[i]) for i in C.info["orig_idx"]) for C in U.extract_components())
        b = sorted([sorted(int(i) for i in C.info["orig_idx"]) for C in A1.extract_components()] + [sorted(int(i) + n1 for i in C.info["orig_idx"]) for C in A2.extract_components()])
        need(a == b, "components %s, expected %s", a, b)
    M = np.array(c["known"])
    M1, M2 = split(M)
    L = ref_laplacian(B[np.ix_(p, p)], lap)
    A = np.diag(M.astype(float)) + c["tau"] * L
    if M1.any() and M2.any() and np.linalg.cond(A) < 1e3:
        close(learning.regression_tikhonov(U, x, M, tau=c["tau"]), join(learning.regression_tikhonov(A1, x1, M1, tau=c["tau"]), learning.regression_tikhonov(A2, x2, M2, tau=c["tau"])), 1e-4 * np.linalg.cond(A), "regression", ref=max(1, norm_of(x)))
    comps = ref_components(B[np.ix_(p, p)])
    if M.any() and not M.all() and all(M[k].any() for k in comps):
        R = L[np.ix_(~M, ~M)]
        if np.linalg.cond(R) < 1e5:
            if not M1.all() and not M2.all():
                close(learning.regression_tikhonov(U, x, M, tau=0), join(learning.regression_tikhonov(A1, x1, M1, tau=0), learning.regression_tikhonov(A2, x2, M2, tau=0)), 1e-9 * np.linalg.cond(R), "harmonic extension", ref=max(1, norm_of(x)))
            if lap == "combinatorial" and not U.is_directed():
                keep = np.nonzero(M)[0]
                K = reduction.kron_reduction(U, keep).W.toarray()
                k1, k2 = np.nonzero(M1)[0], np.nonzero(M2)[0]
                a, b = reduction.kron_reduction(A1, k1).W.toarray(), reduction.kron_reduction(A2, k2).W.toarray()
                E = np.zeros((len(keep), len(keep)))
                old = p[keep]  # in the numbering of the blocks
                for u, i in enumerate(old):
                    for v, j in enumerate(old):
                        if i < n1 and j < n1:
                            E[u, v] = a[list(k1).index(i), list(k1).index(j)]
                        elif i >= n1 and j >= n1:
                            E[u, v] = b[list(k2).index(i - n1), list(k2).index(j - n1)]
                close(K, E, 1e-7, "Kron reduction", ref=max(norm_of(B), 1e-300) * n)


# ------------------------------------------------------------------ reversed edges
def reverse(c, note):
    g, lap = dict(c["g"]), c["lap"]
    W = dense(g)
    n = g["n"]
    G, H = graphs.Graph(sparse.csr_matrix(W), lap_type=lap), graphs.Graph(sparse.csr_matrix(W.T), lap_type=lap)
    note.nontrivial(G.is_directed())
    note.label("directed" if G.is_directed() else "undirected")
    need(G.n_edges == H.n_edges and G.is_directed() == H.is_directed() and G.is_connected() == H.is_connected() and G.has_loops() == H.has_loops(), "structure differs")
    need(np.array_equal(G.d, H.d), "degrees")
    close(H.dw, G.dw, 1e-12, "weighted degrees", ref=norm_of(W) * n)
    close(H.L, G.L.toarray(), 1e-12, "Laplacian", ref=lap_scale(W, lap))
    s = spectral_scale(None, W, lap)
    if null_spectrum(G, s):
        return
    x = np.array(c["x"])
    close(H.dirichlet_energy(x), G.dirichlet_energy(x), 1e-9, "energy", ref=lap_scale(W, lap) * n * max(norm_of(x), 1) ** 2)
    G.compute_differential_operator()
    H.compute_differential_operator()
    a = edge_map(H, H.grad(x))
    b = edge_map(G, G.grad(x))
    if G.is_directed():
        a = {(j, i): -v for (i, j), v in a.items()}
    need(set(a) == set(b), "edges %s, %s", a, b)
    close(np.array([a[k] for k in sorted(a)]), np.array([b[k] for k in sorted(b)]), 1e-9, "gradient", ref=np.sqrt(lap_scale(W, lap)) * max(norm_of(x), 1))
    prepare(G, c["method"])
    prepare(H, c["method"])
    fns = [kernel_fn(k, s) for k in c["ks"]]
    kw = {"method": "exact"} if c["method"] == "exact" else {"order": c["order"]}
    close(filters.Filter(H, fns).filter(x, **kw), filters.Filter(G, fns).filter(x, **kw), 1e-8, "filtered signals", ref=30 * max(1, norm_of(x)))


# ------------------------------------------------------------------ points and proximal operators
@st.composite
def pointsets(draw):
    n = draw(st.integers(4, 9 if not gens.LARGE else 30))
    # distinct distances: generic points
    pts = draw(st.lists(st.tuples(st.integers(0, 10 ** 6), st.integers(0, 10 ** 6)), min_size=n, max_size=n, unique=True))
    return {"pts": [[a / 1e5, b / 1e5] for a, b in pts], "p": draw(st.permutations(list(range(n)))), "k": draw(st.integers(1, n - 1)), "type": draw(st.sampled_from(["knn", "radius"])), "sym": draw(st.sampled_from(["average", "maximum", "fill"])),
            "dist": draw(st.sampled_from(["euclidean", "manhattan", "max_dist"])), "center": draw(st.booleans()), "rescale": draw(st.booleans()), "sigma": draw(st.sampled_from([None, 1.0, 5.0])), "shift": draw(tensor((2,))), "unit": draw(st.sampled_from([0.01, 1.0, 7.0, 1e3])), "eps": draw(st.integers(1, 99)) / 10}


def points(c, note):
    x, p = np.array(c["pts"]), np.array(c["p"])
    n = len(x)
    # ties make the choice of the neighbors arbitrary
    d = np.array([[{"euclidean": np.linalg.norm(a - b), "manhattan": np.abs(a - b).sum(), "max_dist": np.abs(a - b).max()}[c["dist"]] for b in x] for a in x])
    if c["type"] == "knn":
        s = np.sort(d, 1)
        if np.any(np.diff(s, axis=1) < 1e-6):
            return
    elif np.any(np.abs(d - c["eps"]) < 1e-6) or not np.any((d < c["eps"]) & ~np.eye(n, dtype=bool)):
        return
    kw = {"NNtype": c["type"], "k": c["k"], "symmetrize_type": c["sym"], "dist_type": c["dist"], "center": c["center"], "rescale": c["rescale"], "sigma": c["sigma"], "epsilon": c["eps"]}
    if c["rescale"] and c["type"] == "radius":
        kw["rescale"] = False
    note.nontrivial(c["p"] != sorted(c["p"]))
    note.label(c["type"], c["dist"], c["sym"])
    G, H = graphs.NNGraph(x, **kw), graphs.NNGraph(x[p], **kw)
    close(H.W, G.W.toarray()[np.ix_(p, p)], 1e-7, "weights of renumbered points", ref=1)
    close(H.coords, G.coords[p], 1e-9, "coordinates", ref=max(1, norm_of(G.coords)))
    need(np.isclose(G.sigma, H.sigma, rtol=1e-7, atol=0), "width %s, %s", G.sigma, H.sigma)
    # translations never matter, units neither when the points are rescaled, or the width
    H = graphs.NNGraph(x + np.array(c["shift"]), **kw)
    close(H.W, G.W.toarray(), 1e-6, "weights of translated points", ref=1)
    if c["sigma"] or kw["rescale"]:  # the similarity is exp(-distance**2 / sigma)
        kv = dict(kw)
        if not kw["rescale"]:
            kv["epsilon"] = kw["epsilon"] * c["unit"]
            kv["sigma"] = kw["sigma"] * c["unit"] ** 2
        H = graphs.NNGraph(x * c["unit"], **kv)
        close(H.W, G.W.toarray(), 1e-6, "weights of points in another unit", ref=1)


@st.composite
def proxes(draw):
    g = draw(graph(min_n=2, max_n=6, directed=False, connected=True, kinds=["ones", "int", "float", "scaled"], min_edges=1))
    n = g["n"]
    return {"g": g, "p": draw(st.permutations(list(range(n)))), "x": draw(tensor((n,))), "gamma": draw(st.sampled_from([0.1, 1.0, 5.0])), "k": draw(st.sampled_from([0.25, 4.0]))}


def prox(c, note):
    W = dense(c["g"])
    p, x = np.array(c["p"]), np.array(c["x"])
    e = np.linalg.eigvalsh(ref_laplacian(W, "combinatorial"))
    if e[1] < e[-1] / 300:
        return
    note.nontrivial(c["p"] != sorted(c["p"]) and np.ptp(x) > 0)
    kw = {"tol": 1e-15, "maxit": 10000}
    G = graphs.Graph(W)
    z = optimization.prox_tv(x, c["gamma"], G, **kw)
    ref = max(1, norm_of(x))
    close(optimization.prox_tv(x[p], c["gamma"], graphs.Graph(W[np.ix_(p, p)]), **kw), z[p], 1e-3, "renumbered", ref=ref)
    close(optimization.prox_tv(x, c["gamma"] / np.sqrt(c["k"]), graphs.Graph(c["k"] * W), **kw), z, 1e-3, "other unit", ref=ref)
    close(optimization.prox_tv(-2 * x + 3, 2 * c["gamma"], G, **kw), -2 * z + 3, 1e-3, "scaled and shifted signal", ref=2 * ref + 3)


PARTS = [
    Part("permute", permuted(), permute, 500, large=60),
    Part("scale", scaled(), scale, 500, large=60),
    Part("union", unions(), union, 500, large=60),
    Part("reverse", permuted(), reverse, 300, large=40),
    Part("points", pointsets(), points, 300, large=40),
    Part("prox", proxes(), prox, 60),
]
