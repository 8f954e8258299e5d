"""C01: a graph represents exactly the adjacency matrix it was given."""
import numpy as np
from hypothesis import strategies as st
from scipy import sparse

from pygsp import graphs

from ..gens import close, dense, graph, need, raises
from ..runner import Part

RULE = ("A case is a random weight matrix (9 shapes of graph, directed or not, loops, "
        "explicit zeros, negative weights in one part) with a container format and a dtype, "
        "or a matrix made invalid. Non-trivial: at least one edge (valid cases) ; distinct by content.")
ASSUMPTIONS = ["float sums compared with relative tolerance 1e-12 (float32: 1e-5)"]

FORMATS = ["list", "dense", "csr", "csc", "coo", "lil", "dok", "bsr", "dia", "csr_array", "coo_array", "coo_dup", "csr_zeros", "fortran", "csr_unsorted"]
DTYPES = ["float64", "float32", "int64", "int32", "int8", "uint8", "bool"]


def containers(W, fmt):
    if fmt == "list":
        return W.tolist()
    if fmt == "dense":
        return W.copy()
    if fmt == "fortran":
        return np.asfortranarray(W)
    if fmt == "csr_array":
        return sparse.csr_array(W)
    if fmt == "coo_array":
        return sparse.coo_array(W)
    if fmt == "coo_dup":  # each entry twice, summing up to the weight
        m = sparse.coo_matrix(W)
        half = m.data / 2 if W.dtype.kind == "f" else m.data * 0  # halves are exact
        return sparse.coo_matrix((np.concatenate([half, m.data - half]).astype(W.dtype),
                                  (np.concatenate([m.row, m.row]), np.concatenate([m.col, m.col]))), shape=W.shape)
    if fmt == "csr_zeros":  # explicit zeros stored
        r, c = np.nonzero(np.ones_like(W, dtype=bool))
        m = sparse.csr_matrix((np.ones(r.size, dtype=W.dtype), (r, c)), shape=W.shape)
        m.data = W[r, c].astype(W.dtype)
        return m
    if fmt == "csr_unsorted":
        m = sparse.csr_matrix(W)
        for i in range(W.shape[0]):
            s = slice(m.indptr[i], m.indptr[i + 1])
            m.indices[s] = m.indices[s][::-1].copy()
            m.data[s] = m.data[s][::-1].copy()
        m.has_sorted_indices = False
        return m
    return getattr(sparse, fmt + "_matrix")(W)


@st.composite
def cases(draw):
    g = draw(graph(min_n=1, max_n=8, loops=True))
    dt = draw(st.sampled_from(DTYPES))
    if dt == "bool":
        g["edges"] = [[i, j, 1] for i, j, _ in g["edges"]]
    elif dt not in ("float64", "float32"):
        hi = {"int8": 127, "uint8": 255}.get(dt, 1000)
        ws = draw(st.lists(st.integers(1, hi), min_size=len(g["edges"]), max_size=len(g["edges"])))
        g["edges"] = [[i, j, w] for (i, j, _), w in zip(g["edges"], ws)]
    near = None
    if dt == "float64" and g["edges"]:  # almost unweighted, almost symmetric, negligible weights: no tolerance applies
        near = draw(st.sampled_from([None, None, "one", "symmetric", "tiny", "huge"]))
        eps = draw(st.sampled_from([2.0 ** -52, 1e-14, 1e-12, 1e-10, 1e-8, 1e-6, 1e-3]))
        e = draw(st.integers(0, len(g["edges"]) - 1))
        if near == "one":
            g["edges"] = [[i, j, 1.0 + eps * (k == e)] for k, (i, j, _) in enumerate(g["edges"])]
        elif near == "symmetric" and not g["directed"]:
            i, j, w = g["edges"][e]
            g["directed"] = True
            g["edges"] = g["edges"] + [[j, i, w] for i, j, w in g["edges"] if i != j]
            g["edges"][e] = [i, j, w * (1 + eps)]
        elif near in ("tiny", "huge"):
            g["edges"][e][2] *= eps ** 4 if near == "tiny" else eps ** -4
    fmt = draw(st.sampled_from(FORMATS))
    return {"g": g, "near": near, "dtype": dt, "fmt": fmt, "neg": draw(st.booleans()) and dt.startswith("float"),
            "lap": draw(st.sampled_from(["combinatorial", "normalized"])),
            "order": draw(st.permutations(["A", "d", "dw", "edges", "directed", "weighted", "loops", "connected"]))}


def check(case, note):
    g = case["g"]
    W = dense(g, np.dtype(case["dtype"]))
    lap = case["lap"]
    if case["neg"]:
        W = W.copy()
        for k, (i, j, w) in enumerate(g["edges"]):
            if k % 3 == 1:
                W[i, j] = -W[i, j]
                if not g["directed"] and i != j:
                    W[j, i] = W[i, j]
        lap = "combinatorial"
    n = g["n"]
    Wf = W.astype(float)
    note.nontrivial(bool(np.any(W)))
    if case["near"]:
        note.label("nearly " + case["near"])
    note.label(case["fmt"], case["dtype"], g["shape"], "directed" if g["directed"] else "undirected")
    G = graphs.Graph(containers(W, case["fmt"]), lap_type=lap)
    tol = 1e-5 if case["dtype"] == "float32" else 1e-12
    directed = bool(np.any(Wf != Wf.T))
    scale = np.abs(Wf).sum() + 1e-300

    def verify(what):
        if what == "A" and not case["neg"]:
            A = G.A
            need(A.dtype == bool, "A is not boolean: %s", A.dtype)
            need(np.array_equal(A.toarray(), Wf > 0), "A differs from W > 0")
        elif what == "d":
            cnt = (Wf != 0)
            close(G.d, (cnt.sum(0) + cnt.sum(1)) / 2, 1e-12, "d", ref=n)
        elif what == "dw":
            close(G.dw, (Wf.sum(0) + Wf.sum(1)) / 2, tol, "dw", ref=scale)
        elif what == "directed":
            need(bool(G.is_directed()) == directed, "is_directed() is %s", G.is_directed())
        elif what == "weighted":
            nz = Wf[Wf != 0]
            need(bool(G.is_weighted()) == bool(np.any(nz != 1)), "is_weighted() is %s", G.is_weighted())
        elif what == "loops":
            need(bool(G.has_loops()) == bool(np.any(np.diag(Wf) != 0)), "has_loops() is %s", G.has_loops())
        elif what == "connected":
            G.is_connected()
        elif what == "edges":
            s, t, w = G.get_edge_list()
            s, t, w = np.asarray(s), np.asarray(t), np.asarray(w)
            need(s.shape == t.shape == w.shape == (G.n_edges,), "edge list lengths %s %s %s, n_edges %s", s.shape, t.shape, w.shape, G.n_edges)
            prs = list(zip(s.tolist(), t.tolist()))
            need(len(set(prs)) == len(prs), "duplicate edges %s", prs)
            R = np.zeros((n, n))
            for i, j, x in zip(s, t, w.astype(float)):
                R[i, j] = x
                if not directed:
                    need(i <= j, "edge (%s, %s) of an undirected graph is not upper triangular", i, j)
                    R[j, i] = x
            need(np.array_equal(R, Wf), "edge list does not rebuild W:\n%s\n%s", R, Wf)

    need(G.n_vertices == n and G.N == n, "n_vertices %s", G.n_vertices)
    want = np.count_nonzero(Wf) if directed else np.count_nonzero(np.triu(Wf))
    need(G.n_edges == want and G.Ne == want, "n_edges %s, expected %s", G.n_edges, want)
    for what in case["order"]:
        verify(what)
    for what in case["order"]:
        verify(what)  # cached answers
    need(sparse.issparse(G.W) and G.W.format == "csr", "W is not CSR")
    need(np.array_equal(G.W.toarray().astype(float), Wf), "W differs:\n%s\n%s", G.W.toarray(), Wf)
    need(G.W.nnz == np.count_nonzero(Wf), "W stores %d values, %d non-zero", G.W.nnz, np.count_nonzero(Wf))
    need(G.lap_type == lap, "lap_type %s", G.lap_type)
    need(f"n_vertices={n}, n_edges={want}" in repr(G), "repr %s", repr(G))


# ---------------------------------------------------------------- attributes
@st.composite
def attr_cases(draw):
    g = draw(graph(min_n=1, max_n=6, loops=False))
    n = g["n"]
    k = draw(st.integers(1, 4))
    dim = draw(st.sampled_from([1, 2, 3]))
    sig = [draw(st.lists(st.integers(-99, 99), min_size=n * k, max_size=n * k))]
    return {"g": g, "coords": draw(st.lists(st.integers(-50, 50), min_size=n * dim, max_size=n * dim)),
            "dim": dim, "k": k, "sig": sig[0], "kind": draw(st.sampled_from(["1d", "2d", "list", "int"])),
            "bad": draw(st.integers(-2, 3)), "vs": draw(st.integers(1, 500))}


def check_attr(case, note):
    g = case["g"]
    n = g["n"]
    W = dense(g)
    coords = np.array(case["coords"], dtype=float).reshape(n, case["dim"])
    G = graphs.Graph(W, coords=coords.tolist() if case["kind"] == "list" else coords,
                     plotting={"vertex_size": case["vs"]})
    H = graphs.Graph(W)
    note.nontrivial(n > 1)
    need(np.array_equal(G.coords, coords), "coords changed")
    need(G.plotting["vertex_size"] == case["vs"], "plotting option lost")
    need(H.plotting["vertex_size"] == 100, "plotting option leaked into another graph")
    need(not hasattr(H, "coords") or np.ndim(H.coords) == 0, "a graph without coordinates has some")
    s = np.array(case["sig"]).reshape(n, case["k"])
    if case["kind"] == "1d":
        s = s[:, 0]
    arg = s.tolist() if case["kind"] == "list" else s
    G.set_signal(arg, "a b")
    need(list(G.signals) == ["a b"], "signals %s", list(G.signals))
    need(np.array_equal(G.signals["a b"], s) and isinstance(G.signals["a b"], np.ndarray), "signal changed")
    need(not H.signals, "signals shared between graphs")
    if case["bad"] != 0 and n + case["bad"] >= 1:
        raises(ValueError, lambda: G.set_signal(np.zeros(n + case["bad"]), "bad"), "signal of wrong length")
        need(list(G.signals) == ["a b"], "rejected signal was attached")

    def assign():
        G.W = W
    raises(AttributeError, assign, "assignment of W")
    need(np.array_equal(G.W.toarray(), W), "W changed by a rejected assignment")


# ---------------------------------------------------------------- rejection
@st.composite
def bad_cases(draw):
    kind = draw(st.sampled_from(["nan", "inf", "-inf", "rect", "1d", "3d", "infpair"]))
    g = draw(graph(min_n=1, max_n=6, loops=True))
    n = g["n"]
    return {"g": g, "kind": kind, "i": draw(st.integers(0, n - 1)), "j": draw(st.integers(0, n - 1)),
            "extra": draw(st.integers(1, 3)), "sparse": draw(st.sampled_from(["dense", "csr", "coo", "lil", "csc"])),
            "axis": draw(st.integers(0, 1))}


def check_bad(case, note):
    W = dense(case["g"])
    n = len(W)
    k = case["kind"]
    note.label(k)
    if k in ("nan", "inf", "-inf"):
        W[case["i"], case["j"]] = float(k)
    elif k == "infpair":
        W[case["i"], case["j"]] = np.inf
        W[case["j"], case["i"]] = np.inf
        W[0, 0] = -np.inf
    elif k == "rect":
        W = np.concatenate([W, np.ones((case["extra"], n)) if case["axis"] == 0 else np.ones((n, case["extra"]))], axis=case["axis"])
    elif k == "1d":
        W = W.ravel() if n > 1 else np.ones(3)
    elif k == "3d":
        W = np.stack([W, W])
    if k not in ("1d", "3d") and case["sparse"] != "dense":
        W = getattr(sparse, case["sparse"] + "_matrix")(W)
    raises(ValueError, lambda: graphs.Graph(W), f"adjacency with {k}")


PARTS = [
    Part("structure", cases(), check, quick=4500, large=300),
    Part("attributes", attr_cases(), check_attr, quick=1200, large=300),
    Part("rejection", bad_cases(), check_bad, quick=900),
]
