"""C18: matrix and point utilities."""
import math

import numpy as np
from hypothesis import strategies as st
from scipy import sparse

from pygsp import utils

from .. import gens
from ..gens import build, close, dense, graph, need, raises, ref_laplacian, tensor, toarray
from ..runner import Part

RULE = ("Random square matrices (boolean, signed/unsigned small and large integers, single and double floats, negative entries, symmetric or not, dense and every sparse format) against "
        "element-wise definitions of each symmetrization; random point sets (1 to 12 dimensions, integer or real, one or two sets, far from the origin) against direct distances; "
        "random connected graphs and Laplacians against the solution of the network equations for a unit current between each pair, series/parallel rules and Foster's theorem; "
        "random rows and ranges. Non-trivial: asymmetric matrix / several distinct points / graph with a cycle.")
ASSUMPTIONS = ["weights of resistance networks are non-negative and span at most 4 decades", "distances are judged up to the rounding of the squared norms",
               "rescale_center gets non-constant rows"]
FORMATS = ["dense", "dense", "csr", "csc", "coo", "lil", "dok", "csr_array"]
DTYPES = ["float", "float", "float32", "int", "int8", "uint8", "bool", "int32"]


@st.composite
def matrices(draw):
    n = draw(st.integers(8, 40) if gens.LARGE else st.integers(1, 7))
    dt = draw(st.sampled_from(DTYPES))
    lo, hi = {"bool": (0, 1), "uint8": (0, 255), "int8": (-128, 127)}.get(dt, (-300, 300))
    if draw(st.booleans()):
        lo = max(lo, 0)
    if gens.LARGE:
        r = draw(gens.rng())
        v = (r.integers(lo, hi + 1, n * n) * (r.random(n * n) < r.random())).tolist()
    else:
        v = draw(st.lists(st.one_of(st.just(0), st.integers(lo, hi)), min_size=n * n, max_size=n * n))
    return {"n": n, "dtype": dt, "v": v, "format": draw(st.sampled_from(FORMATS)),
            "method": draw(st.sampled_from(["average", "maximum", "fill", "tril", "triu"])), "sym": draw(st.integers(0, 3)) == 0}


def sym_ref(W, method):
    n = len(W)
    S = np.zeros((n, n))
    for i in range(n):
        for j in range(n):
            a, b = float(W[i, j]), float(W[j, i])
            if method == "average":
                S[i, j] = (a + b) / 2
            elif method == "maximum":
                S[i, j] = max(a, b)
            elif method == "fill":
                S[i, j] = b if a == 0 else a if b == 0 else (a + b) / 2
            elif method == "tril":
                S[i, j] = a if i >= j else b
            else:
                S[i, j] = a if i <= j else b
    return S


def to_format(M, fmt):
    if fmt == "dense":
        return M.copy()
    if fmt == "csr_array":
        return sparse.csr_array(M)
    return getattr(sparse, fmt + "_matrix")(M)


def sym_check(case, note):
    n, m = case["n"], case["method"]
    W = np.array(case["v"]).reshape(n, n)
    if case["sym"]:
        W = np.tril(W) + np.tril(W, -1).T
    W = (W / 4 if case["dtype"].startswith("float") else W).astype(case["dtype"])
    note.nontrivial(bool(np.any(W != W.T)))
    note.label(m, case["dtype"], case["format"])
    X = to_format(W, case["format"])
    Y = utils.symmetrize(X, method=m)
    need(np.array_equal(toarray(X), W), "the argument was modified")
    need(sparse.issparse(Y) == sparse.issparse(X), "sparsity of the result")
    Y = toarray(Y)
    S = sym_ref(W, m)
    need(Y.shape == (n, n) and np.array_equal(Y.astype(float), S), "%s of\n%s\ngives\n%s\nexpected\n%s", m, W, Y, S)
    need(np.array_equal(Y, Y.T), "not symmetric")
    raises(ValueError, lambda: utils.symmetrize(X, method="sum"), "unknown method")
    if n > 1:
        raises(ValueError, lambda: utils.symmetrize(to_format(W[:-1], case["format"])), "rectangular matrix")


@st.composite
def points(draw):
    s = 70 if gens.LARGE else 8
    d, m, k = draw(st.integers(1, s + 4)), draw(st.integers(1, s)), draw(st.integers(1, s))
    dt = draw(st.sampled_from(["float", "float", "int", "float32", "uint8", "int8"]))
    lo, hi = {"uint8": (0, 255), "int8": (-128, 127)}.get(dt, (-1000, 1000))
    return {"x": draw(tensor((d, m), lo, hi, 1)), "y": draw(st.one_of(st.none(), tensor((d, k), lo, hi, 1))), "dtype": dt,
            "vector": d == 1 and draw(st.booleans()), "shift": draw(st.sampled_from([0, 0, 100])) if dt == "float" else 0}


def dist_check(case, note):
    x = (np.array(case["x"]) + case["shift"]).astype(case["dtype"])
    y = None if case["y"] is None else (np.array(case["y"]) + case["shift"]).astype(case["dtype"])
    if case["vector"]:
        x, y = x[0], None if y is None else y[0]
    kx, ky = x.copy(), None if y is None else y.copy()
    d = utils.distanz(x, y)
    need(np.array_equal(x, kx) and (y is None or np.array_equal(y, ky)), "arguments modified")
    a = np.atleast_2d(x).astype(float)
    b = a if y is None else np.atleast_2d(y).astype(float)
    r2 = ((a[:, :, None] - b[:, None, :]) ** 2).sum(0)
    note.nontrivial(r2.size > 1 and bool(np.any(r2 > 0)))
    note.label(case["dtype"])
    need(d.shape == r2.shape, "shape %s", d.shape)
    eps = 1e-5 if case["dtype"] == "float32" else 1e-13
    close(d ** 2, r2, eps, "squared distances", ref=max((a ** 2).sum(0).max(), (b ** 2).sum(0).max(), 1e-300))
    if b.shape[0] > 1:
        raises(ValueError, lambda: utils.distanz(a, b[1:]), "different dimensions")


@st.composite
def networks(draw):
    g = draw(graph(min_n=1, max_n=8, directed=False, connected=True, kinds=["ones", "int", "float", "scaled"], loops=True))
    return {"g": g, "how": draw(st.sampled_from(["graph", "laplacian", "csc", "coo"])), "other": draw(st.booleans())}


def res_check(case, note):
    g = case["g"]
    W = dense(g)
    n = g["n"]
    np.fill_diagonal(W, 0)
    L = ref_laplacian(W, "combinatorial")
    G = build(g)
    if case["how"] == "graph":
        arg = G
        if case["other"]:
            G.compute_laplacian("normalized")
            raises(ValueError, lambda: utils.resistance_distance(G), "normalized Laplacian")
            G.compute_laplacian("combinatorial")
    else:
        arg = {"laplacian": G.L, "csc": G.L.tocsc(), "coo": G.L.tocoo()}[case["how"]]
    R = utils.resistance_distance(arg)
    need(np.array_equal(G.W.toarray(), dense(g)), "graph modified")
    need(sparse.issparse(R), "sparse result")
    R = R.toarray()
    m = np.count_nonzero(W) // 2
    note.nontrivial(m >= n and n > 2)
    note.label(case["how"], g["kind"])
    ref = np.zeros((n, n))
    for i in range(n):
        for j in range(n):
            if i != j:  # ground j, inject a unit current at i: the potential of i is the resistance
                keep = [k for k in range(n) if k != j]
                v = np.linalg.solve(L[np.ix_(keep, keep)], np.eye(n)[keep, i])
                ref[i, j] = v[keep.index(i)]
    s = max(np.abs(ref).max(), 1e-300)
    close(R, ref, 1e-8, "effective resistances", ref=s)
    close(R, R.T, 1e-9, "symmetry", ref=s)
    if n > 1:
        need(abs((W * R).sum() / 2 - (n - 1)) <= 1e-7 * n, "Foster's theorem")
    for i in range(n):
        for j in range(n):
            if W[i, j]:
                need(R[i, j] <= 1 / W[i, j] * (1 + 1e-8), "resistance above that of the edge %s", (i, j))


@st.composite
def rows(draw):
    r, c = draw(st.integers(1, 4 if not gens.LARGE else 70)), draw(st.integers(2, 8 if not gens.LARGE else 70))
    x = draw(tensor((r, c), -50, 50, draw(st.sampled_from([1, 10]))))
    if all(len(set(row)) == 1 for row in x):
        x[0][0] += 1
    lmin = draw(st.integers(1, 1000)) / 100
    return {"x": x, "int": draw(st.booleans()), "lmin": lmin, "lmax": lmin * draw(st.integers(100, 10000)) / 100, "n": draw(st.integers(1, 9 if not gens.LARGE else 90)),
            "t": draw(st.one_of(st.none(), st.tuples(st.integers(1, 40), st.integers(1, 40)))), "i": draw(st.integers(0, 3))}


def row_check(case, note):
    x = np.array(case["x"])
    if case["int"]:
        x = np.round(x * 10).astype(int)
    keep = x.copy()
    y = utils.rescale_center(x)
    need(np.array_equal(x, keep), "argument modified")
    c = x - x.mean(1)[:, None]
    close(y, c / c.max(), 1e-12, "rescaled rows")
    close(y.mean(1), np.zeros(len(y)), 1e-12, "means", ref=np.abs(y).max())
    need(abs(y.max() - 1) < 1e-15, "largest value %r", y.max())
    note.nontrivial(case["n"] > 2 and len(x) > 1)
    n, lmin, lmax = case["n"], case["lmin"], case["lmax"]
    t1, t2 = (1, 2) if case["t"] is None else [v / 10 for v in case["t"]]
    s = utils.compute_log_scales(lmin, lmax, n) if case["t"] is None else utils.compute_log_scales(lmin, lmax, n, t1, t2)
    need(s.shape == (n,), "number of scales")
    need(math.isclose(s[0], t2 / lmin, rel_tol=1e-12), "largest scale %r", s[0])
    if n > 1:
        need(math.isclose(s[-1], t1 / lmax, rel_tol=1e-12), "smallest scale %r", s[-1])
        ratio = (s[-1] / s[0]) ** (1 / (n - 1))
        close(s[1:] / s[:-1], np.full(n - 1, ratio), 1e-11, "ratios of scales")


PARTS = [
    Part("symmetrize", matrices(), sym_check, quick=6000, large=70),
    Part("distances", points(), dist_check, quick=2400, large=70),
    Part("resistance", networks(), res_check, quick=2400, large=30),
    Part("rows", rows(), row_check, quick=2000, large=70),
]
