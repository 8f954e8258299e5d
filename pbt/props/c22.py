"""C22: semi-supervised learning."""
import numpy as np
from hypothesis import strategies as st

from pygsp import learning

from ..gens import LAP, build, close, dense, graph, int_vector, need, raises, ref_laplacian, subset, tensor, upto
from ..runner import Part

RULE = ("Random connected graphs, either Laplacian, masks from one to all vertices known, measurements of one or several columns of integer, boolean, single or double type, with NaN, infinities or "
        "arbitrary values where unknown, tau zero or positive; the solution is compared with a dense solve of the normal equations (residual below the iterative solver's tolerance) or of the "
        "harmonic system, with the maximum principle and with perturbed solutions; simplex-constrained solutions are feasible and within FISTA's bound of an independent "
        "long run, for any labels. Non-trivial: some vertices known, some not, tau at least once positive.")
ASSUMPTIONS = ["connected graph, at least one known value", "the conjugate gradient of scipy stops at a relative residual of 1e-5",
               "condition number below 1e6"]
KINDS = ["ones", "int", "float", "scaled"]


@st.composite
def cases(draw):
    g = draw(graph(min_n=1, max_n=9, directed=False, connected=True, kinds=["ones", "int", "float", "scaled"], loops=True))
    n = g["n"]
    known = draw(subset(n, 1))
    cols = draw(st.one_of(st.sampled_from([None, None, 1, 2, 3]), upto(1, 3, 20)))
    return {"g": g, "lap": draw(LAP), "known": known, "y": draw(tensor((n, cols) if cols else (n,))), "type": draw(st.sampled_from(["float", "float", "int", "bool", "float32"])),
            "junk": draw(st.sampled_from(["nan", "inf", "big", "zero", "keep"])), "tau": draw(st.sampled_from([0, 0, 0.0, 0.01, 0.1, 1, 3.5, 10.0])),
            "order": draw(st.permutations(list(range(n)))), "scale": draw(st.sampled_from([1.0, 1.0, 1e-3, 1e3])), "values": draw(st.sampled_from(["any", "any", "any", "balanced", "constant", "zeros"]))}


def measurements(c, n):
    y = np.array(c["y"])
    M = np.zeros(n, dtype=bool)
    M[c["known"]] = True
    if c["values"] == "balanced":  # known values which sum to zero
        y[M] = np.reshape(np.resize([1.0, -1.0], M.sum()) if M.sum() > 1 else [0.0], (-1,) + (1,) * (y.ndim - 1))
        y[np.flatnonzero(M)[-1]] -= y[M].sum(0)
    elif c["values"] != "any":
        y[M] = 2.5 * (c["values"] == "constant")
    y = {"float": lambda: y, "float32": lambda: y.astype(np.float32), "int": lambda: (10 * y).astype(int), "bool": lambda: y > 0}[c["type"]]()
    clean = np.where(M if y.ndim == 1 else M[:, None], y, 0).astype(float)
    if y.dtype.kind == "f" and c["junk"] in ("nan", "inf"):
        y[~M] = np.nan if c["junk"] == "nan" else np.inf
    elif c["junk"] == "big" and y.dtype.kind != "b":
        y[~M] = 12345
    elif c["junk"] == "zero":
        y[~M] = 0
    return y, M, clean


def check(c, note):
    g, n, tau = c["g"], c["g"]["n"], c["tau"]
    g = dict(g, edges=[[i, j, w * c["scale"]] for i, j, w in g["edges"]])
    W = dense(g)
    L = ref_laplacian(W, c["lap"])
    if c["lap"] == "normalized" and n == 1 and g["edges"]:
        return  # a lone vertex with a loop
    G = build(g, lap_type=c["lap"])
    y, M, clean = measurements(c, n)
    ky, kM = y.copy(), M.copy()
    x = learning.regression_tikhonov(G, y, M, tau=tau) if tau else learning.regression_tikhonov(G, y, M)
    need(np.array_equal(y, ky, equal_nan=y.dtype.kind == "f") and np.array_equal(M, kM), "measurements or mask modified")
    need(np.array_equal(G.W.toarray(), W), "graph modified")
    note.nontrivial(0 < M.sum() < n)
    note.label("tau" if tau else "harmonic", c["type"], c["junk"])
    need(isinstance(x, np.ndarray) and x.shape == y.shape and x.dtype.kind == "f", "shape %s, type %s", x.shape, x.dtype)
    need(bool(np.all(np.isfinite(x))), "not finite: %s (unknown values used?)", x)
    b, X = clean.reshape(n, -1), x.reshape(n, -1).astype(float)
    # float32 measurements carry rounding of their own
    if tau > 0:
        A = np.diag(M.astype(float)) + tau * L
        if np.linalg.cond(A) < 1e6:
            res = A @ X - b
            for k in range(b.shape[1]):
                need(np.linalg.norm(res[:, k]) <= 1.1e-5 * np.linalg.norm(b[:, k]) + 1e-300, "residual %.3g of %.3g: x = %s", np.linalg.norm(res[:, k]), np.linalg.norm(b[:, k]), X[:, k])
    else:
        need(np.array_equal(X[M], b[M]), "known values changed: %s instead of %s", X[M], b[M])
        u = ~M
        if u.any():
            Luu, Lul = L[np.ix_(u, u)], L[np.ix_(u, M)]
            if np.linalg.cond(Luu) < 1e6:
                close(X[u], np.linalg.solve(Luu, -Lul @ b[M]), 1e-8, "harmonic extension", ref=max(np.abs(b).max(), 1e-300))
                if c["lap"] == "combinatorial":
                    s = 1e-8 * max(1e-300, np.abs(b).max())
                    need(np.all(X <= b[M].max(0) + s) and np.all(X >= b[M].min(0) - s), "harmonic function out of the range of its known values")
                e = lambda z: float((z * (L @ z)).sum())
                z = X.copy()
                z[u] += 0.3
                need(e(z) >= e(X) - 1e-9 * (1 + abs(e(X))), "a smoother extension exists")
    # columns are independent
    if y.ndim == 2 and y.shape[1] > 1:
        one = learning.regression_tikhonov(G, np.ascontiguousarray(y[:, 1]), M, tau=tau)
        close(one, x[:, 1], 3e-5 if tau else 1e-9, "second column alone", ref=max(np.abs(b).max(), np.abs(X).max(), 1e-300) * (1e5 if tau and np.linalg.cond(A) > 30 else 3))
    if tau == 0:
        raises(ValueError, lambda: learning.regression_tikhonov(G, y, np.ones(n + 1, dtype=bool), tau=0), "mask of the wrong size")


@st.composite
def labels(draw):
    g = draw(graph(min_n=2, max_n=8, directed=False, connected=True, kinds=["ones", "int", "float", "scaled"]))
    n = g["n"]
    known = draw(subset(n, 1))
    return {"g": g, "lap": draw(LAP), "known": known, "y": draw(int_vector(n, 0, draw(upto(0, 4, 12)))), "type": draw(st.sampled_from(["float", "int", "int8"])),
            "junk": draw(st.sampled_from(["nan", "big", "keep"])), "tau": draw(st.sampled_from([0, 0.05, 0.5, 2.0])), "stau": draw(st.sampled_from([0.05, 0.1, 1.0, 3.0])),
            "maxit": draw(st.sampled_from([20, 100]))}


def project(v):
    """Projection of a vector on the probability simplex."""
    s = np.sort(v)[::-1]
    c = (np.cumsum(s) - 1) / np.arange(1, len(v) + 1)
    k = np.nonzero(s > c)[0][-1]
    return np.maximum(v - c[k], 0)


def label_check(c, note):
    g, n = c["g"], c["g"]["n"]
    L = ref_laplacian(dense(g), c["lap"])
    G = build(g, lap_type=c["lap"])
    M = np.zeros(n, dtype=bool)
    M[c["known"]] = True
    lab = np.array(c["y"])
    y = lab.astype({"float": float, "int": int, "int8": np.int8}[c["type"]])
    if c["junk"] == "nan" and c["type"] == "float":
        y[~M] = np.nan
    elif c["junk"] == "big":
        y[~M] = 100
    ky, kM = y.copy(), M.copy()
    C = lab[M].max() + 1
    Y = np.zeros((n, C))
    Y[M, lab[M]] = 1
    note.nontrivial(0 < M.sum() < n and C > 1)
    tau = c["tau"]
    X = learning.classification_tikhonov(G, y, M, tau=tau)
    need(X.shape == (n, C), "shape %s for %d classes", X.shape, C)
    if tau:
        A = np.diag(M.astype(float)) + tau * L
        if np.linalg.cond(A) < 1e6:
            need(np.all(np.linalg.norm(A @ X - Y, axis=0) <= 1.1e-5 * np.linalg.norm(Y, axis=0) + 1e-300), "residual")
    else:
        need(np.array_equal(X[M], Y[M]), "known labels changed")
        u = ~M
        Luu = L[np.ix_(u, u)]
        if u.any() and np.linalg.cond(Luu) < 1e6:
            close(X[u], np.linalg.solve(Luu, -L[np.ix_(u, M)] @ Y[M]), 1e-8, "harmonic logits", ref=1.0)
            if c["lap"] == "combinatorial":
                close(X.sum(1), np.ones(n), 1e-8, "sum of the logits")
    # the simplex version
    tau, k = c["stau"], c["maxit"]
    S = learning.classification_tikhonov_simplex(G, y, M, tau=tau, verbosity="NONE", rtol=None, maxit=k)
    need(np.array_equal(y, ky, equal_nan=y.dtype.kind == "f") and np.array_equal(M, kM), "measurements or mask modified")
    need(S.shape == (n, C) and bool(np.all(np.isfinite(S))), "shape %s", S.shape)
    need(np.all(S >= -1e-12) and np.allclose(S.sum(1), 1, rtol=0, atol=1e-9), "not in the simplex: %s", S)

    def f(Z):
        return float(((M[:, None] * Z - Y) ** 2).sum() + tau * (Z * (L @ Z)).sum())
    lip = 2 * (1 + tau * np.linalg.eigvalsh(L)[-1])
    Z, V, t = Y.copy(), Y.copy(), 1.0
    for _ in range(1500):
        P = np.apply_along_axis(project, 1, V - (2 * (M[:, None] * (M[:, None] * V - Y)) + 2 * tau * L @ V) / lip)
        t2 = (1 + np.sqrt(1 + 4 * t * t)) / 2
        V = P + (t - 1) / t2 * (P - Z)
        Z, t = P, t2
        if _ % 100 == 99 and np.abs(P - np.apply_along_axis(project, 1, P - (2 * (M[:, None] * (M[:, None] * P - Y)) + 2 * tau * L @ P) / lip)).max() < 1e-10:
            break
    bound = 2 * 1.1 * lip * ((Y - Z) ** 2).sum() / (k + 1) ** 2
    need(f(S) <= f(Z) + bound + 1e-9, "objective %.9g, minimum %.9g, bound %.3g", f(S), f(Z), bound)
    raises(ValueError, lambda: learning.classification_tikhonov_simplex(G, y, M, tau=0, verbosity="NONE"), "tau = 0")
    raises(ValueError, lambda: learning.classification_tikhonov_simplex(G, y, M, tau=-1, verbosity="NONE"), "tau < 0")


PARTS = [
    Part("regression", cases(), check, quick=1500, large=60),
    Part("classification", labels(), label_check, quick=250, large=40),
]
