"""C30: total-variation proximal operator."""
import numpy as np
from hypothesis import strategies as st
from scipy import optimize

from pygsp import optimization

from ..gens import LAP, build, close, graph, lap_scale, dense, need, norm_of, null_spectrum, tensor
from ..runner import Part

RULE = ("Random undirected and directed graphs, either Laplacian, one or several signals, gamma over four decades, operator absent, diagonal or a permutation, matrix or gradient form, default or tight stopping criterion. With the tight criterion "
        "the result is certified optimal by an independent bounded least squares fit of a dual variable (duality gap), keeps the mean of each component (combinatorial), obeys the shrinkage limits (gamma to zero, gamma large) and non-expansiveness. "
        "Non-trivial: at least one edge, a signal which is not constant, gamma positive.")
ASSUMPTIONS = ["10000 iterations and a composed operator of condition number below 17, gap below 1e-4 of the energy of the signal"]


@st.composite
def cases(draw):
    g = draw(graph(min_n=1, max_n=8, loops=draw(st.integers(0, 3)) == 0, kinds=["ones", "int", "float"]))
    n = g["n"]
    cols = draw(st.sampled_from([None, None, None, 1, 2]))
    return {"g": g, "lap": draw(LAP), "x": draw(tensor((n, cols) if cols else (n,))), "y": draw(tensor((n, cols) if cols else (n,))), "gamma": draw(st.sampled_from([0.01, 0.1, 0.5, 1.0, 3.0, 20.0])),
            "A": draw(st.sampled_from([None, None, "diag", "perm", "scale"])), "a": draw(st.lists(st.integers(1, 20), min_size=n, max_size=n)), "perm": draw(st.permutations(list(range(n)))),
            "matrix": draw(st.booleans()), "default": draw(st.integers(0, 4)) == 0, "scale": draw(st.sampled_from([1.0, 1.0, 0.1, 10.0])),
            "unit": draw(st.sampled_from([1.0, 1.0, 1.0, 1e-16, 1e-8, 1e8, 1e16]))}


def check(c, note):
    g, gamma = c["g"], c["gamma"]
    g = dict(g, edges=[[i, j, w * c["scale"] * c["unit"]] for i, j, w in g["edges"]])
    if c["lap"] == "combinatorial":
        gamma /= np.sqrt(c["unit"])  # the same problem
    n = g["n"]
    G = build(g, lap_type=c["lap"])
    if null_spectrum(G, lap_scale(dense(g), c["lap"])) or G.lmax <= 0 < G.n_edges:
        return
    G.compute_differential_operator()
    D = G.D.toarray()
    x, y = np.array(c["x"]), np.array(c["y"])
    kw, M = {}, np.eye(n)
    if c["A"]:
        M = {"diag": np.diag(np.array(c["a"]) / 10), "perm": np.eye(n)[c["perm"]], "scale": 2.5 * np.eye(n)}[c["A"]]
        kw = {"A": lambda z: M @ z, "At": lambda z: M.T @ z, "nu": float(np.linalg.norm(M, 2) ** 2)}
    B = M.T @ D  # the dual variable u: x - z = B u, |u| <= gamma
    sv = np.linalg.svd(B, compute_uv=False)
    if not c["default"] and (B.size and (sv[sv > 1e-9 * sv.max()].min() / sv.max()) ** 2 < 1 / 300 or c["A"] and np.linalg.cond(M) > 6):
        return
    kx, W = x.copy(), G.W.toarray()
    form = {} if c["matrix"] and c["default"] else {"use_matrix": c["matrix"]}
    note.nontrivial(G.n_edges > 0 and np.ptp(x) > 0)
    note.label(f"unit {c['unit']:g}", "matrix" if c["matrix"] else "gradient", c["A"] or "identity", c["lap"], f"{x.ndim}-D")
    if c["default"]:
        z = optimization.prox_tv(x, gamma, G, **form, **kw)
        need(isinstance(z, np.ndarray) and z.shape == x.shape and bool(np.isfinite(z).all()), "result %s", z)
        need(np.array_equal(x, kx) and np.array_equal(G.W.toarray(), W), "signal or graph modified")
        return
    z = optimization.prox_tv(x, gamma, G, tol=1e-15, maxit=10000, **form, **kw)
    need(isinstance(z, np.ndarray) and z.shape == x.shape and bool(np.isfinite(z).all()), "result %s", z)
    need(np.array_equal(x, kx) and np.array_equal(G.W.toarray(), W), "signal or graph modified")
    X, Z = x.reshape(n, -1), z.reshape(n, -1)
    for k in range(X.shape[1]):
        if B.shape[1]:
            t = 1 / max(sv.max(), 1e-300)
            u = t * optimize.lsq_linear(B * t, X[:, k] - Z[:, k], (-gamma / t, gamma / t), tol=1e-14).x
        else:
            u = np.zeros(0)
        primal = 0.5 * np.sum((X[:, k] - Z[:, k]) ** 2) + gamma * np.abs(B.T @ Z[:, k]).sum()
        dual = 0.5 * np.sum(X[:, k] ** 2) - 0.5 * np.sum((X[:, k] - B @ u) ** 2)
        en = max(0.5 * np.sum(X[:, k] ** 2), 1e-300)
        need(primal - dual <= 1e-4 * en, "duality gap %.3g (energy %.3g): %s of %s", primal - dual, en, Z[:, k], X[:, k])
    if c["A"] is None and c["lap"] == "combinatorial":
        close(Z.sum(0), X.sum(0), 1e-8, "sum of the signal", ref=max(norm_of(X) * n, 1e-300))
    z2 = optimization.prox_tv(y, gamma, G, tol=1e-15, maxit=10000, **form, **kw)
    d = np.linalg.norm(z2 - z)
    need(d <= np.linalg.norm(y - x) + 1e-2 * (np.linalg.norm(x) + np.linalg.norm(y)) + 1e-12, "expansive: %.4g for %.4g", d, np.linalg.norm(y - x))


PARTS = [Part("prox_tv", cases(), check, 1500, large=12)]
