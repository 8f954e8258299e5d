"""C04: the Laplacian is the divergence of the gradient."""
import numpy as np
from hypothesis import strategies as st

from pygsp import graphs

from ..gens import LAP, close, dense, extreme, graph, lap_scale, need, raises, ref_laplacian, ref_sym, tensor, upto
from ..runner import Part
from .c01 import DTYPES, containers

RULE = ("Random graphs (directed or not, loops, isolated vertices, 7 dtypes), Laplacian type, a vertex signal and an "
        "edge signal (1-D or several columns). Non-trivial: at least one off-diagonal edge and a non-constant signal.")
ASSUMPTIONS = ["non-negative weights", "relative tolerance 1e-9 (float32: 1e-4)"]


@st.composite
def cases(draw):
    g = draw(extreme(graph(min_n=1, max_n=8, loops=True)))
    dt = draw(st.sampled_from(["float64"] * 4 + DTYPES))
    if dt == "bool":
        g["edges"] = [[i, j, 1] for i, j, _ in g["edges"]]
    elif dt not in ("float64", "float32"):
        hi = {"int8": 127, "uint8": 255}.get(dt, 1000)
        ws = draw(st.lists(st.integers(1, hi), min_size=len(g["edges"]), max_size=len(g["edges"])))
        g["edges"] = [[i, j, w] for (i, j, _), w in zip(g["edges"], ws)]
    n = g["n"]
    cols = draw(upto(0, 3, 40))
    return {"g": g, "dtype": dt, "lap": draw(LAP), "switch": draw(st.booleans()),
            "x": draw(tensor([n] + ([cols] if cols else []))), "yseed": draw(st.lists(st.integers(-20, 20), min_size=5, max_size=12)),
            "cols": cols, "int": draw(st.booleans()), "list": draw(st.booleans()), "explicit": draw(st.booleans())}


def check(case, note):
    g = case["g"]
    n = g["n"]
    W = dense(g, np.dtype(case["dtype"]))
    Wf = W.astype(float)
    lap = case["lap"]
    other = {"combinatorial": "normalized", "normalized": "combinatorial"}[lap]
    G = graphs.Graph(containers(W, "csr"), lap_type=other if case["switch"] else lap)
    if case["switch"]:
        G.D
        G.compute_laplacian(lap)
    if case["explicit"]:
        G.compute_differential_operator()
    tol = 1e-4 if case["dtype"] == "float32" else 1e-9
    scale = lap_scale(Wf, lap)
    directed = bool(np.any(Wf != Wf.T))
    off = Wf - np.diag(np.diag(Wf))
    note.label(lap, "directed" if directed else "undirected", case["dtype"], "loops" if np.diag(Wf).any() else "no loops",
               "%d columns" % case["cols"])
    D = G.D
    ne = G.n_edges
    need(D.shape == (n, ne), "shape of D: %s", D.shape)
    Dd = D.toarray().astype(float)
    src, dst, w = (np.asarray(a) for a in G.get_edge_list())
    w = w.astype(float)
    d = ref_sym(Wf).sum(0)
    L = ref_laplacian(Wf, lap)
    close(Dd @ Dd.T, L, tol, "D D^T", ref=scale)
    # columns: an incidence matrix
    half = 0.5 if directed else 1.0
    E = np.zeros((n, ne))
    for k in range(ne):
        i, j = src[k], dst[k]
        ni, nj = (1, 1) if lap == "combinatorial" else (d[i], d[j])
        E[i, k] -= np.sqrt(w[k] * half / ni)
        E[j, k] += np.sqrt(w[k] * half / nj)
    close(Dd, E, tol, "D", ref=np.sqrt(scale))
    off_loops = np.repeat((src != dst)[None], n, 0)
    need(bool(np.all(np.abs(Dd - E)[off_loops] <= 10 * tol * np.abs(E)[off_loops])), "small entries of D:\n%s\n%s", Dd, E)

    x = np.array(case["x"], dtype=float)
    if case["int"]:
        x = np.round(x).astype(int)
    note.nontrivial(bool(off.any()) and bool(np.any(x != x[0])))
    xs = np.abs(x).max() + 1e-300
    arg = x.tolist() if case["list"] else x
    keep = x.copy()
    y = G.grad(arg)
    need(np.array_equal(keep, x), "grad changed its input")
    need(y.shape == (ne,) + x.shape[1:], "shape of the gradient: %s", y.shape)
    norm = np.ones(n) if lap == "combinatorial" else np.divide(1, np.sqrt(d), where=d > 0, out=np.zeros(n))
    xn = (norm * x.T).T
    want = (np.sqrt(w * half) * (xn[dst] - xn[src]).T).T
    close(y, want, tol, "gradient", ref=np.sqrt(scale) * xs)
    z = G.div(y)
    need(z.shape == x.shape, "shape of the divergence: %s", z.shape)
    close(z, L @ x, tol * 10, "div(grad(x)) = L x", ref=scale * xs)
    # adjoint, on an arbitrary edge signal
    base = np.array(case["yseed"], dtype=float)
    v = np.resize(base, (ne,) + x.shape[1:]) if ne else np.zeros((0,) + x.shape[1:])
    dv = G.div(v.tolist() if case["list"] and ne else v)
    need(dv.shape == x.shape, "shape of a divergence: %s", dv.shape)
    close(np.sum(x * dv), np.sum(y * v), tol * 10, "<x, div v> = <grad x, v>", ref=np.sqrt(scale) * xs * max(np.abs(v).max(initial=0), 1) * n * (ne + 1))
    close(dv, E @ v, tol, "divergence", ref=np.sqrt(scale) * 20 * n)
    # energy
    en = G.dirichlet_energy(arg)
    X = x.reshape(n, -1)
    absL = np.abs(L) + np.diag(d if lap == "combinatorial" else np.ones(n))  # Self-loops cancel in the diagonal.
    if x.ndim == 1:
        need(np.ndim(en) == 0, "energy is not a scalar: %s", en)
        close(en, x @ L @ x, tol / 1e2, "x^T L x, relatively", ref=np.abs(x) @ absL @ np.abs(x))
        close(en, x @ L @ x, tol * 10, "x^T L x", ref=scale * xs * xs * n)
        close(en, np.sum(y ** 2), tol * 10, "energy = |grad x|^2", ref=scale * xs * xs * n)
        if lap == "combinatorial":
            s = ref_sym(Wf)
            close(en, 0.5 * np.sum(s * (x[:, None] - x[None, :]) ** 2), tol * 10, "energy of the differences", ref=scale * xs * xs * n)
    else:
        close(en, X.T @ L @ X, tol * 10, "x^T L x", ref=scale * xs * xs * n)
        bound = np.abs(X.T) @ absL @ np.abs(X)
        bad = np.abs(en - X.T @ L @ X) > tol / 1e2 * bound + 1e-300
        need(not bad.any(), "x^T L x: relative errors %s", (np.abs(en - X.T @ L @ X)[bad] / bound[bad])[:5])


@st.composite
def bad(draw):
    return {"g": draw(graph(min_n=1, max_n=6)), "lap": draw(LAP), "dn": draw(st.integers(-3, 3).filter(bool)), "what": draw(st.sampled_from(["grad", "div", "dirichlet_energy"]))}


def check_bad(case, note):
    G = graphs.Graph(dense(case["g"]), lap_type=case["lap"])
    m = (G.n_edges if case["what"] == "div" else G.n_vertices) + case["dn"]
    if m < 0:
        m = 100
    raises(ValueError, lambda: getattr(G, case["what"])(np.ones(m)), f"{case['what']} of a signal of wrong length")


PARTS = [
    Part("differential", cases(), check, quick=8000, large=300),
    Part("shape", bad(), check_bad, quick=600),
]
