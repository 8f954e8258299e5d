"""C03: the Laplacian obeys its definition."""
import numpy as np
from hypothesis import strategies as st

from pygsp import graphs

from ..gens import extreme, close, dense, graph, need, raises, ref_components, ref_laplacian, ref_sym
from ..runner import Part
from .c01 import DTYPES, containers

RULE = ("Random weight matrices of 7 dtypes and 6 containers, directed or not, loops, isolated "
        "vertices, and a random sequence of Laplacian types. Non-trivial: at least one off-diagonal edge.")
ASSUMPTIONS = ["Laplacian compared with the float64 reference, relative tolerance 1e-9 (float32: 1e-4)",
               "rank counted by a 1e-7 relative gap on generated weights of comparable size"]


@st.composite
def cases(draw, dtypes=DTYPES):
    g = draw(extreme(graph(min_n=1, max_n=8, loops=True)))
    dt = draw(st.sampled_from(dtypes))
    if dt == "bool":
        g["edges"] = [[i, j, 1] for i, j, _ in g["edges"]]
    elif dt not in ("float64", "float32"):
        hi = {"int8": 127, "uint8": 255}.get(dt, 10000)
        ws = draw(st.lists(st.integers(1, hi), min_size=len(g["edges"]), max_size=len(g["edges"])))
        g["edges"] = [[i, j, w] for (i, j, _), w in zip(g["edges"], ws)]
    return {"g": g, "dtype": dt, "fmt": draw(st.sampled_from(["dense", "csr", "coo", "csc", "lil", "list"])),
            "laps": draw(st.lists(st.sampled_from(["combinatorial", "normalized"]), min_size=1, max_size=3))}


def check(case, note):
    g = case["g"]
    W = dense(g, np.dtype(case["dtype"]))
    n = g["n"]
    off = W.astype(float) * (1 - np.eye(n))
    note.nontrivial(bool(np.any(off)))
    directed = bool(np.any(W != W.T))
    note.label(case["dtype"], "directed" if directed else "undirected", "loops" if np.diag(W).any() else "no loops")
    if (off.sum(0) + off.sum(1) == 0).any():
        note.label("isolated vertex")
    tol = 1e-4 if case["dtype"] == "float32" else 1e-9
    G = graphs.Graph(containers(W, case["fmt"]), lap_type=case["laps"][0])
    x = np.ones(n)
    for k, lap in enumerate(case["laps"]):
        if k:
            G.compute_laplacian(lap)
        need(G.lap_type == lap, "lap_type %s", G.lap_type)
        ref = ref_laplacian(W, lap)
        scale = max(np.abs(ref).max(), np.abs(W).max(), lap == "normalized") + 1e-300
        close(G.L, ref, tol, f"{lap} L", ref=scale)
        L = G.L.toarray().astype(float)
        o = ~np.eye(n, dtype=bool)
        need(bool(np.all(np.abs(L - ref)[o] <= tol * np.abs(ref)[o])), "small entries of the %s Laplacian:\n%s\n%s", lap, L, ref)
        close(L, L.T, tol, "symmetry of L", ref=scale)
        if lap == "combinatorial":
            need(np.abs(L @ x).max() <= tol * scale * n, "L does not annihilate constants: %s", L @ x)
            # loops cannot be seen
            Woff = W.copy()
            np.fill_diagonal(Woff, 0)
            close(L, ref_laplacian(Woff, lap), tol, "L sees the loops", ref=scale)
        ev = np.linalg.eigvalsh((L + L.T) / 2)
        need(ev[0] >= -10 * tol * scale * n, "negative eigenvalue %s", ev)
        if lap == "normalized":
            need(ev[-1] <= 2 + 10 * tol * n, "normalized spectrum beyond 2: %s", ev)
        if not np.diag(W).any() and case["dtype"] != "float32" and g["kind"] not in ("wide", "extreme") and case["dtype"].startswith("float"):
            null = int(np.sum(ev <= 1e-7 * max(ev[-1], 1e-300)))
            want = len(ref_components(W)) if ev[-1] > 0 else n
            need(null == want, "%s null eigenvalues, %s components: %s", null, want, ev)
    need(np.array_equal(G.W.toarray().astype(float), W.astype(float)), "W changed")


@st.composite
def bad(draw):
    return {"g": draw(graph(min_n=1, max_n=5)), "name": draw(st.sampled_from(["", "Combinatorial", "random-walk", "norm", "unnormalized"])),
            "lap": draw(st.sampled_from(["combinatorial", "normalized"])), "late": draw(st.booleans())}


def check_bad(case, note):
    W = dense(case["g"])
    if not case["late"]:
        raises(ValueError, lambda: graphs.Graph(W, lap_type=case["name"]), "unknown Laplacian type")
        return
    G = graphs.Graph(W, lap_type=case["lap"])
    raises(ValueError, lambda: G.compute_laplacian(case["name"]), "unknown Laplacian type")
    raises(ValueError, lambda: G.compute_laplacian(case["name"]), "unknown Laplacian type (again)")


PARTS = [
    Part("definition", cases(), check, quick=6000, large=300),
    Part("float", cases(dtypes=["float64"]), check, quick=3000, large=300),
    Part("unknown", bad(), check_bad, quick=400),
]
