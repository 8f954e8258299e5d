"""C07: estimates of the largest eigenvalue bound the spectrum."""
import numpy as np
from hypothesis import strategies as st

from pygsp import graphs

from ..gens import LAP, build, close, dense, graph, need, raises, ref_laplacian, ref_sym
from ..runner import Part

RULE = ("Random graphs (directed, loops, isolated vertices, edgeless, weights of any magnitude), a Laplacian type "
        "and a sequence of estimation requests, eigendecompositions, Laplacian switches and invalid requests; targeted search for graphs "
        "of two weights whose largest eigenvalue approaches the algebraic bound. "
        "Non-trivial: at least one edge.")
ASSUMPTIONS = ["Lanczos estimate: within [1-1e-6, 1.01(1+1e-6)] of the true value for N <= 10 (Krylov space is complete), "
               "for larger graphs within 1% of an eigenvalue and at least 0.8 of the largest (the solver's tolerance is loose by design)"]


def truth(W, lap):
    return max(np.linalg.eigvalsh(ref_laplacian(W, lap))[-1], 0.0)


def verify(G, W, lap, method):
    lam = truth(W, lap)
    d = ref_sym(W).sum(0)
    n = len(W)
    tiny = 1e-9 * (1 if lap == "normalized" else np.abs(W).max() * n)
    got = G.lmax
    need(np.isscalar(got) or np.ndim(got) == 0, "lmax is not a scalar: %r", got)
    need(bool(np.isfinite(got)), "lmax %r", got)
    if method == "bounds":
        need(got >= lam * (1 - 1e-9) - tiny, "bound %r below the largest eigenvalue %r", got, lam)
        if lap == "normalized":
            need(got == 2, "normalized bound %r", got)
        else:
            need(got <= 2 * d.max() * (1 + 1e-9), "bound %r exceeds twice the largest degree %r", got, d.max())
            need(got <= n * W.max() * (1 + 1e-9), "bound %r exceeds N times the largest weight", got)
    elif method == "lanczos":
        low = (1 - 1e-6) if n <= 10 else 0.8
        need(got >= lam * low - tiny, "estimate %r below the largest eigenvalue %r", got, lam)
        ev = np.linalg.eigvalsh(ref_laplacian(W, lap))
        err = np.abs(got / 1.01 - ev).min()  # what the tolerance of the iterative solver guarantees
        need(err <= 0.01 * lam + tiny, "estimate %r / 1.01 is not close to an eigenvalue %s", got, ev)
        need(got <= 1.01 * lam * (1 + 1e-6) + tiny, "estimate %r more than 1%% above %r", got, lam)
    else:
        close(got, lam, 1e-9, "exact lmax", ref=1 if lap == "normalized" else max(lam, np.abs(W).max() * n, 1e-300))


@st.composite
def cases(draw):
    g = draw(graph(min_n=1, max_n=draw(st.sampled_from([3, 9, 9, 24])), loops=True))
    ops = st.sampled_from(["lanczos", "lanczos", "bounds", "bounds", "fourier", "read", "bad", "bad",
                           "switch-combinatorial", "switch-normalized"])
    dtype = draw(st.sampled_from([None, None, None, ["int64", 10**12], ["int64", 9], ["int32", 2**31 - 1], ["uint32", 2**32 - 1], ["uint8", 255]]))
    return {"g": g, "dtype": dtype, "lap": draw(LAP), "ops": draw(st.lists(ops, min_size=1, max_size=6)),
            "bad": draw(st.sampled_from(["", "foo", "Lanczos", "bound", "exact"]))}


def check(case, note):
    g = case["g"]
    W = dense(g)
    if case.get("dtype") and np.any(W):
        W = np.rint(W / W.max() * case["dtype"][1])
        G = graphs.Graph(W.astype(case["dtype"][0]), lap_type=case["lap"])
        note.label(case["dtype"][0])
    else:
        G = build(g, lap_type=case["lap"])
    lap = case["lap"]
    method = None  # what lmax currently is
    have_basis = False
    note.nontrivial(bool(np.any(W)))
    note.label(g["kind"], "directed" if np.any(W != W.T) else "undirected", "large" if g["n"] > 10 else "small")
    if (W.sum(0) + W.sum(1) == 0).any():
        note.label("isolated vertex")
    for op in case["ops"]:
        note.label(op)
        if op in ("lanczos", "bounds"):
            G.estimate_lmax(op)
            method = op
        elif op == "fourier":
            G.compute_fourier_basis()
            if not have_basis:
                method = "fourier"
            have_basis = True
        elif op == "read":
            method = method or "lanczos"  # the default
        elif op == "bad":
            raises(ValueError, lambda: G.estimate_lmax(case["bad"]), "unknown method")
            if method is None:
                continue
        else:
            new = op.split("-")[1]
            G.compute_laplacian(new)
            if new != lap:
                lap, method, have_basis = new, None, False
            continue
        verify(G, W, lap, method)


# ------------------------------------------- graphs on which the bound is tight
@st.composite
def tight_cases(draw):
    n = draw(st.integers(2, 7))
    return {"n": n, "low": draw(st.sampled_from([1e-5, 0.05, 0.1, 0.3, 1.0])), "directed": draw(st.booleans()),
            "levels": draw(st.lists(st.sampled_from([0, 0, 1, 2]), min_size=n * n, max_size=n * n)), "loops": draw(st.integers(0, 3)) == 0}


def check_tight(case, note):
    n = case["n"]
    W = np.array([0, case["low"], 1.0])[np.array(case["levels"])].reshape(n, n)
    if not case["directed"]:
        W = np.maximum(W, W.T)
    if not case["loops"]:
        np.fill_diagonal(W, 0)
    note.nontrivial(bool(np.any(W)))
    note.label("directed" if np.any(W != W.T) else "undirected", "loops" if np.any(np.diag(W)) else "no loops")
    G = graphs.Graph(W)
    G.estimate_lmax("bounds")
    verify(G, W, "combinatorial", "bounds")
    if G.lmax > 0:
        ratio = truth(W, "combinatorial") / G.lmax
        note.label("within 2% of the largest eigenvalue" if ratio > 0.98 else "loose")
        note.target(ratio)


PARTS = [
    Part("estimates", cases(), check, quick=3900, large=300),
    Part("tight", tight_cases(), check_tight, quick=6500, targeted=True),
]
