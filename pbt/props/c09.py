"""C09: exact filtering is U g(Lambda) U^T; layout; Chebyshev layout."""
import numpy as np
from hypothesis import strategies as st

from pygsp import filters

from ..gens import LAP, build, close, dense, graph, int_vector, kernel, kernel_fn, matfun, need, norm_of, null_spectrum, raises, ref_laplacian, spectral_scale, upto
from ..runner import Part

RULE = ("A random graph, Laplacian type and bank of 1-5 random smooth kernels; a signal tensor of shape (N,), (N,1), (N,Ns), "
        "(N,Nf), (N,Ns,1) or (N,Ns,Nf). The oracle is g(L) from an independent dense eigendecomposition, applied signal by "
        "signal with explicit loops. Chebyshev is used with polynomial kernels, for which it is exact. Non-trivial: an edge.")
ASSUMPTIONS = ["kernels Lipschitz on the spectrum", "relative tolerance 1e-8"]
SHAPES = ["1d", "N1", "NS", "NF", "NS1", "N11", "NSF", "N1F"]


@st.composite
def cases(draw, method=None):
    g = draw(graph(min_n=1, max_n=8, loops=True))
    n = g["n"]
    method = method or draw(st.sampled_from(["exact", "exact", "chebyshev"]))
    nf = draw(st.one_of(upto(1, 4, 12), st.just(n) if n <= 6 else st.integers(2, 3)))
    bank = [draw(kernel(["poly"] if method == "chebyshev" else None)) for _ in range(nf)]
    ns = draw(upto(1, 4, 24))
    kind = draw(st.sampled_from(SHAPES))
    shape = {"1d": (n,), "N1": (n, 1), "NS": (n, ns), "NF": (n, nf), "NS1": (n, ns, 1), "N11": (n, 1, 1),
             "NSF": (n, ns, nf), "N1F": (n, 1, nf)}[kind]
    m = int(np.prod(shape))
    x = draw(int_vector(m, -30, 30))
    return {"g": g, "lap": draw(LAP), "bank": bank, "method": method, "shape": list(shape), "x": x,
            "order": draw(st.one_of(upto(4, 12, 80), st.just(30))), "int": draw(st.booleans()), "single": draw(st.booleans()),
            "lmax": draw(st.sampled_from(["fourier", "partial", "lanczos", "bounds", None]))}


def make(case):
    g = case["g"]
    L = ref_laplacian(dense(g), case["lap"])
    s = spectral_scale(L, dense(g), case["lap"])
    fns = [kernel_fn(k, s) for k in case["bank"]]
    G = build(g, lap_type=case["lap"])
    if case["lmax"] == "fourier":
        G.compute_fourier_basis()
    elif case["lmax"] == "partial":
        G.compute_fourier_basis(min(G.N, 2))
    elif case["lmax"]:
        G.estimate_lmax(case["lmax"])
    kernels = fns[0] if len(fns) == 1 and case["single"] else fns
    return G, filters.Filter(G, kernels), matfun(L, fns), fns


def as3d(x, nf):
    """The documented reading of a signal array: (N, Ns, Nfeatures)."""
    if x.ndim == 1:
        return x[:, None, None]
    if x.ndim == 2:
        return x[:, None, :] if x.shape[1] in (1, nf) else x[:, :, None]
    return x


def reference(ops, x):
    nf, (n, ns, fin) = len(ops), x.shape
    if fin == 1:
        out = np.zeros((n, ns, nf))
        for f in range(nf):
            for k in range(ns):
                out[:, k, f] = ops[f] @ x[:, k, 0]
    else:
        out = np.zeros((n, ns, 1))
        for k in range(ns):
            for f in range(nf):
                out[:, k, 0] += ops[f] @ x[:, k, f]
    return out


def check(case, note):
    G, filt, ops, fns = make(case)
    nf = len(ops)
    kw = {"method": case["method"], "order": case["order"]}
    x = np.array(case["x"], dtype=int if case["int"] else float).reshape(case["shape"])
    if not case["int"]:
        x = x / 7
    keep = x.copy()
    if case["method"] == "chebyshev" and null_spectrum(G, 1 if case["lap"] == "normalized" else norm_of(dense(case["g"]))):
        return note.label("skipped: null spectrum")
    note.nontrivial(bool(case["g"]["edges"]))
    note.label(case["method"], "analysis" if as3d(x, nf).shape[2] == 1 else "synthesis", f"{x.ndim}d")
    want = reference(ops, as3d(x, nf))
    got = filt.filter(x, **kw)
    top = 2 if case["lap"] == "normalized" else 2 * norm_of(dense(case["g"])) * len(x)
    sup = [norm_of(f(np.linspace(0, top, 50))) for f in fns]
    sc = 30 * len(x) * (sum(norm_of(o) for o in ops) + sum(sup)) + 1e-300
    close(got, want.squeeze(), 1e-8, "filtered signal", ref=sc)
    need(np.array_equal(x, keep), "the signal was modified")
    if x.ndim == 3 and x.shape[2] == nf:
        close(filt.synthesize(x, **kw), got, 1e-12, "synthesize", ref=sc)
    if x.ndim < 3 or x.shape[2] == 1:
        close(filt.analyze(x, **kw), got, 1e-12, "analyze", ref=sc)
    if case["method"] == "chebyshev" and case["order"] == 30:
        close(filt @ x, got, 1e-12, "matmul", ref=sc)
        close(filt.filter(x), got, 1e-12, "filter with default arguments", ref=sc)


# ---------------------------------------------------------------- relations
@st.composite
def rel_cases(draw):
    g = draw(graph(min_n=2, max_n=10, loops=True))
    n = g["n"]
    nf = draw(st.one_of(upto(1, 4, 12), st.just(n) if n <= 6 else st.integers(2, 3)))
    vec = int_vector(n, -30, 30)
    return {"g": g, "lap": draw(LAP), "bank": [draw(kernel()) for _ in range(nf)], "x": draw(vec), "y": draw(vec),
            "a": draw(st.integers(-30, 30)) / 10, "method": draw(st.sampled_from(["exact", "chebyshev"])),
            "z": draw(int_vector(n * nf, -30, 30)),
            "order": draw(st.one_of(upto(1, 25, 80), st.just(30))), "lmax": draw(st.sampled_from(["fourier", "partial", "lanczos", "bounds", None])),
            "single": draw(st.booleans()), "i": draw(st.integers(0, n - 1))}


def check_rel(case, note):
    """Relations which hold for any kernel and either method, at any order."""
    G, filt, ops, _ = make(case)
    n, nf = G.N, len(ops)
    kw = {"method": case["method"], "order": case["order"]}
    x, y = np.array(case["x"]) / 3, np.array(case["y"]) / 3
    z = np.array(case["z"], dtype=float).reshape(n, 1, nf)
    if case["method"] == "chebyshev" and null_spectrum(G, 1 if case["lap"] == "normalized" else norm_of(dense(case["g"]))):
        return note.label("skipped: null spectrum")
    note.nontrivial(bool(case["g"]["edges"]))
    note.label(case["method"])
    sc = 30 * n * 30

    def ana(v):
        return filt.filter(v[:, None, None], **kw).reshape(n, nf)

    fx, fy = ana(x), ana(y)
    close(ana(case["a"] * x - y), case["a"] * fx - fy, 1e-8, "linearity", ref=sc)
    both = filt.filter(np.stack([x, y, x + y], 1)[:, :, None], **kw).reshape(n, 3, nf)
    close(both[:, 0], fx, 1e-8, "first of a stack", ref=sc)
    close(both[:, 1], fy, 1e-8, "second of a stack", ref=sc)
    close(both[:, 2], fx + fy, 1e-8, "third of a stack", ref=sc)
    fz = filt.synthesize(z, **kw).reshape(n)
    if nf > 1:
        need(abs(np.sum(fx * z[:, 0, :]) - x @ fz) <= 1e-8 * sc * 30 * n * nf, "synthesis is not the adjoint of analysis: %s %s", np.sum(fx * z[:, 0]), x @ fz)
    F = filt.compute_frame(**kw)
    need(F.shape == (n * nf, n), "frame of shape %s", F.shape)
    close(F @ x, fx.T.ravel(), 1e-8, "frame @ signal", ref=sc)
    if case["method"] == "exact":
        close(F, np.concatenate(ops), 1e-8, "frame", ref=1 + norm_of(ops))
    elif case["order"] == 30:
        A = filt.toarray()
        need(A.shape == (n * nf, n), "array of shape %s", A.shape)
        close(A, F, 1e-10, "toarray", ref=1 + norm_of(F))
    i = case["i"]
    delta = np.zeros(n)
    delta[i] = 1
    close(filt.localize(i, **kw).reshape(n, nf), np.sqrt(n) * ana(delta), 1e-8, "localize", ref=sc)
    # rejected shapes
    raises(ValueError, lambda: filt.filter(np.zeros(n + 1), **kw), "a signal of N + 1 values")
    raises(ValueError, lambda: filt.filter(np.zeros((n, 2, nf + 1)), **kw) if nf + 1 != 1 else None, "nf + 1 features")
    raises(ValueError, lambda: filt.filter(np.zeros((n, 1, 2, 2)), **kw), "4 dimensions")
    raises(ValueError, lambda: filt.filter(x, method="unknown"), "unknown method")
    raises(ValueError, lambda: filt.synthesize(np.zeros((n, 2, nf + 1)), **kw), "synthesis of nf + 1 features")
    raises(ValueError, lambda: filt.synthesize(np.zeros((n, nf + 1)), **kw), "synthesis of nf + 1 columns")
    if nf > 1:
        raises(ValueError, lambda: filt.synthesize(np.zeros((n, 2, 1)), **kw), "synthesis of 1 feature")
        raises(ValueError, lambda: filt.analyze(z, **kw), "analysis of nf features")


PARTS = [
    Part("definition", cases(), check, quick=6000, large=300),
    Part("relations", rel_cases(), check_rel, quick=3000, large=300),
]
