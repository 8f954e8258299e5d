"""C10: Chebyshev and Lanczos approximations."""
import numpy as np
from hypothesis import strategies as st
from numpy.polynomial import chebyshev as C

from pygsp import filters
from pygsp.filters import approximations

from ..gens import LAP, build, close, dense, graph, int_vector, kernel, kernel_fn, matfun, need, norm_of, null_spectrum, raises, ref_laplacian, spectral_scale, upto
from ..runner import Part

RULE = ("Random graphs, Laplacians, sources of lmax, kernels, orders 1-40 and signals. Oracles: the order-m result is p_m(L) x for "
        "p_m the interpolant of the kernel at the m+1 Chebyshev nodes (numpy.polynomial, dense eigendecomposition), hence exact "
        "for polynomials of degree <= m; error bounds for entire kernels; closed-form series of the indicator; Jackson factors; "
        "Lanczos of order k exact for degree < k and for any kernel once k >= N. Non-trivial: an edge.")
ASSUMPTIONS = ["tolerance 1e-8 relative to the sup of the kernel and the signal"]


@st.composite
def cases(draw):
    g = draw(graph(min_n=1, max_n=8, loops=True, min_edges=0))
    n = g["n"]
    m = draw(upto(1, 40, 150))
    if draw(st.booleans()):
        bank = [["cheb", draw(st.lists(st.integers(-20, 20).map(lambda v: v / 10), min_size=1, max_size=min(m, 12) + 1))]
                for _ in range(draw(upto(1, 3, 12)))]
    else:
        bank = [draw(kernel(["heat", "rational", "gauss", "sqrt1", "cos", "step"])) for _ in range(draw(upto(1, 3, 12)))]
    ns = draw(upto(0, 3, 24))
    size = n * max(ns, 1)
    return {"g": g, "lap": draw(LAP), "m": m, "bank": bank, "ns": ns, "points": draw(upto(0, 20, 200)),
            "x": draw(int_vector(size, -30, 30)),
            "lmax": draw(st.sampled_from(["fourier", "lanczos", "bounds"]))}


def setup(case):
    g = case["g"]
    L = ref_laplacian(dense(g), case["lap"])
    G = build(g, lap_type=case["lap"])
    if case["lmax"] == "fourier":
        G.compute_fourier_basis()
    else:
        G.estimate_lmax(case["lmax"])
    s = spectral_scale(L, dense(g), case["lap"])
    top = G.lmax if G.lmax > 1e-9 * s else None
    fns = []
    for spec in case.get("bank", []):
        if spec[0] == "cheb":
            c = np.array(spec[1])
            fns.append(lambda x, c=c: C.chebval(2 * np.asarray(x, dtype=float) / (top or 1.0) - 1, c))
        elif spec[0] == "step":
            fns.append(lambda x, t=0.1 + spec[1][0] / 5 * s: np.where(np.asarray(x, dtype=float) < t, 1.0, 0.0))
        else:
            fns.append(kernel_fn(spec, s))
    x = np.array(case["x"], dtype=float) / 3
    if case["ns"]:
        x = x.reshape(g["n"], case["ns"])
    return G, L, s, top, fns, x


def check(case, note):
    G, L, s, top, fns, x = setup(case)
    m, n = case["m"], G.N
    note.nontrivial(bool(case["g"]["edges"]))
    if null_spectrum(G, s):
        return note.label("skipped: null spectrum")
    if top is None and any(b[0] == "step" for b in case["bank"]):
        return
    filt = filters.Filter(G, fns)
    sup = [max(norm_of(f(np.linspace(0, top or 1.0, 200))), 1e-300) for f in fns]
    sc = max(sup) * (norm_of(x) + 1e-300) * n * (m + 1)
    width = top or 1.0
    coefs = approximations.compute_cheby_coeff(filt, m=m)
    coefs = [coefs] if len(fns) == 1 else coefs
    need(len(coefs) == len(fns), "one list of coefficients per filter")
    one = approximations.compute_cheby_coeff(filt, m=m, i=len(fns) - 1)
    close(one, coefs[-1], 0, "coefficients of one filter", ref=1)
    nodes = np.cos(np.pi * (np.arange(m + 1) + 0.5) / (m + 1))
    polys = []
    for f, c, b, u in zip(fns, coefs, case["bank"], sup):
        note.label(b[0])
        need(np.shape(c) == (m + 1,), "%s coefficients for order %s", np.shape(c), m)
        c = np.array(c)
        c[0] /= 2
        if top is not None:
            close(C.chebval(nodes, c), f(top * (nodes + 1) / 2), 1e-9, "the coefficients do not reconstruct the kernel at the nodes", ref=u * (m + 1))
            if b[0] == "cheb":
                want = np.zeros(m + 1)
                want[:len(b[1])] = b[1]
                close(c, want, 1e-9, "coefficients of a polynomial", ref=u + norm_of(b[1]))
        polys.append(c)
    if case["points"]:
        # more quadrature points: discrete orthogonality at N nodes
        N = m + 1 + case["points"]
        nd = np.cos(np.pi * (np.arange(N) + 0.5) / N)
        c = approximations.compute_cheby_coeff(filt, m=m, N=N, i=0)
        want = [2 / N * np.sum(fns[0](G.lmax * (nd + 1) / 2) * C.chebval(nd, [0] * k + [1])) for k in range(m + 1)]
        close(c, want, 1e-9, "coefficients from more points", ref=sup[0])
    # the operator is that polynomial of L
    ops = matfun(L, [lambda e, c=c: C.chebval(2 * e / width - 1, c) for c in polys]) if top is not None else matfun(L, fns)
    want = np.concatenate([o @ x for o in ops])
    close(approximations.cheby_op(G, coefs if len(fns) > 1 else coefs[0], x), want, 1e-8, "cheby_op", ref=sc)
    y = filt.filter(x if x.ndim == 1 else x[:, :, None], order=m, method="chebyshev")
    ns = x.shape[1] if x.ndim == 2 else 1
    want3 = np.stack([np.reshape(o @ x, (n, ns)) for o in ops], axis=2)
    close(y, want3.squeeze(), 1e-8, "filter(order=%d)" % m, ref=sc)
    if all(b[0] == "cheb" for b in case["bank"]) and top is not None:
        exact = matfun(L, fns)
        note.label("exact polynomial")
        close(y, np.stack([np.reshape(o @ x, (n, ns)) for o in exact], axis=2).squeeze(), 1e-8, "a polynomial of degree <= order is not exact", ref=sc)
    if m >= 25 and all(b[0] in ("heat", "cos", "gauss") for b in case["bank"]) and top is not None and top <= 2.1 * s:
        exact = matfun(L, fns)
        note.label("convergence")
        tol = 1e-4
        close(y, np.stack([np.reshape(o @ x, (n, ns)) for o in exact], axis=2).squeeze(), tol, "no convergence", ref=sc / (m + 1))


# ---------------------------------------------------------------- band-pass
@st.composite
def rect_cases(draw):
    g = draw(graph(min_n=2, max_n=8, loops=False, min_edges=1))
    n = g["n"]
    ns = draw(upto(0, 3, 24))
    size = n * max(ns, 1)
    b = sorted(draw(st.lists(st.integers(0, 100), min_size=2, max_size=2, unique=True)))
    return {"g": g, "lap": draw(LAP), "m": draw(upto(1, 40, 150)), "b": b, "ns": ns, "array": draw(st.booleans()),
            "x": draw(int_vector(size, -30, 30)),
            "lo": draw(st.integers(-20, 20)) / 10, "wid": draw(st.integers(1, 50)) / 10, "seq": draw(st.sampled_from(["list", "array", "tuple"])),
            "lmax": draw(st.sampled_from(["fourier", "lanczos", "bounds"])), "default": draw(st.booleans())}


def indicator_series(a, b, m):
    """Chebyshev coefficients (c_0 to be halved) of the indicator of [a, b] in [-1, 1], by exact integration in the angle."""
    t1, t2 = np.arccos(np.clip(b, -1, 1)), np.arccos(np.clip(a, -1, 1))
    return np.array([2 / np.pi * (t2 - t1)] + [2 / np.pi * (np.sin(k * t2) - np.sin(k * t1)) / k for k in range(1, m + 1)])


def check_rect(case, note):
    G, L, s, top, _, x = setup(case)
    m = 30 if case["default"] else case["m"]
    bounds = [v / 100 * G.lmax for v in case["b"]]
    bounds = np.array(bounds) if case["array"] else bounds
    keep, kx = list(bounds), x.copy()
    r = approximations.cheby_rect(G, bounds, x, **({} if case["default"] else {"order": m}))
    c = indicator_series(2 * case["b"][0] / 100 - 1, 2 * case["b"][1] / 100 - 1, m)
    c[0] /= 2
    op = matfun(L, [lambda e: C.chebval(2 * e / G.lmax - 1, c)])[0]
    close(r, op @ x, 1e-8, "cheby_rect", ref=(norm_of(x) + 1) * G.N * (m + 1))
    need(list(bounds) == keep and np.array_equal(x, kx), "cheby_rect modified its arguments")
    raises(ValueError, lambda: approximations.cheby_rect(G, [0.1], x), "one bound")
    raises(ValueError, lambda: approximations.cheby_rect(G, 0.1, x), "a number as bounds")
    # Jackson
    lo, hi = case["lo"], case["lo"] + case["wid"]
    seq = {"list": list, "array": np.array, "tuple": tuple}[case["seq"]]
    f = [lo + v / 100 * (hi - lo) for v in case["b"]]
    fb, dl = seq(f), seq([lo, hi])
    ch, jch = approximations.compute_jackson_cheby_coeff(fb, dl, m)
    need(list(fb) == f and list(dl) == [lo, hi], "compute_jackson_cheby_coeff modified its arguments: %s", fb)
    want = indicator_series(2 * (f[0] - lo) / (hi - lo) - 1, 2 * (f[1] - lo) / (hi - lo) - 1, m)
    close(ch, want, 1e-6, "coefficients of the indicator", ref=1)
    al = np.pi / (m + 2)
    k = np.arange(m + 1)
    jack = ((m + 2 - k) * np.sin(al) * np.cos(k * al) + np.cos(al) * np.sin(k * al)) / ((m + 2) * np.sin(al))
    close(jch, want * jack, 1e-6, "Jackson coefficients", ref=1)
    t = np.linspace(-1, 1, 101)
    v = C.chebval(t, np.concatenate([[jch[0] / 2], jch[1:]]))
    need(v.min() > -1e-6 and v.max() < 1 + 1e-6, "the damped indicator leaves [0, 1]: %s", (v.min(), v.max()))
    raises(ValueError, lambda: approximations.compute_jackson_cheby_coeff(seq([lo - 1, hi]), seq([lo, hi]), m), "band outside of the spectrum")
    raises(ValueError, lambda: approximations.compute_jackson_cheby_coeff(seq([lo, hi + 1]), seq([lo, hi]), m), "band outside of the spectrum")
    note.label("degenerate band" if case["b"] in ([0, 100],) else "band")


# ---------------------------------------------------------------- Lanczos
@st.composite
def lanczos_cases(draw):
    g = draw(graph(min_n=1, max_n=8, loops=True))
    n = g["n"]
    ns = draw(upto(0, 3, 24))
    size = n * max(ns, 1)
    x = draw(st.one_of(int_vector(size, -30, 30), st.just([3] * size), st.just([1] + [0] * (size - 1)), st.just([0] * size)))
    order = draw(upto(1, 14, 40))
    if draw(st.booleans()):
        bank = [["poly", draw(st.lists(st.integers(-20, 20).map(lambda v: v / 10), min_size=1, max_size=min(order, draw(upto(5, 5, 12)))))] for _ in range(draw(upto(1, 3, 12)))]
    else:
        order = max(order, n)
        bank = [draw(kernel(["heat", "rational", "gauss", "cos"])) for _ in range(draw(upto(1, 3, 12)))]
    return {"g": g, "lap": draw(LAP), "order": order, "bank": bank, "ns": ns, "x": x, "lmax": "bounds"}


def check_lanczos(case, note):
    G, L, s, _, fns, x = setup(case)
    note.nontrivial(bool(case["g"]["edges"]) and bool(np.any(x)))
    note.label(case["bank"][0][0], "exhausted" if case["order"] >= G.N else "short")
    filt = filters.Filter(G, fns)
    keep = x.copy()
    got = approximations.lanczos_op(filt, x, order=case["order"])
    want = np.concatenate([o @ x for o in matfun(L, fns)])
    sup = max(norm_of(f(np.linspace(0, 2 * s, 50))) for f in fns)
    close(got, want, 1e-6, "Lanczos filtering", ref=(sup + 1e-300) * (norm_of(x) + 1e-300) * G.N)
    need(np.array_equal(x, keep), "lanczos_op modified the signal")
    # the basis of the Krylov space
    v = x.reshape(G.N, -1)[:, 0]
    A = G.L.toarray()
    V, H, _ = approximations.lanczos(A, case["order"], v.copy())
    k = V.shape[1]
    need(V.shape == (G.N, k) and H.shape == (k, k) and k <= case["order"], "shapes of a Lanczos basis: %s, %s", V.shape, H.shape)
    beta = np.diag(H, 1)
    scale = np.abs(A).sum(0).max() + 1e-300
    if v.any():
        close(V[:, 0] * np.linalg.norm(v), v, 1e-12, "first Lanczos vector")
        need(k >= min(case["order"], 1), "empty basis")
        if np.all(beta > 1e-5 * scale) and k <= G.N:
            note.label("basis of %s" % ("1" if k == 1 else "2-10" if k <= 10 else "11+"))
            close(V.T @ V, np.identity(k), 1e-8, "orthonormal Lanczos basis", ref=1)
            close(V.T @ A @ V, H, 1e-8, "Lanczos matrix", ref=scale)
            need(not np.triu(H, 2).any() and not np.tril(H, -2).any(), "not tridiagonal: %s", H)


PARTS = [
    Part("chebyshev", cases(), check, quick=4000, large=300),
    Part("band", rect_cases(), check_rect, quick=2400, large=300),
    Part("lanczos", lanczos_cases(), check_lanczos, quick=2400, large=300),
]
