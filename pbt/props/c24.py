"""C24: graph pyramid and interpolation."""
import numpy as np
from hypothesis import strategies as st

from pygsp import graphs, reduction

from ..gens import build, close, dense, graph, kernel, kernel_fn, need, norm_of, raises, ref_laplacian, spectral_scale, subset, tensor, upto
from ..runner import Part
from .c23 import schur

RULE = ("Random connected graphs, pyramids of one to three levels from the multiresolution or from arbitrary subsets of vertices, one- and two-dimensional signals of integer or double type, default or random low-pass "
        "filters (one, or one per level), exact or Chebyshev filtering of any order, any regularization. Oracles: dense low-pass and dense interpolation for every coefficient, reconstruction of every level, linearity in arbitrary "
        "coefficients, least squares solutions and Landweber iterates by dense algebra. Non-trivial: some vertex eliminated and a signal which is not null.")
ASSUMPTIONS = ["every component keeps a vertex", "condition number of the regularized blocks below 1e7 (a margin proportional to it otherwise)"]
S_TYPES = ["float", "float", "int"]


@st.composite
def cases(draw, ls=False):
    g = draw(graph(min_n=1, max_n=12, directed=False, connected=True, kinds=["ones", "int", "float"], loops=draw(st.integers(0, 3)) == 0))
    n = g["n"]
    levels = draw(st.integers(1, 3))
    idx = []
    m = n
    for _ in range(levels):
        sub = draw(subset(m, 1))
        idx.append(sub)
        m = len(sub)
    cols = draw(st.one_of(st.sampled_from([None, None, 1, 2, 3]), upto(1, 3, 16)))
    nf = draw(st.sampled_from(["default", "one", "single", "all"]))
    if ls and nf == "default":
        nf = "one"
    return {"g": g, "idx": idx if draw(st.booleans()) else None, "levels": levels, "f": draw(tensor((n, cols) if cols else (n,))), "type": draw(st.sampled_from(S_TYPES)),
            "nf": nf, "h": draw(st.lists(kernel(kinds=["heat", "rational", "gauss", "poly"]), min_size=3, max_size=3)), "method": draw(st.sampled_from(["exact", "exact", None, "chebyshev", "order"])),
            "order": draw(st.integers(1, 60)), "reg": draw(st.sampled_from([None, None, 0.005, 0.05, 0.5, 3.0])),
            "noise": draw(tensor((2 * n + 3, 1))), "spec": draw(st.one_of(st.none(), st.lists(st.sampled_from([None, "full", "partial"]), min_size=4, max_size=4))), "its": draw(st.integers(1, 12)), "tau": draw(st.sampled_from([None, 0.1, 0.5, 1.0]))}


def pyramid(c):
    G = build(c["g"])
    if c["idx"] is None:
        Gs = reduction.graph_multiresolution(G, c["levels"], sparsify=False)
    else:
        Gs = [G]
        for sub in c["idx"]:
            sub = np.array(sub)
            H = reduction.kron_reduction(Gs[-1], sub)
            H.mr = {"idx": sub}
            Gs.append(H)
    return Gs


def same(G):
    H = graphs.Graph(G.W)
    if hasattr(G, "mr"):
        H.mr = G.mr
    return H


def setup(c):
    Gs = pyramid(c)
    f = np.array(c["f"])
    f = (10 * f).astype(int) if c["type"] == "int" else f
    s = spectral_scale(None, dense(c["g"]), "combinatorial")
    fns = [kernel_fn(h, s) for h in c["h"][:c["levels"]]]
    akw = {}
    if c["nf"] == "default":
        fns = [lambda x: 1 / (2 * x + 1)] * c["levels"]
    elif c["nf"] == "one":
        fns = [fns[0]] * c["levels"]
        akw["h_filters"] = fns[0]
    elif c["nf"] == "single":
        fns = [fns[0]] * c["levels"]
        akw["h_filters"] = [fns[0]]
    else:
        akw["h_filters"] = list(fns)
    kw = {}
    if c["reg"]:
        kw["reg_eps"] = c["reg"]
    if c["method"] == "order":
        kw["order"] = c["order"]
    elif c["method"]:
        kw["method"] = c["method"]
    return Gs, f, fns, akw, kw


def interp_matrix(L, reg, keep):
    """Phi[:, k] Phi[k, k]^-1, through the harmonic system."""
    n = len(L)
    A = L + reg * np.eye(n)
    P = np.zeros((n, len(keep)))
    P[keep, np.arange(len(keep))] = 1
    rest = [i for i in range(n) if i not in set(keep)]
    if rest:
        P[rest] = -np.linalg.solve(A[np.ix_(rest, rest)], A[np.ix_(rest, list(keep))])
    return P


def lowpass(L, h):
    e, U = np.linalg.eigh(L)
    e = np.maximum(e, 0)
    return U @ (np.broadcast_to(h(e), e.shape)[:, None] * U.T)


def laplacian(G):
    W = G.W.toarray().astype(float)
    np.fill_diagonal(W, 0)
    return np.diag(W.sum(0)) - W


def check(c, note):
    Gs, f, fns, akw, kw = setup(c)
    reg = c["reg"] or 0.005
    levels = c["levels"]
    keep, W0 = f.copy(), [G.W.toarray() for G in Gs]
    nh = len(akw["h_filters"]) if isinstance(akw.get("h_filters"), list) else None
    ca, pe = reduction.pyramid_analysis(Gs, f, **akw, **kw)
    need(np.array_equal(f, keep), "signal modified")
    need(all(np.array_equal(a, G.W.toarray()) for a, G in zip(W0, Gs)), "graphs modified")
    need(nh is None or len(akw["h_filters"]) == nh, "list of filters modified")
    need(len(ca) == levels + 1 and len(pe) == levels, "%d approximations, %d errors", len(ca), len(pe))
    need(np.array_equal(ca[0], f), "finest approximation is not the signal")
    note.nontrivial(Gs[-1].N < Gs[0].N and bool(np.any(f)))
    note.label(c["method"] or "default", f"{f.ndim}-D", c["nf"], "kron" if c["idx"] is None else "subsets")
    exact = c["method"] == "exact"
    for i in range(levels):
        n, m = Gs[i].N, Gs[i + 1].N
        need(np.shape(ca[i]) == (n,) + f.shape[1:] and np.shape(pe[i]) == (n,) + f.shape[1:], "level %d: shapes %s and %s", i, np.shape(ca[i]), np.shape(pe[i]))
        idx = list(Gs[i + 1].mr["idx"])
        if exact:
            L = laplacian(Gs[i])
            scale = max(norm_of(ca[i]), 1e-300) * max(norm_of(fns[i](np.linspace(0, max(norm_of(np.linalg.eigvalsh(L)), 1e-9), 50))), 1)
            close(ca[i + 1], (lowpass(L, fns[i]) @ ca[i])[idx], 1e-9, f"approximation {i + 1}", ref=scale)
            cond = (norm_of(L) * n + reg) / reg
            if cond < 1e7:
                close(pe[i], ca[i] - interp_matrix(L, reg, idx) @ ca[i + 1], 1e-13 * cond + 1e-10, f"prediction error {i}", ref=scale)
    # synthesis
    cap, kpe = np.array(ca[-1], copy=True), [np.array(p, copy=True) for p in pe]
    skw = dict(kw)
    rec, back = reduction.pyramid_synthesis(Gs, cap, pe, **skw)
    need(np.array_equal(cap, ca[-1]) and all(np.array_equal(a, b) for a, b in zip(pe, kpe)), "coefficients modified")
    need(len(back) == levels + 1, "%d approximations", len(back))
    big = max([norm_of(x) for x in ca] + [norm_of(a - p) for a, p in zip(ca, pe)] + [1e-300])
    need(np.shape(rec) == f.shape, "shape of the reconstruction %s", np.shape(rec))
    for i in range(levels, -1, -1):
        close(back[i], ca[i], 1e-9, f"approximation {i} in the synthesis", ref=big)
    close(rec, f, 1e-9, "reconstruction", ref=big)
    # the synthesis is the prediction plus the errors for any coefficients
    if exact:
        noise = np.array(c["noise"])[:, 0]
        other = [np.resize(noise[k:], np.shape(p)) for k, p in enumerate(pe)]
        x = np.resize(noise[::-1], np.shape(cap))
        rec, back = reduction.pyramid_synthesis(Gs, x, other, **skw)
        for i in range(levels - 1, -1, -1):
            L = laplacian(Gs[i])
            cond = (norm_of(L) * len(L) + reg) / reg
            if cond > 1e7:
                return
            x = interp_matrix(L, reg, list(Gs[i + 1].mr["idx"])) @ x + other[i]
            close(back[i], x, 1e-12 * cond + 1e-10, f"synthesis of level {i}", ref=max(norm_of(noise), norm_of(x), 1e-300) * (levels + 1))


def least_squares(c, note):
    Gs, f, fns, akw, kw = setup(c)
    kw.pop("order", None)
    kw["method"] = "exact"
    reg = c["reg"] or 0.005
    levels = c["levels"]
    for G in Gs:
        G.compute_fourier_basis()
    ca, pe = reduction.pyramid_analysis(Gs, f, **akw, **kw)
    big = max(norm_of(x) for x in list(ca) + list(pe))
    note.nontrivial(Gs[-1].N < Gs[0].N and big > 0)
    note.label(f"{f.ndim}-D", c["nf"])
    Ta = []
    for i in range(levels):
        L = laplacian(Gs[i])
        if (norm_of(L) * len(L) + reg) / reg > 1e5:
            return
        idx = list(Gs[i + 1].mr["idx"])
        H = lowpass(L, fns[i])
        Ta.append(np.concatenate([H[idx], np.eye(len(L)) - interp_matrix(L, reg, idx) @ H[idx]]))
    # whatever is known of the spectra
    direct = {}
    if c["spec"]:
        # not another multiresolution: which vertices it keeps depends on the starting vector of an iterative solver
        Gs = [same(G) for G in Gs]
        for G, kind in zip(Gs, c["spec"]):
            if kind:
                G.compute_fourier_basis(1 if kind == "partial" else None)
        if c["spec"][0] != "full":
            direct = {"use_landweber": False}
    rec, back = reduction.pyramid_synthesis(Gs, ca[-1], pe, least_squares=True, **direct, **akw, **kw)
    cond = max(np.linalg.cond(T) for T in Ta)
    if cond < 1e5:
        close(rec, f, 1e-12 * cond ** 2 + 1e-7, "least squares reconstruction", ref=max(big, 1e-300))
        need(len(back) == levels + 1 and all(np.shape(a) == np.shape(b) for a, b in zip(back, ca)), "approximations of the least squares synthesis")
        # coefficients which are not those of a signal
        noise = np.array(c["noise"])[:, 0]
        other = [p + np.resize(noise[k:], np.shape(p)) for k, p in enumerate(pe)]
        rec, back = reduction.pyramid_synthesis(Gs, ca[-1], other, least_squares=True, use_landweber=False, **akw, **kw)
        x = ca[-1]
        for i in range(levels - 1, -1, -1):
            x = np.linalg.lstsq(Ta[i], np.concatenate([x, other[i]]), rcond=None)[0]
            close(back[i], x, 1e-12 * cond ** 2 + 1e-6, f"least squares solution of level {i}", ref=max(big, norm_of(noise), norm_of(x)) * cond)
    # Landweber iterates
    tau, its = c["tau"] or 1.0, c["its"]
    opts = {"landweber_its": its}
    if c["tau"]:
        opts["landweber_tau"] = tau
    x = ca[-1]
    growth = max(max(1.0, np.linalg.norm(np.eye(T.shape[1]) - tau * T.T @ T, 2)) ** its * max(1, np.linalg.norm(T, 2)) for T in Ta)
    if growth > 1e6:
        return
    rec, back = reduction.pyramid_synthesis(Gs, ca[-1], pe, least_squares=True, use_landweber=True, **opts, **akw, **kw)
    for i in range(levels - 1, -1, -1):
        z = np.concatenate([x, pe[i]])
        x = np.zeros(np.shape(pe[i]))
        for _ in range(its):
            x = x + tau * Ta[i].T @ (z - Ta[i] @ x)
        close(back[i], x, 1e-7, f"Landweber iterate of level {i}", ref=max(big, norm_of(x)) * growth)


@st.composite
def interp_cases(draw):
    g = draw(graph(min_n=1, max_n=12, directed=False, loops=draw(st.integers(0, 3)) == 0, kinds=["ones", "int", "float", "scaled"]))
    n = g["n"]
    keep = draw(subset(n, 1))
    cols = draw(st.one_of(st.sampled_from([None, None, 1, 2, 3]), upto(1, 3, 16)))
    return {"g": g, "keep": keep, "f": draw(tensor((len(keep), cols) if cols else (len(keep),))), "type": draw(st.sampled_from(S_TYPES)), "reg": draw(st.sampled_from([None, 0.005, 0.02, 0.1, 0.5, 2.0])),
            "method": draw(st.sampled_from(["exact", None, "order"])), "order": draw(st.integers(20, 300)), "lmax": draw(st.booleans()), "list": draw(st.booleans())}


def interp(c, note):
    W = dense(c["g"])
    G = build(c["g"])
    n, keep = G.N, c["keep"]
    np.fill_diagonal(W, 0)
    L = ref_laplacian(W, "combinatorial")
    reg = c["reg"] or 0.005
    f = np.array(c["f"])
    f = (10 * f).astype(int) if c["type"] == "int" else f
    kf = f.copy()
    kw = {} if c["reg"] is None else {"reg_eps": reg}
    if c["method"] == "order":
        kw["order"] = c["order"]
    elif c["method"]:
        kw["method"] = c["method"]
    if c["lmax"]:
        G.estimate_lmax("bounds")
    cond = (norm_of(L) * n + reg) / reg
    if cond > 1e12:  # the regularization is lost to rounding
        return
    x = reduction.interpolate(G, f, keep if c["list"] else np.array(keep), **kw)
    need(np.array_equal(f, kf), "samples modified")
    need(np.shape(x) == (n,) + f.shape[1:], "shape %s", np.shape(x))
    note.nontrivial(len(keep) < n and bool(np.any(f)))
    note.label(c["method"] or "default", f"{f.ndim}-D")
    s = max(norm_of(f), 1e-300)
    if cond > 1e7:
        return
    ref = interp_matrix(L, reg, keep) @ f
    tol = 1e-13 * cond + 1e-11
    if c["method"] == "exact":
        need(bool(np.abs(np.take(x, keep, 0) - f).max() <= tol * s), "samples not interpolated: %s", x)
        lo, hi = np.minimum(f.min(0), 0), np.maximum(f.max(0), 0)
        need(bool((x >= lo - tol * s).all() and (x <= hi + tol * s).all()), "beyond the samples: %s of %s", x, f)
        close(x, ref, tol, "interpolation", ref=s)
        return
    order = kw.get("order", 100)
    lmax = G.lmax
    if lmax <= 1e-9 * norm_of(L) or not W.any():
        return
    # tail of the Chebyshev series of 1 / (reg + x), twice for aliasing, applied to K f
    z = 1 + 2 * reg / lmax
    rho = z + np.sqrt(z * z - 1)
    tail = 2 / lmax * 2 / np.sqrt(z * z - 1) * rho ** -float(order) / (rho - 1)
    alpha = np.zeros((n,) + f.shape[1:])
    alpha[keep] = schur(L + reg * np.eye(n), keep)[0] @ f
    bound = 4 * tail * np.sqrt(n) * max(np.linalg.norm(alpha.reshape(n, -1), axis=0).max(), 1e-300)
    if bound < 0.1 * s:
        note.label("chebyshev bound")
        err = norm_of(x - ref)
        need(err <= bound + 1e-9 * cond * s * 1e-3 + 1e-9 * s, "Chebyshev interpolation of order %d: error %.3g, bound %.3g", order, err, bound)


@st.composite
def reject_cases(draw):
    return {"g": draw(graph(min_n=3, max_n=8, directed=False, connected=True, loops=False)), "levels": draw(st.integers(1, 3)), "d": draw(st.sampled_from([-1, 1, 2]))}


def reject(c, note):
    Gs = reduction.graph_multiresolution(build(c["g"]), c["levels"], sparsify=False)
    n, lv, d = c["g"]["n"], c["levels"], c["d"]
    h = lambda x: 1 / (1 + x)
    note.nontrivial(True)
    raises(ValueError, lambda: reduction.pyramid_analysis(Gs, np.ones(n + d)), "signal of the wrong length")
    k = lv + d
    if k != 1:
        raises(ValueError, lambda: reduction.pyramid_analysis(Gs, np.ones(n), h_filters=[h] * k), f"{k} filters for {lv} levels")
    raises(Exception, lambda: reduction.pyramid_analysis(Gs, np.ones(n), h_filters=3.0), "filters which are no functions")
    ca, pe = reduction.pyramid_analysis(Gs, np.ones(n), h_filters=h, method="exact")
    raises(ValueError, lambda: reduction.pyramid_synthesis(Gs, ca[-1], pe, least_squares=True, method="exact"), "least squares without filters")
    raises(ValueError, lambda: reduction.pyramid_synthesis(Gs, ca[-1], (pe + pe)[:max(lv + d, 0)], method="exact"), "wrong number of prediction errors")


PARTS = [
    Part("pyramid", cases(), check, 500, large=300),
    Part("least_squares", cases(ls=True), least_squares, 250, large=300),
    Part("interpolate", interp_cases(), interp, 700, large=300),
    Part("reject", reject_cases(), reject, 50),
]
