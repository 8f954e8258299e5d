"""C13: frame bounds, complement, inverse and the algebra of banks."""
import numpy as np
from hypothesis import strategies as st

from pygsp import filters

from .. import gens
from ..gens import LAP, build, close, dense, graph, int_vector, kernel, kernel_fn, matfun, need, norm_of, raises, ref_laplacian, spectral_scale, upto
from ..runner import Part

RULE = ("A random graph, Laplacian and bank (random smooth kernels, kernels vanishing on part of the spectrum, or a built-in bank). Frame bounds are compared "
        "with the extremes of explicitly summed responses and with the energies of random signals and eigenvectors; complements and inverses "
        "with dense pinv of the analysis matrix built by the harness; indexing, slicing, +, +=, calls with explicit kernel lists. Non-trivial: an edge.")
ASSUMPTIONS = ["eigenvalues away from the jumps of discontinuous kernels", "condition number of the frame below 1e8 for the inverse"]


@st.composite
def cases(draw):
    g = draw(graph(min_n=1, max_n=8, loops=True))
    n = g["n"]
    bank = [draw(st.one_of(kernel(), kernel(["bump"]))) for _ in range(draw(upto(1, 4, 16)))]
    return {"g": g, "lap": draw(LAP), "bank": bank, "single": draw(st.booleans()),
            "x": draw(int_vector(n, -30, 30)),
            "t": draw(int_vector(draw(upto(1, 12, 300)), 0, 100)), "how": draw(st.sampled_from(["list", "array", "2d"])),
            "extra": draw(st.integers(0, 30)) / 10, "u": draw(st.integers(1, 8)), "lmax": draw(st.sampled_from(["fourier", "bounds", "lanczos"]))}


def fn(spec, s):
    if spec[0] == "bump":  # null above a threshold, continuous
        return lambda x: np.maximum(0.0, spec[1][0] / 4 - np.asarray(x, dtype=float) / s) * spec[1][1]
    return kernel_fn(spec, s)


def setup(case):
    g = case["g"]
    L = ref_laplacian(dense(g), case["lap"])
    s = spectral_scale(L, dense(g), case["lap"])
    G = build(g, lap_type=case["lap"])
    fns = [fn(k, s) for k in case["bank"]]
    return G, L, s, fns, filters.Filter(G, fns[0] if len(fns) == 1 and case["single"] else list(fns))


def ssq(fns, x):
    return np.sum([np.broadcast_to(f(x), np.shape(x)) ** 2 for f in fns], axis=0)


def check_bounds(case, note):
    G, L, s, fns, bank = setup(case)
    n = G.N
    note.nontrivial(bool(case["g"]["edges"]))
    G.compute_fourier_basis() if case["lmax"] == "fourier" else G.estimate_lmax(case["lmax"])
    grid = np.linspace(0, G.lmax, 1000)
    v = ssq(fns, grid)
    A, B = bank.estimate_frame_bounds()
    sup = v.max() + 1e-300
    close([A, B], [v.min(), v.max()], 1e-9, "default frame bounds", ref=sup)
    f = [t / 100 * s for t in case["t"]]
    arg = {"list": f, "array": np.array(f), "2d": np.array([f, f])}[case["how"]]
    A, B = bank.estimate_frame_bounds(arg)
    v = ssq(fns, np.array(f))
    close([A, B], [v.min(), v.max()], 1e-9, "frame bounds at given frequencies", ref=sup)
    # at the eigenvalues: energies
    e, U = np.linalg.eigh(L)
    A, B = bank.estimate_frame_bounds(G.e)
    v = ssq(fns, np.maximum(e, 0))
    close([A, B], [v.min(), v.max()], 1e-6, "frame bounds at the eigenvalues", ref=sup)
    ops = matfun(L, fns)
    x = np.array(case["x"], dtype=float)
    for sig in [x] + [U[:, k] for k in range(n)]:
        c = bank.analyze(sig, method="exact")
        en, tot = np.sum(c ** 2), np.sum(sig ** 2)
        need(A * tot - 1e-6 * sup * tot <= en <= B * tot + 1e-6 * sup * tot, "energy %s of the coefficients outside of [%s, %s] * %s", en, A, B, tot)
        close([en], [sum(np.sum((o @ sig) ** 2) for o in ops)], 1e-6, "energy", ref=sup * tot + 1e-12)


def check_complement(case, note):
    G, L, s, fns, bank = setup(case)
    note.nontrivial(bool(case["g"]["edges"]))
    f = np.array(case["t"]) / 100 * s
    v = ssq(fns, f)
    before = bank.evaluate(f).copy()
    comp = bank.complement()
    y = comp.evaluate(f)
    need(y.shape == (1, len(f)), "complement: shape %s", y.shape)
    need(bool(np.all(np.isfinite(y)) and np.all(y >= 0)), "complement: %s", y)
    close(y[0] ** 2 + v, np.full(len(f), v.max()), 1e-9, "complement with the smallest bound", ref=v.max() + 1e-12)
    bound = v.max() + case["extra"] + 1e-3
    both = bank + bank.complement(bound)
    close(np.sum(both.evaluate(f) ** 2, axis=0), np.full(len(f), bound), 1e-9, "complement with a given bound")
    close(bank.complement(frame_bound=bound).evaluate(f)[0] ** 2, bound - v, 1e-9, "complement", ref=bound)
    if v.max() > 1e-6:
        low = v.max() * (1 - 10.0 ** -case["u"])
        raises(ValueError, lambda: bank.complement(low).evaluate(f), "an infeasible bound")
        note.label("infeasible")
    close(bank.evaluate(f), before, 0, "the bank changed", ref=1)
    need(bank.Nf == len(fns), "the bank changed")


def check_inverse(case, note):
    G, L, s, fns, bank = setup(case)
    n, nf = G.N, len(fns)
    note.nontrivial(bool(case["g"]["edges"]))
    inv = bank.inverse()
    need(inv.Nf == nf, "%d filters", inv.Nf)
    f = np.array(case["t"]) / 100 * s
    y, z = bank.evaluate(f), inv.evaluate(f)
    v = ssq(fns, f)
    ok = v > 1e-12 * max(v.max(), 1e-300)
    want = np.where(ok, y / np.where(ok, v, 1), 0)
    sel = ok | (v == 0)
    close(z[:, sel], want[:, sel], 1e-6, "kernels of the inverse", ref=norm_of(want[:, sel]) + 1e-300)
    if len(f) > 1:
        f2 = np.stack([f, f[::-1], f])
        z2 = inv.evaluate(f2)
        close(z2[:, 0], z, 1e-9, "inverse on a 2-d array", ref=norm_of(z) + 1e-300)
        close(z2[:, 1], z[:, ::-1], 1e-9, "inverse on a 2-d array", ref=norm_of(z) + 1e-300)
    close(inv.evaluate(f[0]), z[:, 0], 1e-9, "inverse on a scalar", ref=norm_of(z) + 1e-300)
    e, U = np.linalg.eigh(L)
    v = ssq(fns, np.maximum(e, 0))
    top = max(v.max(), 1e-300)
    # null responses are fine where they are robust (not a mere crossing of zero near an eigenvalue)
    robust = (v == 0) & (ssq(fns, np.maximum(e + 1e-6 * s, 0)) == 0) & (ssq(fns, np.maximum(e - 1e-6 * s, 0)) == 0)
    if np.any((v < 1e-8 * top) & ~robust) or v.max() == 0:
        return note.label("badly conditioned")
    F = np.concatenate(matfun(L, fns))
    x = np.array(case["x"], dtype=float)
    P = np.linalg.pinv(F, rcond=1e-9)
    c = bank.analyze(x, method="exact").reshape(n, 1, nf)
    back = inv.synthesize(c, method="exact").reshape(n)
    rec = P @ (F @ x)
    # the Fourier basis of the code under test decides on which side of a zero a kernel falls
    close(back, rec, 1e-5, "inverse of the analysis", ref=norm_of(x) + 1e-12)
    if v.min() > 1e-8 * top:
        note.label("frame")
        close(back, x, 1e-5, "perfect reconstruction", ref=norm_of(x) + 1e-12)
        H = inv.compute_frame(method="exact")
        close(H.T, P, 1e-5, "the inverse bank is not the pseudo-inverse", ref=norm_of(P))
        close(inv.inverse().evaluate(f)[:, ok], y[:, ok], 1e-6, "inverse of the inverse", ref=norm_of(y) + 1e-300)
    else:
        note.label("not a frame")


# ---------------------------------------------------------------- algebra
@st.composite
def algebra_cases(draw):
    g = draw(graph(min_n=2, max_n=6, min_edges=1))
    # the kernels are those of g: null eigenvalues of huge weights are not null for them
    h = draw(graph(min_n=2, max_n=6, min_edges=1, kinds=["ones", "int", "float", "wide"]))
    num = st.integers(0, 6)
    if not gens.LARGE and draw(st.booleans()):  # of the same size, in particular
        h = draw(graph(min_n=g["n"], max_n=g["n"], min_edges=1, kinds=["ones", "int", "float", "wide"]))
    return {"g": g, "h": h, "lap": draw(LAP), "a": [draw(kernel()) for _ in range(draw(upto(1, 5, 20)))], "b": [draw(kernel()) for _ in range(draw(upto(1, 4, 20)))],
            "i": draw(st.one_of(st.integers(-5, 4), upto(-5, 4, 20))), "sl": [draw(st.one_of(st.none(), upto(-6, 6, 20))) for _ in range(2)], "step": draw(st.sampled_from([None, 1, 2, -1, -2])),
            "t": draw(st.lists(num, min_size=1, max_size=6)), "builtin": draw(st.sampled_from([None, "Abspline", "MexicanHat", "Heat", "Meyer"])),
            "x": draw(int_vector(h["n"], -30, 30))}


def check_algebra(case, note):
    G, H = build(case["g"]), build(case["h"], lap_type=case["lap"])
    G.estimate_lmax("bounds")
    fa, fb = [kernel_fn(k, 5.0) for k in case["a"]], [kernel_fn(k, 5.0) for k in case["b"]]
    note.label(case["builtin"] or "kernels")
    if case["builtin"]:
        k = len(fa) + 1
        A = filters.Heat(G, [1 + i for i in range(k)]) if case["builtin"] == "Heat" else getattr(filters, case["builtin"])(G, k)
        ya = A.evaluate(np.array(case["t"], dtype=float))
        fa = [None] * k
    else:
        A = filters.Filter(G, list(fa))
        ya = np.array([f(np.array(case["t"], dtype=float)) for f in fa])
    B = filters.Filter(G, list(fb))
    t = np.array(case["t"], dtype=float)
    yb = np.array([f(t) for f in fb])
    na, nb = len(fa), len(fb)

    def same(bank, want, what):
        want = np.asarray(want).reshape(-1, len(t))
        need(bank.Nf == len(want) and len(bank) == len(want) and bank.n_filters == len(want) and bank.shape == (len(want), 1), "%s: %s filters, expected %d", what, bank.Nf, len(want))
        if len(want):
            close(bank.evaluate(t), want, 1e-12, what, ref=norm_of(want) + 1e-300)

    i = case["i"]
    if -na <= i < na:
        same(A[i], ya[i], "index")
        need(A[i].G is G, "graph of an indexed bank")
    else:
        raises(IndexError, lambda: A[i], "an index out of range")
    sl = slice(case["sl"][0], case["sl"][1], case["step"])
    same(A[sl], ya[sl], "slice")
    C = A + B
    same(C, np.concatenate([ya, yb]), "concatenation")
    need(C.G is G, "graph of a concatenation")
    D = A
    D += B
    D += B
    same(D, np.concatenate([ya, yb, yb]), "repeated concatenation")
    same(A, ya, "the first operand changed")
    same(B, yb, "the second operand changed")
    raises(TypeError, lambda: A + 3, "adding a number")
    # re-targeting
    if not case["builtin"]:
        R = A(H)
        need(R.G is H, "the graph of a re-targeted bank")
        same(R, ya, "re-targeting")
        L = ref_laplacian(dense(case["h"]), case["lap"])
        x = np.array(case["x"], dtype=float)
        want = np.stack([o @ x for o in matfun(L, fa)], 1)
        close(np.reshape(R.filter(x, method="exact"), (H.N, na)), want, 1e-7, "filtering on the other graph", ref=norm_of(x) * max(norm_of(o) for o in matfun(L, fa)) * H.N + 1e-9)
        need(A.G is G, "re-targeting changed the bank")
    need(np.array_equal(A.evaluate(list(map(float, t))), A.evaluate(t)), "evaluation at a list of points")
    need(np.array_equal(A.evaluate(np.stack([t, t])), np.stack([A.evaluate(t)] * 2, 1)), "evaluation at a matrix of points")
    close(A(t), ya, 1e-12, "calling a bank", ref=norm_of(ya) + 1e-300)


PARTS = [
    Part("bounds", cases(), check_bounds, quick=1550, large=300),
    Part("complement", cases(), check_complement, quick=1050, large=300),
    Part("inverse", cases(), check_inverse, quick=1950, large=300),
    Part("algebra", algebra_cases(), check_algebra, quick=1300, large=300),
]
