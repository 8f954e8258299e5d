"""C14: Gabor and modulation banks."""
import numpy as np
from hypothesis import assume
from hypothesis import strategies as st

from pygsp import filters, graphs

from ..gens import LAP, build, close, dense, graph, int_vector, kernel, kernel_fn, need, norm_of, raises, ref_laplacian, spectral_scale, upto
from ..runner import Part
from .c12 import DEFAULTS, formulas

RULE = ("A random graph, of simple spectrum or not, a smooth mother kernel or built-in filter, random signals and stacks. Oracle: dense sums over vertices and "
        "eigenvectors written from the class documentation (with the graph's own eigenvectors, whose signs are free). Non-trivial: at least 3 vertices.")
ASSUMPTIONS = ["the eigenvectors of repeated eigenvalues are those which the graph chose", "localization first uses order-30 Chebyshev: smooth kernels, tolerance 1e-5"]

LAPS = ["combinatorial", "normalized"]
# those whose kernels are bounded, hence can be translated
BOUNDED = {"Held": 2, "Papadakis": 2, "Simoncelli": 2, "Regular": 2, "Meyer": 6, "SimpleTight": 6, "Abspline": 1, "Itersine": 6, "HalfCosine": 6}


@st.composite
def bank_kernel(draw):
    name = draw(st.sampled_from(sorted(BOUNDED)))
    return ["Bank", name, draw(st.integers(0, BOUNDED[name] - 1))]


def dirty():
    """Leave garbage in the memory which the next arrays will reuse."""
    a = [np.full(k, 7.5) for k in range(1, 40)]
    del a


@st.composite
def cases(draw, banks=False):
    g = draw(st.one_of(graph(min_n=2, max_n=7, directed=False, connected=True, kinds=["float", "int", "scaled"]), graph(min_n=1, max_n=7, directed=False, kinds=["ones", "int", "float", "scaled"])))
    n = g["n"]
    ns = draw(upto(0, 3, 20))
    size = n * max(ns, 1)
    return {"g": g, "lap": draw(LAP), "kernel": draw(st.one_of(kernel(["gauss", "heat", "cos", "poly"]), st.tuples(st.just("Heat"), st.integers(1, 50)), *([bank_kernel()] * banks))),
            "ns": ns, "x": draw(int_vector(size, -30, 30)), "z": draw(int_vector(n * n, -30, 30)),
            "first": draw(st.booleans()), "t": draw(st.lists(st.integers(-100, 200), min_size=1, max_size=draw(upto(6, 6, 40)))), "three": draw(st.booleans()), "switch": draw(st.integers(0, 2)) == 0,
            "pre": draw(st.sampled_from([None, "full", "partial"])), "method": draw(st.sampled_from([None, "exact", "chebyshev"]))}


def setup(case, make):
    g = case["g"]
    L = ref_laplacian(dense(g), case["lap"])
    s = spectral_scale(L, dense(g), case["lap"])
    e = np.linalg.eigvalsh(L)
    relative = case["kernel"][0] in ("Heat", "Bank")  # to lmax
    assume(e[-1] > 1e-9 * s or not relative)
    switch = case.get("switch") and case["kernel"][0] != "Bank"
    G = build(g, lap_type=LAPS[case["lap"] == LAPS[0]] if switch else case["lap"])
    partial = not switch and case["pre"] == "partial" and not relative  # whose lmax would be estimated
    if case["pre"] and not switch:
        G.compute_fourier_basis(1 if partial else None)
    kind, p = case["kernel"][:2]
    if kind == "Bank":
        G.compute_fourier_basis()  # kernels which are relative to the exact lmax
        mother = getattr(filters, p)(G)[case["kernel"][2]]
        f = formulas(p, DEFAULTS[p], e[-1], None)[0][case["kernel"][2]]
        fn = lambda x: np.vectorize(f, otypes=[float])(x)
    elif kind == "Heat":
        mother = filters.Heat(G, p / 5)
        fn = (lambda x: np.minimum(np.exp(-p / 5 * x / e[-1]), 1))
    else:
        fn = kernel_fn(case["kernel"], s)
        mother = filters.Filter(G, fn)
    bank = make(G, mother)
    if switch:  # the bank follows the Laplacian of its graph
        x = np.array(case["x"][:g["n"]], dtype=float)
        bank.filter(x)
        bank.evaluate(G.e)
        G.compute_laplacian(case["lap"])
    if partial:
        return G, L, s, e, fn, mother, bank
    G.compute_fourier_basis()
    need(G.e.shape == e.shape, "basis")
    return G, L, s, e, fn, mother, bank


def check_gabor(case, note):
    G, L, s, e, fn, mother, bank = setup(case, filters.Gabor)
    n = G.N
    note.nontrivial(n > 2)
    note.label(case["kernel"][0], "switched Laplacian" if case.get("switch") else "same Laplacian")
    need(bank.Nf == n and len(bank) == n, "%d filters", bank.Nf)
    t = np.array(case["t"]) / 100 * s
    want = np.array([fn(t - e[k]) for k in range(n)])
    sup = norm_of(want) + norm_of(fn(np.linspace(-e[-1], e[-1], 50))) + 1e-300
    dirty()
    close(bank.evaluate(t), want, 1e-7, "kernels of the Gabor bank", ref=sup)
    U = G.U
    need(U.shape == (n, n), "basis")
    ops = [U @ (fn(e - e[k])[:, None] * U.T) for k in range(n)]
    x = np.array(case["x"], dtype=float)
    x = x.reshape(n, case["ns"]) if case["ns"] else x
    kw = {} if case["method"] is None else {"method": case["method"]}
    sc = sup * 30 * n
    dirty()
    ns = case["ns"] or 1
    sig = x.reshape(n, ns)
    want = np.stack([o @ sig for o in ops], 2)
    close(bank.filter(x.reshape(n, ns, 1) if case["ns"] else x, **kw), want.squeeze(), 1e-6, "Gabor coefficients", ref=sc)
    if case["ns"] and ns not in (1, n):
        close(bank.filter(x, **kw), want.squeeze(), 1e-6, "Gabor coefficients of a 2-d array", ref=sc)
    z = np.array(case["z"], dtype=float).reshape(n, n)
    adj = sum(ops[k] @ z[:, k] for k in range(n))
    close(np.reshape(bank.filter(z, **kw), n), adj, 1e-6, "Gabor synthesis", ref=sc * n)
    close(np.reshape(bank.synthesize(z[:, None, :], **kw), n), adj, 1e-6, "Gabor synthesis", ref=sc * n)
    F = bank.compute_frame(**kw)
    close(F, np.concatenate(ops), 1e-6, "Gabor frame", ref=sup)
    i = abs(case["t"][0]) % n
    close(np.reshape(bank.localize(i, **kw), (n, n)), np.sqrt(n) * np.stack([o[:, i] for o in ops], 1), 1e-6, "localized Gabor atoms", ref=sup * np.sqrt(n))
    two = filters.Filter(G, [fn, fn])
    raises(ValueError, lambda: filters.Gabor(G, two), "a mother bank of two filters")
    raises(ValueError, lambda: filters.Gabor(graphs.Ring(n + 3), mother), "a mother filter of another graph")


def check_modulation(case, note):
    G, L, s, e, fn, mother, bank = setup(case, lambda G, mother: filters.Modulation(G, mother, modulation_first=case["first"]))
    n = G.N
    note.nontrivial(n > 2)
    note.label("modulation first" if case["first"] else "localization first", case["kernel"][0], "switched Laplacian" if case.get("switch") else "same Laplacian")
    need(bank.Nf == n and bank.n_filters == n, "%d filters", bank.Nf)
    got = bank.filter(np.array(case["x"][:n], dtype=float)) if case["z"][0] % 2 else bank.evaluate(e)
    U, E = G.U, np.asarray(G.e)
    need(U.shape == (n, n), "basis")
    g = fn(np.maximum(E, 0))
    sup = norm_of(g) + 1e-300
    # spectra of the modulated kernels, only defined at the eigenvalues
    spec = np.zeros((n, n))
    for k in range(n):
        spec[k] = U.T @ (np.sqrt(n) * U[:, k] * (U @ g))
    close(bank.evaluate(E), spec, 1e-8, "spectra of the modulated kernels", ref=sup * n)
    if (np.diff(E) > 0).all():
        close(bank.evaluate(E[::-1].copy()), spec[:, ::-1], 1e-8, "spectra at permuted eigenvalues", ref=sup * n)
    # a second bank on the same graph is independent of the first
    fn2 = lambda x: 1 / (1 + (np.asarray(x, dtype=float) / s) ** 2)
    other = filters.Modulation(G, filters.Filter(G, fn2), modulation_first=case["first"])
    spec2 = np.array([U.T @ (np.sqrt(n) * U[:, k] * (U @ fn2(np.maximum(E, 0)))) for k in range(n)])
    close(other.evaluate(E), spec2, 1e-8, "spectra of a second bank", ref=n)
    close(bank.evaluate(E), spec, 1e-8, "spectra of the modulated kernels after another bank", ref=sup * n)
    note.label("simple spectrum" if (np.diff(E) > 1e-4 * s).all() else "repeated eigenvalues")
    off = np.array([E[-1] * 1.5 + 1, (E[0] + E[-1]) / 2])
    off = off[~np.isin(off, E)]
    need(bool(np.all(np.isnan(bank.evaluate(off)))), "defined away from the eigenvalues")
    x = np.array(case["x"][:n], dtype=float)
    keep = x.copy()
    got = bank.filter(x)
    want = np.zeros((n, n))
    if case["first"]:
        for k in range(n):
            want[:, k] = U @ (spec[k] * (U.T @ x))
        close(np.reshape(got, (n, n)), want, 1e-7, "coefficients (modulation first)", ref=sup * n * 30 * n)
        if case["method"]:
            close(np.reshape(bank.filter(x, method=case["method"]), (n, n)), want, 1e-7, "coefficients (modulation first) with a method", ref=sup * n * 30 * n)
        z = np.array(case["z"], dtype=float).reshape(n, n)
        back = np.reshape(bank.filter(z), n)
        need(abs(np.sum(got * z) - x @ back) <= 1e-6 * sup * n ** 4 * 900, "synthesis is not adjoint to analysis")
        if case["ns"]:
            X = np.array(case["x"], dtype=float).reshape(n, case["ns"])
            Y = np.reshape(bank.filter(X[:, :, None]), (n, case["ns"], n))
            for j in range(case["ns"]):
                close(Y[:, j], np.reshape(bank.filter(X[:, j].copy()), (n, n)), 1e-7, "a stack differs from its signals", ref=sup * n * 30 * n)
    else:
        gL = U @ (g[:, None] * U.T)
        for i in range(n):
            for k in range(n):
                # < sqrt(N) u_k * sqrt(N) g(L) delta_i, x >
                want[i, k] = n * np.sum(U[:, k] * gL[:, i] * x)
        close(got, want, 1e-5, "coefficients (localization first)", ref=sup * n * n * 30)
        en = n * n * np.sum((gL ** 2) @ (x ** 2))
        close([np.sum(got ** 2)], [en], 1e-4, "energy of the windowed transform", ref=(sup * n * n * 30) ** 2)
        raises(ValueError, lambda: bank.filter(np.ones((n, 2))), "a stack of signals")
        raises(ValueError, lambda: bank.filter(np.ones((n, n))), "a stack of signals")
        if n > 1:
            raises(ValueError, lambda: bank.filter(np.ones((1, n))), "a row")
        raises(ValueError, lambda: bank.filter(np.ones((n, 1, 2))), "a tensor")
        for k in {n + 1, n - 1, 1} - {n}:
            raises(ValueError, lambda: bank.filter(np.ones(k)), "a signal of wrong length")
    need(np.array_equal(x, keep), "the signal was modified")
    two = filters.Filter(G, [fn, fn])
    raises(ValueError, lambda: filters.Modulation(G, two), "a mother bank of two filters")
    raises(ValueError, lambda: filters.Modulation(graphs.Ring(n + 3), mother), "a mother filter of another graph")


PARTS = [
    Part("gabor", cases(True), check_gabor, quick=2600, large=150),
    Part("modulation", cases(), check_modulation, quick=3000, large=150),
]
