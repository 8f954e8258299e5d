"""C11: the banks documented as tight frames are tight."""
import numpy as np
from hypothesis import strategies as st

from pygsp import filters

from ..gens import LAP, build, close, graph, int_vector, need, norm_of, upto
from ..runner import Part

RULE = ("A random graph with an edge, Laplacian and source of lmax; a random family with random admissible parameters (including "
        "the order of Regular, the edge of Held/Simoncelli/Papadakis, the number of filters, even overlaps, dyadic scales given as list or array, "
        "complements of arbitrary banks); random frequencies in [0, lmax] together with the eigenvalues and the break points. "
        "Oracle: sum of squares is constant; exact analysis then synthesis multiplies a random signal by it. All non-trivial.")
ASSUMPTIONS = ["lmax > 0", "an even overlap for Itersine (half-overlapping windows)", "dyadic scales reaching lmax for Meyer and SimpleTight"]
FAMILIES = ["Regular", "Held", "Simoncelli", "Papadakis", "HalfCosine", "Itersine", "Meyer", "SimpleTight"]


@st.composite
def cases(draw):
    g = draw(graph(min_n=2, max_n=9, min_edges=1))
    n = g["n"]
    fam = draw(st.sampled_from(FAMILIES))
    p = {}
    if fam == "Regular":
        p["degree"] = draw(upto(0, 8, 20))
    elif fam in ("Held", "Simoncelli", "Papadakis"):
        p["a"] = draw(st.integers(1, 300)) / 100
    elif fam == "HalfCosine":
        p["Nf"] = draw(upto(3, 15, 60))
    elif fam == "Itersine":
        p["overlap"] = draw(st.sampled_from([2, 2, 4, 6, 8, 12]))
        p["Nf"] = draw(upto(p["overlap"], 15, 60))
    else:
        p["Nf"] = draw(upto(2, 10, 30))
        p["scales"] = draw(st.sampled_from([None, "list", "array"]))
        p["c"] = draw(st.integers(10, 100)) / 100
    if draw(st.integers(0, 3)) == 0:
        p = {k: v for k, v in p.items() if k == "c"}
        p["default"] = True
    return {"g": g, "lap": draw(LAP), "lmax": draw(st.sampled_from(["fourier", "bounds"])), "fam": fam, "p": p,
            "t": draw(int_vector(draw(upto(1, 12, 300)), 0, 1000)),
            "x": draw(int_vector(2 * n, -30, 30))}


def make(G, fam, p):
    p = dict(p)
    c = p.pop("c", 1.0)
    if p.pop("default", False):
        return getattr(filters, fam)(G)
    kind = p.pop("scales", None)
    if kind:
        top = {"Meyer": 4 / 3, "SimpleTight": 1 / 2}[fam]
        s = [c * top / G.lmax * 2 ** k for k in range(p["Nf"] - 2, -1, -1)]
        p["scales"] = s if kind == "list" else np.array(s)
    return getattr(filters, fam)(G, **p)


def check(case, note):
    G = build(case["g"], lap_type=case["lap"])
    G.compute_fourier_basis() if case["lmax"] == "fourier" else G.estimate_lmax("bounds")
    fam, p = case["fam"], case["p"]
    filt = make(G, fam, p)
    note.label(fam, "default" if p.get("default") else "parameters")
    Nf = p.get("Nf", {"HalfCosine": 6, "Itersine": 6, "Meyer": 6, "SimpleTight": 6}.get(fam, 2))
    need(filt.Nf == Nf and len(filt) == Nf and filt.n_filters == Nf, "%s filters", filt.Nf)
    lmax = G.lmax
    e = np.linalg.eigvalsh(G.L.toarray())
    freqs = np.concatenate([np.array(case["t"]) / 1000 * lmax, e[(e <= lmax) & (e >= 0)], np.linspace(0, lmax, 25),
                            lmax * np.arange(0, Nf) / max(Nf - 2, 1)])
    if "a" in p:
        freqs = np.concatenate([freqs, [p["a"] * lmax / 2, p["a"] * lmax, p["a"] * 5 / 6 * lmax]])
    freqs = freqs[freqs <= lmax]
    y = filt.evaluate(freqs)
    need(y.shape == (Nf, len(freqs)), "shape %s", y.shape)
    need(bool(np.all(np.isfinite(y))), "response not finite: %s", y)
    const = 9 / 8 if fam == "HalfCosine" else 1.0
    tot = np.sum(y ** 2, axis=0)
    k = int(np.argmax(np.abs(tot - const)))
    need(abs(tot[k] - const) < 1e-9, "%s is not tight: sum of squares %r at %r of lmax", fam, tot[k], freqs[k] / lmax)
    need(bool(np.all(y >= -1e-12)), "negative response")
    # arrangement: which filters pass the null frequency and lmax
    ends = filt.evaluate(np.array([0.0, lmax]))
    if fam in ("Held", "Simoncelli", "Papadakis"):
        close(ends[:, 0], [1, 0], 1e-9, "low-pass first, high-pass second", ref=1)
        width = {"Held": 2, "Simoncelli": 2, "Papadakis": 5 / 3}[fam]
        a = p.get("a", {"Held": 2 / 3, "Simoncelli": 2 / 3, "Papadakis": 0.75}[fam])
        if a * width < 2:
            close(ends[:, 1], [0, 1], 1e-9, "at lmax", ref=1)
        o = np.argsort(freqs)
        need(bool(np.all(np.diff(y[0][o]) <= 1e-7)), "the low-pass response is not decreasing")
    elif fam == "Regular":
        close(ends, [[0, 1], [1, 0]], 1e-7, "arrangement", ref=1)
    elif fam in ("Meyer", "SimpleTight"):
        want = np.zeros(Nf)
        want[0] = 1
        close(ends[:, 0], want, 1e-9, "only the scaling function passes the null frequency", ref=1)
        grid = filt.evaluate(np.linspace(0, lmax, 400))
        last = np.argmax(grid, axis=1)[grid.max(axis=1) > 1e-6]
        need(bool(np.all(np.diff(last) >= 0)), "wavelets are not ordered by frequency: %s", last)
    else:
        peak = np.argmax(filt.evaluate(np.linspace(0, lmax, 400)), axis=1)
        need(bool(np.all(np.diff(peak) >= 0)), "translates are not ordered by frequency: %s", peak)
    A, B = filt.estimate_frame_bounds()
    close([A, B], [const, const], 1e-9, "frame bounds")
    G.compute_fourier_basis()
    if G.e[-1] <= lmax:
        A, B = filt.estimate_frame_bounds(G.e)
        close([A, B], [const, const], 1e-9, "frame bounds at the eigenvalues")
        x = np.array(case["x"], dtype=float).reshape(G.N, 2)
        c = filt.analyze(x[:, :, None], method="exact")
        close([np.sum(c ** 2)], [const * np.sum(x ** 2)], 1e-8, "energy", ref=const * np.sum(x ** 2) + 1)
        back = filt.synthesize(c.reshape(G.N, 2, Nf), method="exact")
        close(np.reshape(back, (G.N, 2)), const * x, 1e-8, "analysis then synthesis", ref=norm_of(x) + 1)


# ------------------------------------------------- tight by complement
@st.composite
def comp_cases(draw):
    g = draw(graph(min_n=2, max_n=8, min_edges=1))
    return {"g": g, "lap": draw(LAP), "base": draw(st.sampled_from(["Heat", "Heat2", "Abspline", "MexicanHat", "Expwin", "Rectangular", "Wave", "Itersine3"])),
            "nf": draw(st.integers(2, 6)), "v": draw(st.integers(1, 50)) / 10, "extra": draw(st.sampled_from([None, 0.0, 0.5, 3.0])),
            "t": draw(int_vector(draw(upto(1, 12, 300)), 0, 1000)),
            "x": draw(st.lists(st.integers(-30, 30), min_size=g["n"], max_size=g["n"]))}


def base_bank(G, case):
    b, v, nf = case["base"], case["v"], case["nf"]
    return {"Heat": lambda: filters.Heat(G, v), "Heat2": lambda: filters.Heat(G, [v, 2 * v, 0.1]),
            "Abspline": lambda: filters.Abspline(G, nf), "MexicanHat": lambda: filters.MexicanHat(G, nf),
            "Expwin": lambda: filters.Expwin(G, band_max=v / 5, slope=v), "Rectangular": lambda: filters.Rectangular(G, v / 10, v / 5),
            "Wave": lambda: filters.Wave(G, [v, 10], 1.5), "Itersine3": lambda: filters.Itersine(G, 6, 3)}[b]()


def check_comp(case, note):
    G = build(case["g"], lap_type=case["lap"])
    G.compute_fourier_basis()
    bank = base_bank(G, case)
    sq = np.sum(bank.evaluate(G.e) ** 2, axis=0)
    top = np.sum(bank.evaluate(np.linspace(0, G.lmax, 3000)) ** 2, axis=0).max() * (1 + 1e-3) + 1e-3
    bound = None if case["extra"] is None else top + case["extra"]
    comp = bank.complement(bound)
    tight = bank + comp
    need(comp.Nf == 1 and tight.Nf == bank.Nf + 1, "%s + %s filters", comp.Nf, tight.Nf)
    note.label(case["base"], "given bound" if bound is not None else "smallest bound")
    f = np.concatenate([np.array(case["t"]) / 1000 * G.lmax, G.e])
    tot = np.sum(tight.evaluate(f) ** 2, axis=0)
    want = bound if bound is not None else np.sum(bank.evaluate(f) ** 2, axis=0).max()
    close(tot, np.full(len(f), want), 1e-9, "complemented bank is not tight", ref=max(want, 1e-3))
    A, B = tight.estimate_frame_bounds(G.e)
    want = bound if bound is not None else sq.max()
    close([A, B], [want, want], 1e-9, "frame bounds of the complemented bank", ref=max(want, 1e-3))
    x = np.array(case["x"], dtype=float)
    c = tight.analyze(x, method="exact")
    back = tight.synthesize(c.reshape(G.N, 1, tight.Nf), method="exact")
    close(np.reshape(back, G.N), want * x, 1e-7, "analysis then synthesis", ref=(want + 1) * (norm_of(x) + 1))


PARTS = [
    Part("families", cases(), check, quick=6250, large=300),
    Part("complement", comp_cases(), check_comp, quick=2500, large=300),
]
