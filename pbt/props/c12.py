"""C12: built-in kernels equal their documented formulas."""
import math

import numpy as np
from hypothesis import strategies as st

from pygsp import filters

from .. import gens
from ..gens import LAP, build, close, graph, need, raises, rng, upto
from ..runner import Part

RULE = ("A random graph with an edge, source of lmax, built-in filter and parameters (scalar, list, tuple or array where iterables are accepted); "
        "responses at up to 12 random frequencies in [0, lmax] compared one by one with scalar (math module) implementations of the "
        "documented formulas, and for element-wise evaluation on scalars, lists and 2-d arrays. All cases are non-trivial.")
ASSUMPTIONS = ["lmax > 0", "frequencies within rounding of a discontinuity are not compared"]
NAMES = ["Heat", "Heat", "Wave", "Wave", "Rectangular", "Expwin", "MexicanHat", "Abspline", "Itersine", "HalfCosine", "Meyer",
         "SimpleTight", "Regular", "Held", "Simoncelli", "Papadakis"]


def opt(s):
    return st.one_of(st.none(), s)


@st.composite
def params(draw, name):
    if name == "Heat":
        k = draw(upto(0, 5, 30))
        v = [x / 10 for x in draw(st.lists(st.integers(0, 300), min_size=max(k, 1), max_size=max(k, 1)))]
        return {"scale": v[0] if k == 0 else v, "normalize": draw(st.booleans())}
    if name == "Wave":
        k = draw(upto(1, 4, 30))
        form = draw(st.sampled_from(["ss", "ls", "sl", "ll", "1l", "l1"]))
        t = [x / 10 for x in draw(st.lists(st.integers(0, 300), min_size=k, max_size=k))]
        v = [x / 100 for x in draw(st.lists(st.integers(0, 199), min_size=k, max_size=k))]
        return {"time": {"s": t[0], "l": t, "1": t[:1]}[form[0]], "speed": {"s": v[0], "l": v, "1": v[:1]}[form[1]]}
    band = st.integers(-4, 24).map(lambda x: x / 20)
    if name in ("Rectangular", "Expwin"):
        p = {"band_min": draw(opt(band)), "band_max": draw(opt(band))}
        if name == "Expwin":
            p["slope"] = draw(st.one_of(st.integers(1, 60).map(lambda v: v / 5), st.integers(12, 5000)))
        return p
    if name in ("MexicanHat", "Abspline"):
        nf = draw(upto(2, 8, 40))
        p = {"Nf": nf, "lpfactor": draw(st.integers(2, 40)), "scales": draw(st.one_of(st.none(), st.lists(st.integers(1, 50).map(lambda x: x / 10), min_size=nf - 1, max_size=nf - 1)))}
        if name == "MexicanHat":
            p["normalize"] = draw(st.booleans())
        return p
    if name == "Itersine":
        o = draw(upto(1, 5, 10))
        return {"Nf": draw(upto(o, 10, 40)), "overlap": o}
    if name == "HalfCosine":
        return {"Nf": draw(upto(3, 10, 40))}
    if name in ("Meyer", "SimpleTight"):
        nf = draw(upto(2, 8, 40))
        return {"Nf": nf, "scales": draw(st.one_of(st.none(), st.lists(st.integers(1, 50).map(lambda x: x / 10), min_size=nf - 1, max_size=nf - 1)))}
    if name == "Regular":
        return {"degree": draw(upto(0, 8, 20))}
    return {"a": draw(st.integers(2, 300)) / 100}


@st.composite
def cases(draw):
    g = draw(graph(min_n=2, max_n=6, min_edges=1))
    name = draw(st.sampled_from(NAMES))
    t = draw(rng()).integers(0, 998, draw(st.integers(1, 600))).tolist() if gens.LARGE else draw(st.lists(st.integers(0, 997), min_size=1, max_size=12))
    return {"g": g, "lap": draw(LAP), "lmax": draw(st.sampled_from(["fourier", "bounds", "lanczos"])), "name": name,
            "default": draw(st.integers(0, 9)) == 0, "p": draw(params(name)), "t": t, "seq": draw(st.sampled_from(["list", "tuple", "array"]))}


DEFAULTS = {"Heat": {"scale": 10, "normalize": False}, "Wave": {"time": 10, "speed": 1}, "Rectangular": {"band_min": None, "band_max": 0.2},
            "Expwin": {"band_min": None, "band_max": 0.2, "slope": 1}, "MexicanHat": {"Nf": 6, "lpfactor": 20, "scales": None, "normalize": False},
            "Abspline": {"Nf": 6, "lpfactor": 20, "scales": None}, "Itersine": {"Nf": 6, "overlap": 2}, "HalfCosine": {"Nf": 6},
            "Meyer": {"Nf": 6, "scales": None}, "SimpleTight": {"Nf": 6, "scales": None}, "Regular": {"degree": 3},
            "Held": {"a": 2 / 3}, "Simoncelli": {"a": 2 / 3}, "Papadakis": {"a": 0.75}}


def as_list(v):
    return list(v) if isinstance(v, list) else [v]


def formulas(name, p, lmax, e):
    """Scalar functions of the frequency, written from the documentation; and points to stay away from."""
    ln = math.log
    if name == "Heat":
        out = []
        for s in as_list(p["scale"]):
            n = math.sqrt(sum(math.exp(-2 * s * x / lmax) for x in e)) if p["normalize"] else 1
            out.append(lambda x, s=s, n=n: math.exp(-s * x / lmax) / n)
        return out, []
    if name == "Wave":
        t, v = as_list(p["time"]), as_list(p["speed"])
        k = max(len(t), len(v))
        t, v = t * k if len(t) == 1 else t, v * k if len(v) == 1 else v
        return [lambda x, a=a, b=b: math.cos(a * math.acos(1 - b * b / 2 * x / lmax)) for a, b in zip(t, v)], []
    if name == "Rectangular":
        lo = -math.inf if p["band_min"] is None else p["band_min"]
        hi = math.inf if p["band_max"] is None else p["band_max"]
        return [lambda x: 1.0 if lo <= x / lmax <= hi else 0.0], [lo * lmax, hi * lmax]
    if name == "Expwin":
        def h(x):  # phi(x) / (phi(x) + phi(1 - x)), phi(x) = exp(-slope / x) if x > 0 else 0
            if not 0 < x < 1:
                return float(x > 0)
            d = p["slope"] * (1 / x - 1 / (1 - x))
            return 0.0 if d > 700 else 1 / (1 + math.exp(d))

        def win(x):
            y = 1.0
            if p["band_max"] is not None:
                y *= h(0.5 + p["band_max"] - x / lmax)
            if p["band_min"] is not None:
                y *= h(0.5 - p["band_min"] + x / lmax)
            return y
        return [win], []
    if name in ("MexicanHat", "Abspline"):
        lmin, nf = lmax / p["lpfactor"], p["Nf"]
        sc = p["scales"]
        if sc is None:  # geometric from 2 / lmin to 1 / lmax
            r = (1 / lmax) / (2 / lmin)
            sc = [2 / lmin * r ** (i / (nf - 2)) if nf > 2 else 2 / lmin for i in range(nf - 1)]
        if name == "MexicanHat":
            fs = [lambda x: 1.2 / math.e * math.exp(-(x / 0.4 / lmin) ** 4)]
            return fs + [lambda x, s=s: (math.sqrt(s) if p["normalize"] else 1) * s * x * math.exp(-s * x) for s in sc], []

        def gb(x):
            return x * x if x <= 1 else -5 + 11 * x - 6 * x * x + x ** 3 if x < 2 else 4 / (x * x)
        top = gb(2 - 1 / math.sqrt(3))
        return [lambda x: top * math.exp(-(x / 0.6 / lmin) ** 4)] + [lambda x, s=s: gb(s * x) for s in sc], []
    if name == "Itersine":
        nf, o = p["Nf"], p["overlap"]
        s = lmax / (nf - o + 1) * o

        def it(x, k):
            u = x / s - (k - o / 2) / o
            return math.sqrt(2 / o) * math.sin(math.pi / 2 * math.cos(math.pi * u) ** 2) if abs(u) <= 0.5 else 0.0
        return [lambda x, k=k: it(x, k) for k in range(1, nf + 1)], []
    if name == "HalfCosine":
        nf = p["Nf"]
        d = 3 * lmax / (nf - 2)

        def hc(x, i):
            u = x - d / 3 * (i - 2)
            return 0.5 + 0.5 * math.cos(2 * math.pi * (u / d - 0.5)) if 0 <= u <= d else 0.0
        return [lambda x, i=i: hc(x, i) for i in range(nf)], []
    if name == "Meyer":
        nf, sc = p["Nf"], p["scales"]
        sc = [4 / (3 * lmax) * 2 ** i for i in range(nf - 2, -1, -1)] if sc is None else sc

        def v(x):
            return x ** 4 * (35 - 84 * x + 70 * x ** 2 - 20 * x ** 3)

        def up(x):
            return math.pi / 2 * v(1.5 * x - 1)

        def down(x):
            return math.pi / 2 * v(0.75 * x - 1)

        def sf(x):
            return 1.0 if x < 2 / 3 else math.cos(up(x)) if x < 4 / 3 else 0.0

        def wl(x):
            return 0.0 if x < 2 / 3 else math.sin(up(x)) if x < 4 / 3 else math.cos(down(x)) if x < 8 / 3 else 0.0
        return [lambda x: sf(sc[0] * x)] + [lambda x, s=s: wl(s * x) for s in sc], []
    if name == "SimpleTight":
        nf, sc = p["Nf"], p["scales"]
        sc = [1 / (2 * lmax) * 2 ** i for i in range(nf - 2, -1, -1)] if sc is None else sc

        def h(x):
            return math.sin(math.pi / 2 * x) ** 2

        def sf(x):
            return 1.0 if x < .25 else math.sqrt(max(0, 1 - h(4 * x - 1) ** 2)) if x < .5 else 0.0

        def wl(x):
            return 0.0 if x < .25 else h(4 * x - 1) if x < .5 else math.sqrt(max(0, 1 - h(2 * x - 1) ** 2)) if x < 1 else 0.0
        return [lambda x: sf(sc[0] * x)] + [lambda x, s=s: wl(s * x) for s in sc], []

    def pair(f):
        return [lambda x: f(2 * x / lmax), lambda x: math.sqrt(max(0, 1 - f(2 * x / lmax) ** 2))], []
    if name == "Regular":
        def reg(x):
            if p["degree"] == 0:
                return math.sin(math.pi / 4 * x)
            u = x - 1
            for _ in range(p["degree"]):
                u = math.sin(math.pi / 2 * u)
            return math.sin(math.pi / 4 * (1 + u))
        return pair(reg)
    a = p["a"]
    if name == "Held":
        def mu(x):
            return -1 + 24 * x - 144 * x ** 2 + 256 * x ** 3
        return pair(lambda x: 1.0 if x <= a else math.sin(2 * math.pi * mu(x / (8 * a))) if x <= 2 * a else 0.0)
    if name == "Simoncelli":
        return pair(lambda x: 1.0 if x <= a else math.cos(math.pi / 2 * ln(x / a) / ln(2)) if x <= 2 * a else 0.0)
    if name == "Papadakis":
        return pair(lambda x: 1.0 if x <= a else math.sqrt(max(0, (1 - math.sin(3 * math.pi / (2 * a) * x)) / 2)) if x <= 5 * a / 3 else 0.0)
    raise ValueError(name)


def check(case, note):
    G = build(case["g"], lap_type=case["lap"])
    name = case["name"]
    p = dict(DEFAULTS[name] if case["default"] else case["p"])
    norm = p.get("normalize") and name == "Heat"
    if case["lmax"] == "fourier":
        G.compute_fourier_basis(1 if norm else None)
    else:
        G.estimate_lmax(case["lmax"])
    seq = {"list": list, "tuple": tuple, "array": np.array}[case["seq"]]
    args = {k: seq(v) if isinstance(v, list) else v for k, v in p.items()}
    keep = {k: list(v) if isinstance(p[k], list) else v for k, v in args.items()}
    filt = getattr(filters, name)(G) if case["default"] else getattr(filters, name)(G, **args)
    need({k: list(v) if isinstance(p[k], list) else v for k, v in args.items()} == keep, "parameters modified")
    lmax, e = G.lmax, None
    if norm:
        e = list(np.asarray(G.e))
        need(len(e) == G.N, "normalized over %d eigenvalues", len(e))
        lmax = G.lmax
    fs, avoid = formulas(name, p, lmax, e)
    note.label(name, "default" if case["default"] else "several" if len(fs) > 1 else "one")
    need(filt.Nf == len(fs), "%d filters, expected %d", filt.Nf, len(fs))
    freqs = [v / 997 * lmax for v in case["t"]]
    freqs = [v for v in freqs if all(abs(v - b) > 1e-9 * lmax for b in avoid)] + [lmax * (1 - 1e-7)]
    y = filt.evaluate(np.array(freqs))
    want = np.array([[f(x) for x in freqs] for f in fs])
    need(y.shape == want.shape, "shape %s, expected %s", y.shape, want.shape)
    tol = 1e-7
    for i in range(len(fs)):
        close(y[i], want[i], tol, f"response of filter {i} of {name}({p}) at {[x / lmax for x in freqs]} lmax", ref=max(1, np.abs(want[i]).max()))
    if p.get("normalize") and name == "Heat":
        close(np.linalg.norm(filt.evaluate(G.e), axis=1), np.ones(len(fs)), 1e-9, "unit norm")
    # edges of the rectangle belong to the band
    if name == "Rectangular":
        for b in (p["band_min"], p["band_max"]):
            ok = b is not None and 0 <= b <= 1 and (b * lmax) / lmax == b
            if ok and (p["band_min"] is None or p["band_min"] <= b) and (p["band_max"] is None or b <= p["band_max"]):
                need(filt.evaluate(np.array([b * lmax]))[0, 0] == 1, "edge %s of the band", b)
    # element-wise
    z = np.concatenate([filt.evaluate(np.array([x])) for x in freqs], axis=1)
    close(z, y, 1e-12, "one frequency at a time", ref=max(1, np.abs(y).max()))
    close(filt.evaluate(list(freqs)), y, 1e-12, "frequencies as a list", ref=max(1, np.abs(y).max()))
    close(filt.evaluate(np.array([freqs, freqs[::-1]])), np.stack([y, y[:, ::-1]], 1), 1e-12, "2-d array of frequencies", ref=max(1, np.abs(y).max()))
    close(np.stack([filt.evaluate(x) for x in freqs], 1), y, 1e-12, "scalar frequencies", ref=max(1, np.abs(y).max()))
    close(filt(np.array(freqs)), y, 1e-12, "calling the filter", ref=max(1, np.abs(y).max()))
    repr(filt)


# ------------------------------------------------------------ rejections
@st.composite
def bad_cases(draw):
    return {"what": draw(st.sampled_from(["wave-lengths", "wave-speed", "scales", "halfcosine"])), "a": draw(st.integers(2, 6)), "d": draw(st.integers(1, 3)),
            "v": draw(st.one_of(st.integers(200, 400), st.integers(-400, -1))) / 100, "name": draw(st.sampled_from(["MexicanHat", "Meyer", "SimpleTight", "Abspline"])), "less": draw(st.booleans()), "list": draw(st.booleans())}


def check_bad(case, note):
    from pygsp import graphs
    G = graphs.Graph(np.array([[0, 1.], [1, 0]]))
    G.estimate_lmax("bounds")
    a, d = case["a"], case["d"]
    w = case["what"]
    note.label(w)
    wrap = (lambda v: list(v)) if case["list"] else np.array
    if w == "wave-lengths":
        raises(ValueError, lambda: filters.Wave(G, wrap([1.0] * a), wrap([1.0] * (a + d))), "different numbers of times and speeds")
    elif w == "wave-speed":
        raises(ValueError, lambda: filters.Wave(G, 3, case["v"]), "a speed out of [0, 2[")
        raises(ValueError, lambda: filters.Wave(G, [1] * a, wrap([1.0] * (a - 1) + [case["v"]])), "one speed out of [0, 2[")
    elif w == "scales":
        k = max(a - 1 - d, 0) if case["less"] else a - 1 + d
        raises(ValueError, lambda: getattr(filters, case["name"])(G, a, scales=wrap([1.0] * k)), "wrong number of scales")
    else:
        raises(ValueError, lambda: filters.HalfCosine(G, 3 - d), "too few filters")


PARTS = [
    Part("formulas", cases(), check, quick=8000, large=300),
    Part("rejections", bad_cases(), check_bad, quick=250),
]
