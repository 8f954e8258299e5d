"""C08: derived quantities never go stale, over histories of calls."""
import numpy as np
from hypothesis import strategies as st

from pygsp import features, filters, learning

from ..gens import LAP, build, close, dense, graph, lap_scale, need, null_spectrum, raises, ref_components, ref_laplacian, ref_reach, ref_sym
from ..runner import Part
from .c07 import truth

RULE = ("A random graph and a random history of up to 14 public operations (queries, computations, partial bases, "
        "Laplacian switches, failing calls, filtering with long-lived filters). After every operation the quantity "
        "concerned, and at the end every quantity, is compared with the definition for the current Laplacian. "
        "Non-trivial: an edge, and a Laplacian switch or failed call after something was cached.")
ASSUMPTIONS = ["non-negative weights", "relative tolerance 1e-7"]

OPS = ["A", "d", "dw", "L", "D", "e", "U", "coherence", "lmax", "lanczos", "bounds", "fourier", "partial",
       "connected", "directed", "edges", "grad", "div", "energy", "gft", "igft", "exact", "cheby", "frame",
       "subgraph", "components", "switch-combinatorial", "switch-normalized", "switch-combinatorial", "switch-normalized",
       "same", "bad-lap", "bad-lmax", "bad-signal", "bad-gft", "bad-W", "set-signal", "repr", "bounds-frame", "inplace-result",
       "bank", "tikhonov", "heat", "gabor", "modulation", "localize", "norm-tig", "grad", "components", "subgraph"]


BANKS = {  # these read the bound on the spectrum of the graph when they are evaluated
    "Expwin": lambda G: filters.Expwin(G, band_max=0.4), "Rectangular": lambda G: filters.Rectangular(G, band_max=0.4),
    "Held": filters.Held, "Papadakis": filters.Papadakis, "Regular": filters.Regular, "Simoncelli": filters.Simoncelli,
    "Wave": lambda G: filters.Wave(G, time=[1, 4]), "Heat": lambda G: filters.Heat(G, scale=[1, 4])}


def poly(x):
    return 3 - x + 0.25 * x ** 2


@st.composite
def cases(draw):
    g = draw(graph(min_n=draw(st.sampled_from([1, 3, 4, 5])), max_n=8, loops=True, kinds=["ones", "int", "float"]))
    ops = draw(st.lists(st.sampled_from(OPS), min_size=draw(st.sampled_from([2, 4, 8])), max_size=12))
    for op in draw(st.lists(st.sampled_from(["switch-combinatorial", "switch-normalized", "bad-lap", "bad-lmax", "partial"]), max_size=4)):
        ops.insert(draw(st.integers(0, len(ops))), op)
    return {"g": g, "lap": draw(LAP), "ops": ops, "bank": draw(st.sampled_from(sorted(BANKS))),
            "k": draw(st.integers(1, max(1, g["n"] - 1))), "x": draw(st.lists(st.integers(-9, 9), min_size=g["n"], max_size=g["n"]))}


class Model:
    def __init__(self, case):
        self.g = case["g"]
        self.W = dense(self.g)
        self.n = self.g["n"]
        self.lap = case["lap"]
        self.method = None
        self.have = 0
        self.x = np.array(case["x"], dtype=float)
        self.coords = np.arange(2 * self.n, dtype=float).reshape(-1, 2)
        self.signals = {"first": np.arange(self.n) * 1.5}

    def refresh(self):
        self.L = ref_laplacian(self.W, self.lap)
        self.scale = lap_scale(self.W, self.lap)
        self.directed = bool(np.any(self.W != self.W.T))


def verify(q, G, m, filt):
    n, L, s, x, W = m.n, m.L, m.scale, m.x, m.W
    if q == "A":
        need(np.array_equal(G.A.toarray(), W > 0), "A is stale")
    elif q == "d":
        close(G.d, ((W != 0).sum(0) + (W != 0).sum(1)) / 2, 1e-12, "d")
    elif q == "dw":
        close(G.dw, ref_sym(W).sum(0), 1e-9, "dw", ref=np.abs(W).max() * n)
    elif q == "L":
        close(G.L, L, 1e-9, "L", ref=s)
        need(G.lap_type == m.lap, "lap_type %s", G.lap_type)
    elif q == "D" or q in ("grad", "div"):
        D = G.D.toarray()
        need(D.shape == (n, G.n_edges), "shape of D")
        close(D @ D.T, L, 1e-9, "D is stale", ref=s)
        if q == "grad":
            close(G.grad(x), D.T @ x, 1e-9, "grad", ref=np.sqrt(s) * 20)
        elif q == "div":
            close(G.div(np.ones(G.n_edges)), D @ np.ones(G.n_edges), 1e-9, "div", ref=np.sqrt(s) * n)
    elif q in ("e", "U", "coherence", "gft", "igft"):
        if m.have == 0 or q == "coherence":
            m.have, m.method = (n, "fourier") if m.have < n else (n, m.method)
        if q == "coherence":
            c = G.coherence
            close(c, np.abs(G.U).max(), 1e-12, "coherence")
        e, U = G.e, G.U
        k = m.have
        need(e.shape == (k,) and U.shape == (n, k), "basis of size %s, expected %s", U.shape, k)
        tol = 1e-8 if k == n else 1e-5
        close(e, np.linalg.eigvalsh(L)[:k], tol, "e is stale", ref=s)
        close(L @ U, U * e, tol, "U is stale", ref=s)
        if q == "gft":
            close(G.gft(x), U.T @ x, 1e-9, "gft", ref=20 * n)
        elif q == "igft" and k == n:
            close(G.igft(x), U @ x, 1e-9, "igft", ref=20 * n)
    elif q in ("lmax", "lanczos", "bounds", "fourier"):
        lam = truth(W, m.lap)
        got = G.lmax
        need(got is not None and np.isfinite(got), "lmax is %r", got)
        tiny = 1e-9 * s
        if m.method == "fourier":
            close(got, lam, 1e-9, "lmax is stale", ref=s)
        elif m.method == "lanczos":
            low = 1 - 1e-6 if len(W) <= 10 else 0.8  # the iterative solver converges to an eigenvalue
            need(lam * low - tiny <= got <= lam * 1.01 * (1 + 1e-6) + tiny, "lmax %r is stale: largest eigenvalue %r", got, lam)
            err = np.abs(got / 1.01 - np.linalg.eigvalsh(L)).min()
            need(err <= 0.01 * lam + tiny, "lmax %r / 1.01 is stale: not an eigenvalue", got)
        else:
            need(lam * (1 - 1e-9) - tiny <= got <= (2 if m.lap == "normalized" else 2 * ref_sym(W).sum(0).max()) * (1 + 1e-9), "lmax %r is stale: largest eigenvalue %r", got, lam)
    elif q == "connected":
        need(bool(G.is_connected()) == bool(ref_reach(W).all()), "is_connected")
    elif q == "directed":
        need(bool(G.is_directed()) == m.directed, "is_directed")
    elif q == "edges":
        a, b, w = G.get_edge_list()
        R = np.zeros((n, n))
        R[a, b] = w
        if not m.directed:
            R[b, a] = w
        need(np.array_equal(R, W), "edge list")
    elif q == "energy":
        close(G.dirichlet_energy(x), x @ L @ x, 1e-9, "energy", ref=s * 100 * n)
    elif q in ("exact", "cheby", "frame"):
        want = 3 * np.eye(n) - L + 0.25 * L @ L
        sc = (1 + s) ** 2 * 20 * n
        if q == "cheby":
            if m.method is None:
                m.method = "lanczos"
            if null_spectrum(G, s):
                return
            close(np.reshape(filt.filter(x, order=4), n), want @ x, 1e-9, "polynomial filter", ref=sc)
        else:
            if m.have < n:
                m.have, m.method = n, "fourier"
            if q == "exact":
                close(np.reshape(filt.filter(x, method="exact"), n), want @ x, 1e-8, "exact filter", ref=sc)
            else:
                close(filt.compute_frame(method="exact"), want, 1e-8, "frame", ref=sc)
    elif q == "bounds-frame":
        if m.method is None:
            m.method = "lanczos"
        A, B = filt.estimate_frame_bounds()
        v = poly(np.linspace(0, G.lmax, 1000)) ** 2
        close([A, B], [v.min(), v.max()], 1e-9, "frame bounds")
    elif q == "tikhonov":
        got = learning.regression_tikhonov(G, x.copy(), np.ones(n, dtype=bool), tau=0.5)
        close(got, np.linalg.solve(np.eye(n) + 0.5 * L, x), 5e-5, "denoised signal", ref=np.linalg.norm(x) + 1e-9)  # conjugate gradients stop at 1e-5
    elif q == "bank":
        m.method = m.method or "lanczos"
        if G.lmax > 1e-9 * s:
            at = np.linspace(0, 1, 12) * G.lmax
            close(m.banks[q].evaluate(at), BANKS[m.bank](G).evaluate(at), 1e-9, "long-lived %s bank" % m.bank, ref=1)
    elif q in ("heat", "gabor", "modulation", "norm-tig"):
        if m.have < n:
            m.have, m.method = n, "fourier"
        if q == "heat":
            G.compute_fourier_basis()
            if G.lmax <= 1e-9 * s:  # the kernel is drawn relative to lmax
                return
        if q == "norm-tig":
            want = 3 * np.eye(n) - L + 0.25 * L @ L
            close(np.reshape(features.compute_norm_tig(filt, method="exact"), n), np.linalg.norm(want, axis=0), 1e-8, "norms of localized kernels", ref=(1 + s) ** 2 * n)
            return
        got = m.banks[q].filter(x, method="exact")
        e, U = np.maximum(np.linalg.eigvalsh(L), 0), G.U
        if q == "heat":
            close(np.reshape(got, n), U @ (np.exp(-5 * e / G.lmax) * (U.T @ x)), 1e-8, "long-lived heat kernel", ref=20 * n)
        elif q == "gabor":
            want = np.stack([U @ (np.exp(-((e - e[k]) / s) ** 2) * (U.T @ x)) for k in range(n)], 1)
            close(np.reshape(got, (n, n)), want, 1e-7, "long-lived Gabor bank", ref=20 * n)
        else:
            g = U @ np.exp(-(e / s) ** 2)
            want = np.stack([U @ ((U.T @ (np.sqrt(n) * U[:, k] * g)) * (U.T @ x)) for k in range(n)], 1)
            close(np.reshape(got, (n, n)), want, 1e-7, "long-lived modulation bank", ref=20 * n * n)
    elif q == "localize":
        if m.have < n:
            m.have, m.method = n, "fourier"
        want = 3 * np.eye(n) - L + 0.25 * L @ L
        close(np.reshape(filt.localize(0, method="exact"), n), np.sqrt(n) * want[:, 0], 1e-8, "localized kernel", ref=(1 + s) ** 2 * n)
    elif q == "subgraph":
        idx = list(range(0, n, 2))
        close(G.subgraph(idx).L, ref_laplacian(W[np.ix_(idx, idx)], m.lap), 1e-9, "Laplacian of a subgraph", ref=s)
    elif q == "components":
        if not m.directed:
            need(len(G.extract_components()) == len(ref_components(W)), "components")
    elif q == "repr":
        repr(G), repr(filt)


def check(case, note):
    m = Model(case)
    G = build(m.g, lap_type=m.lap, coords=m.coords.copy(), plotting={"vertex_size": 7})
    G.set_signal(m.signals["first"].copy(), "first")
    filt = filters.Filter(G, poly)
    m.refresh()
    m.bank = case["bank"]
    m.banks = {"heat": filters.Heat(G, 5), "bank": BANKS[m.bank](G)}
    gauss = filters.Filter(G, lambda t: np.exp(-(t / m.scale) ** 2))
    m.banks["gabor"], m.banks["modulation"] = filters.Gabor(G, gauss), filters.Modulation(G, gauss, modulation_first=True)
    late = False
    done = 0
    for op in case["ops"]:
        if op.startswith("switch-") or op == "same":
            new = m.lap if op == "same" else op.split("-")[1]
            G.compute_laplacian(new)
            if new != m.lap:
                late = late or done > 0
                note.label("switch")
                m.lap, m.method, m.have = new, None, 0
                m.refresh()
            verify("L", G, m, filt)
        elif op == "bad-lap":
            raises(ValueError, lambda: G.compute_laplacian("unknown"), "unknown Laplacian")
            late = late or done > 0
            verify("L", G, m, filt)
        elif op == "bad-lmax":
            raises(ValueError, lambda: G.estimate_lmax("unknown"), "unknown method")
            late = late or done > 0
        elif op == "bad-signal":
            raises(ValueError, lambda: G.set_signal(np.zeros(m.n + 1), "bad"), "signal of wrong length")
        elif op == "bad-gft":
            if m.have in (0, m.n):
                raises(ValueError, lambda: G.gft(np.zeros(m.n + 1)), "signal of wrong length")
        elif op == "bad-W":
            def assign():
                G.W = np.zeros((m.n, m.n))
            raises(AttributeError, assign, "assignment of W")
        elif op == "set-signal":
            G.set_signal(m.x.copy(), "second")
            m.signals["second"] = m.x
        elif op in ("lanczos", "bounds"):
            G.estimate_lmax(op)
            m.method = op
            verify(op, G, m, filt)
        elif op == "fourier":
            G.compute_fourier_basis()
            if m.have < m.n:
                m.have, m.method = m.n, "fourier"
            verify("e", G, m, filt)
            if m.method is None:
                m.method = "lanczos"
            verify("lmax", G, m, filt)
        elif op == "partial":
            k = min(case["k"], m.n)
            G.compute_fourier_basis(k)
            if k > m.have:
                m.have = k
                if k == m.n:
                    m.method = "fourier"
            verify("e", G, m, filt)
        elif op == "lmax":
            m.method = m.method or "lanczos"
            verify("lmax", G, m, filt)
        elif op == "inplace-result":
            y = G.gft(m.x) if m.have in (0, m.n) else None
            if m.have == 0:
                m.have, m.method = m.n, "fourier"
            z = G.grad(m.x)
            z += 1
            if y is not None:
                y += 1
        else:
            verify(op, G, m, filt)
        done += 1
    note.nontrivial(late and bool(m.g["edges"]))
    note.label("final " + m.lap, "directed" if m.directed else "undirected")
    m.method = m.method or "lanczos"
    for q in ["lmax", "L", "A", "d", "dw", "D", "grad", "div", "connected", "directed", "edges", "energy", "cheby", "bounds-frame", "e", "exact", "tikhonov", "bank", "heat", "gabor", "modulation", "coherence", "U", "lmax", "components"]:
        verify(q, G, m, filt)
    need(np.array_equal(G.W.toarray(), m.W), "W changed")
    need(np.array_equal(G.coords, m.coords), "coords changed")
    need(set(G.signals) == set(m.signals), "signals changed: %s", list(G.signals))
    for k, v in m.signals.items():
        need(np.array_equal(G.signals[k], v), "signal %s changed", k)
    need(G.n_vertices == m.n and G.N == m.n, "n_vertices changed")
    need(G.plotting["vertex_size"] == 7, "plotting options changed")


PARTS = [Part("history", cases(), check, quick=6000, large=300)]
