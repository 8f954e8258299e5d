"""C25: graph features."""
import numpy as np
from hypothesis import strategies as st

from pygsp import features, filters

from ..gens import LAP, build, close, dense, graph, kernel, kernel_fn, need, norm_of, null_spectrum, ref_laplacian, spectral_scale, upto
from ..runner import Part

RULE = ("Random undirected graphs (edgeless, disconnected, weighted, self-loops but for degrees), either Laplacian, banks of one to four random kernels, windows (default or random) and one to forty shifts, "
        "exact or Chebyshev filtering of random order; atoms are compared with dense functions of the Laplacian (exact) or with the filtering of every delta by every single filter (Chebyshev), norms and spectrograms "
        "with the norms of their rows, average degrees with a direct count. Non-trivial: at least one edge and (for banks) several different filters.")
ASSUMPTIONS = ["non-null largest eigenvalue for the default window, which divides by it"]


@st.composite
def cases(draw):
    g = draw(graph(min_n=1, max_n=8, directed=False, loops=True))
    return {"g": g, "lap": draw(LAP), "ks": draw(st.lists(kernel(), min_size=1, max_size=draw(upto(4, 4, 12)))), "method": draw(st.sampled_from(["exact", "exact", None, "chebyshev", "order"])), "order": draw(st.integers(1, 50)),
            "i": draw(st.integers(-1, 3)), "M": draw(st.integers(1, 40)), "atom": draw(st.one_of(st.none(), kernel(kinds=["heat", "gauss", "cos", "poly"])))}


def setup(c):
    W = dense(c["g"])
    G = build(c["g"], lap_type=c["lap"])
    L = ref_laplacian(W, c["lap"])
    s = spectral_scale(L, W, c["lap"])
    kw = {"order": c["order"]} if c["method"] == "order" else ({"method": c["method"]} if c["method"] else {})
    return W, G, L, s, kw


def columns(G, fn, kw):
    """Filter every delta, one at a time."""
    g = filters.Filter(G, fn)
    return np.stack([np.reshape(g.filter(d, **kw), G.N) for d in np.eye(G.N)], axis=1)


def check(c, note):
    W, G, L, s, kw = setup(c)
    n = G.N
    if null_spectrum(G, s):
        return
    fns = [kernel_fn(k, s) for k in c["ks"]]
    bank = filters.Filter(G, fns)
    exact = c["method"] == "exact"
    note.nontrivial(bool(c["g"]["edges"]) and len({str(k) for k in c["ks"]}) == len(fns))
    note.label(c["method"] or "default", f"{len(fns)} filters", c["lap"])
    if exact:
        e, U = np.linalg.eigh(L)
        e = np.maximum(e, 0)
        refs = [(U * np.broadcast_to(f(e), e.shape)) @ U.T for f in fns]
    else:
        refs = [columns(G, f, kw).T for f in fns]
    tig = features.compute_tig(bank, **kw)
    norm = features.compute_norm_tig(bank, **kw)
    if len(fns) == 1:
        tig, norm = [tig], [norm]
    need(len(tig) == len(fns) and len(norm) == len(fns), "%d results for %d filters", len(tig), len(fns))
    for k, ref in enumerate(refs):
        sc = max(norm_of(ref), 1e-3)
        close(tig[k], ref, 1e-8, f"atoms of filter {k}", ref=sc * n)
        close(norm[k], np.sqrt((ref ** 2).sum(1)), 1e-8, f"norms of filter {k}", ref=sc * n)
        if 0 <= c["i"] == k:
            close(features.compute_tig(bank, i=k, **kw), ref, 1e-8, f"atoms of filter {k} alone", ref=sc * n)
            close(features.compute_norm_tig(bank, i=k, **kw), np.sqrt((ref ** 2).sum(1)), 1e-8, f"norms of filter {k} alone", ref=sc * n)


def spectrogram(c, note):
    W, G, L, s, kw = setup(c)
    n = G.N
    if c["method"] == "exact":
        G.compute_fourier_basis()  # which refines lmax
    lmax = G.lmax
    if null_spectrum(G, s) or (lmax <= 0 and c["atom"] is None):
        return
    M = c["M"]
    if c["atom"] is None:
        atom = None

        def ref_atom(x):
            return np.exp(-M * (x / lmax) ** 2)
    else:
        atom = ref_atom = kernel_fn(c["atom"], s)
    out = features.compute_spectrogram(G, atom=atom, M=M, **kw)
    note.nontrivial(bool(c["g"]["edges"]) and M > 1)
    note.label(c["method"] or "default", "window" if atom else "default window", c["lap"])
    need(np.shape(out) == (n, M), "shape %s", np.shape(out))
    need(np.array_equal(G.spectr, out), "not recorded in the graph")
    shifts = [lmax * k / (M - 1) for k in range(M)] if M > 1 else [0.0]
    e, U = np.linalg.eigh(L)
    e = np.maximum(e, 0)
    for k in sorted({0, M // 3, M // 2, M - 1}):
        f = lambda x, k=k: ref_atom(np.asarray(x, dtype=float) - shifts[k])
        ref = (U * np.broadcast_to(f(e), e.shape)) @ U.T if c["method"] == "exact" else columns(G, f, kw).T
        sc = max(norm_of(ref) ** 2, 1e-6) * n
        close(out[:, k], (ref ** 2).sum(1), 1e-7, f"shift {k} of {M}", ref=sc)


@st.composite
def degree_cases(draw):
    return {"g": draw(graph(min_n=1, max_n=14, directed=False, loops=False))}


def degree(c, note):
    g = c["g"]
    G = build(g)
    n = g["n"]
    nb = [set() for _ in range(n)]
    for i, j, w in g["edges"]:
        nb[i].add(j)
        nb[j].add(i)
    ref = [sum(len(nb[j]) for j in nb[i] | {i}) / (len(nb[i]) + 1) for i in range(n)]
    out = features.compute_avg_adj_deg(G)
    note.nontrivial(len({len(x) for x in nb}) > 1)
    note.label(g["shape"])
    need(np.size(out) == n, "shape %s", np.shape(out))
    close(np.ravel(out), ref, 1e-12, "average degree", ref=max(ref))


PARTS = [
    Part("tig", cases(), check, 700, large=100),
    Part("spectrogram", cases(), spectrogram, 500, large=80),
    Part("degree", degree_cases(), degree, 400, large=80),
]
