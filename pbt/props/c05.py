"""C05: the Fourier basis diagonalizes the Laplacian."""
import numpy as np
from hypothesis import strategies as st

from ..gens import LAP, build, close, dense, graph, lap_scale, need, ref_components, ref_laplacian, raises
from ..runner import Part

RULE = ("Random graphs (directed or not, loops, disconnected, weights of any magnitude), Laplacian type and "
        "a random sequence of requests for the full or a partial basis; unions of stars, cliques, rings, paths "
        "(repeated eigenvalues) of up to 60 vertices; connected graphs of 1001 to 1100 vertices. Non-trivial: at least one edge.")
ASSUMPTIONS = ["relative tolerance 1e-8 of the spectral radius for the full basis, 1e-5 for partial bases of more than 1000 vertices (iterative solver)"]


@st.composite
def cases(draw):
    g = draw(graph(min_n=1, max_n=12, loops=True))
    return {"g": g, "lap": draw(LAP), "first": draw(st.sampled_from(["U", "e", "coherence", "compute", "lmax-bounds"]))}


def verify_partial(e, U, ref, ev, s, tol=1e-8):
    need(e[0] == 0, "e[0] = %r", e[0])
    need(bool(np.all(e >= 0)), "negative eigenvalue %s", e)
    need(bool(np.all(np.diff(e) >= 0)), "eigenvalues not sorted: %s", e)
    close(e, ev, tol, "smallest eigenvalues", ref=s)
    close(U.T @ U, np.eye(len(e)), tol, "orthonormality of a partial basis")
    close(ref @ U, U * e, tol, "eigen-equation of a partial basis", ref=s)


def verify_full(G, ref, s, tol=1e-8):
    n = len(ref)
    e, U = np.asarray(G.e), np.asarray(G.U)
    need(e.shape == (n,) and U.shape == (n, n), "shapes %s %s", e.shape, U.shape)
    need(np.isrealobj(e) and np.isrealobj(U), "complex spectrum")
    need(e[0] == 0, "e[0] = %r", e[0])
    need(bool(np.all(e >= 0)), "negative eigenvalue %s", e)
    need(bool(np.all(np.diff(e) >= 0)), "eigenvalues not sorted: %s", e)
    close(U.T @ U, np.eye(n), 1e-9, "orthonormality")
    close(ref @ U, U * e, tol, "eigen-equation", ref=s)
    close(np.linalg.eigvalsh(ref), e, tol, "spectrum", ref=s)
    need(G.lmax == e[-1], "lmax %r, last eigenvalue %r", G.lmax, e[-1])
    need(abs(G.coherence - np.abs(U).max()) <= 1e-12, "coherence %s", G.coherence)
    need(1 / np.sqrt(n) - 1e-9 <= G.coherence <= 1 + 1e-9, "coherence %s out of range", G.coherence)


def check(case, note):
    g = case["g"]
    W = dense(g)
    ref = ref_laplacian(W, case["lap"])
    note.nontrivial(bool(np.any(ref)))
    note.label(case["lap"], g["kind"], "directed" if np.any(W != W.T) else "undirected")
    if len(ref_components(W)) > 1:
        note.label("disconnected")
    G = build(g, lap_type=case["lap"])
    if case["first"] == "compute":
        G.compute_fourier_basis()
    elif case["first"] == "lmax-bounds":
        G.estimate_lmax("bounds")
        G.compute_fourier_basis()
    else:
        getattr(G, case["first"])
    verify_full(G, ref, lap_scale(W, case["lap"]))
    if len(ref_components(W)) == g["n"]:
        need(abs(G.coherence - 1) < 1e-9, "coherence of an edgeless graph %s", G.coherence)


@st.composite
def partial_cases(draw):
    g = draw(graph(min_n=3, max_n=14, loops=True, min_edges=0))
    n = g["n"]
    return {"g": g, "lap": draw(LAP), "as_int": draw(st.booleans()) and g["kind"] in ("ones", "int"),
            "reqs": draw(st.lists(st.one_of(st.integers(1, n), st.none()), min_size=1, max_size=4)),
            "bad": draw(st.dictionaries(st.integers(0, 3), st.sampled_from([-n, -2, -1, 0, n + 1, n + 2, 2 * n]), max_size=2))}


def check_partial(case, note):
    from pygsp import graphs

    g = case["g"]
    n = g["n"]
    W = dense(g)
    ref = ref_laplacian(W, case["lap"])
    ev = np.linalg.eigvalsh(ref)
    G = graphs.Graph(dense(g, int) if case["as_int"] else W, lap_type=case["lap"])
    note.nontrivial(any(k not in (None, n) for k in case["reqs"]))
    have = 0
    s = lap_scale(W, case["lap"])
    bad = {int(k): v for k, v in case["bad"].items()}
    for i, k in enumerate(case["reqs"]):
        if i in bad:
            note.label("impossible request")
            raises((ValueError, TypeError), lambda: G.compute_fourier_basis(bad[i]), f"basis of {bad[i]} vectors")
        G.compute_fourier_basis(k)
        want = n if k is None else k
        note.label("full" if want == n else "partial", "grows" if want > have > 0 else "served from cache" if want <= have else "first")
        have = max(have, want)
        e, U = np.asarray(G.e), np.asarray(G.U)
        need(e.shape == (have,) and U.shape == (n, have), "asked for %s, have %s: shapes %s %s", k, have, e.shape, U.shape)
        if have == n:
            verify_full(G, ref, lap_scale(W, case["lap"]))
            continue
        verify_partial(e, U, ref, ev[:have], s)
    # coherence and lmax always refer to the full basis
    if case["reqs"][-1] is None or have == n:
        need(abs(G.coherence - np.abs(G.U).max()) < 1e-12, "coherence")
    else:
        G.coherence
        verify_full(G, ref, lap_scale(W, case["lap"]))


# few distinct, highly repeated eigenvalues: what iterative solvers struggle with
@st.composite
def structured_cases(draw):
    blocks = draw(st.lists(st.tuples(st.sampled_from(["star", "full", "bipartite", "ring", "path", "empty"]), st.integers(1, 20)),
                           min_size=1, max_size=3))
    n = sum(b[1] for b in blocks)
    return {"blocks": [list(b) for b in blocks], "lap": draw(LAP), "scale": draw(st.sampled_from([1.0, 1 / 3, 0.7, 3e5, 5e11, 1e-9, 1e-14])),
            "k": draw(st.integers(1, max(1, n - 1)))}


def structured(blocks):
    n = sum(m for _, m in blocks)
    W = np.zeros((n, n))
    o = 0
    for kind, m in blocks:
        i = np.arange(m)
        B = np.zeros((m, m))
        if kind == "star":
            B[0, 1:] = 1
        elif kind == "full":
            B[:] = 1
        elif kind == "bipartite":
            B[: m // 2, m // 2:] = 1
        elif kind in ("ring", "path"):
            B[i[:-1], i[1:]] = 1
            if kind == "ring" and m > 2:
                B[0, -1] = 1
        np.fill_diagonal(B, 0)
        W[o:o + m, o:o + m] = np.maximum(B, B.T)
        o += m
    return W


def check_structured(case, note):
    from pygsp import graphs

    W = structured(case["blocks"]) * case["scale"]
    n, k = len(W), case["k"]
    ref = ref_laplacian(W, case["lap"])
    ev = np.linalg.eigvalsh(ref)
    s = lap_scale(W, case["lap"])
    note.nontrivial(bool(np.any(W)) and k < n)
    note.label(case["lap"], "+".join(sorted({b[0] for b in case["blocks"]})), "n>30" if n > 30 else "n<=30", "scale %g" % case["scale"])
    G = graphs.Graph(W, lap_type=case["lap"])
    G.compute_fourier_basis(k)
    e, U = np.asarray(G.e), np.asarray(G.U)
    need(e.shape == (k,) and U.shape == (n, k), "shapes %s %s", e.shape, U.shape)
    verify_partial(e, U, ref, ev[:k], s)
    G.compute_fourier_basis()
    verify_full(G, ref, s)


# above 1000 vertices, partial bases come from an iterative solver
@st.composite
def large_cases(draw):
    return {"n": draw(st.integers(1001, 1100)), "chords": draw(st.integers(2000, 6000)), "seed": draw(st.integers(0, 2**31)),
            "scale": draw(st.sampled_from([1.0, 1e-6, 3e5])), "lap": draw(LAP), "ks": draw(st.lists(st.integers(1, 8), min_size=1, max_size=2))}


def check_large(case, note):
    from pygsp import graphs

    rng = np.random.default_rng(case["seed"])
    n = case["n"]
    W = np.zeros((n, n))
    i = np.arange(n)
    W[i, (i + 1) % n] = rng.uniform(0.5, 1, n)
    for a, b, w in zip(rng.integers(n, size=case["chords"]), rng.integers(n, size=case["chords"]), rng.uniform(0.5, 1, case["chords"])):
        if a != b:
            W[a, b] = W[b, a] = w
    W = np.triu(np.maximum(W, W.T)) * case["scale"]
    W = W + W.T
    ref = ref_laplacian(W, case["lap"])
    ev = np.linalg.eigvalsh(ref)
    s = lap_scale(W, case["lap"])
    note.nontrivial(True)
    note.label(case["lap"], "scale %g" % case["scale"])
    G = graphs.Graph(W, lap_type=case["lap"])
    have = 0
    for k in case["ks"]:
        G.compute_fourier_basis(k)
        have = max(have, k)
        e, U = np.asarray(G.e), np.asarray(G.U)
        need(e.shape == (have,) and U.shape == (n, have), "shapes %s %s", e.shape, U.shape)
        verify_partial(e, U, ref, ev[:have], s, 1e-5)


def probe_large(case, note):
    from pygsp import graphs

    W = structured(case["blocks"])
    G = graphs.Graph(W)
    G.compute_fourier_basis(case["k"])
    close(np.asarray(G.e), np.linalg.eigvalsh(ref_laplacian(W, "combinatorial"))[:case["k"]], 1e-5, "smallest eigenvalues")


KNOWN = {"C05-large-repeated": probe_large}


PARTS = [
    Part("full", cases(), check, quick=3750, large=300),
    Part("partial", partial_cases(), check_partial, quick=1800, large=300),
    Part("structured", structured_cases(), check_structured, quick=1800),
    Part("large", large_cases(), check_large, quick=16),
]
