"""C06: the graph Fourier transform is a unitary, invertible linear map."""
import numpy as np
from hypothesis import strategies as st

from ..gens import LAP, build, close, dense, graph, lap_scale, need, raises, ref_laplacian, tensor, upto
from ..runner import Part

RULE = ("Random graphs and signals / tensors of rank 1 to 4 (list or array, int or float). "
        "Non-trivial: at least one edge and a non-zero signal.")
ASSUMPTIONS = ["relative tolerance 1e-9"]


@st.composite
def cases(draw):
    g = draw(graph(min_n=1, max_n=9, loops=True))
    rank = draw(st.integers(1, 4))
    shape = [g["n"]] + [draw(upto(1, 3, {2: 40, 3: 12, 4: 6}[rank])) for _ in range(rank - 1)]
    return {"g": g, "lap": draw(LAP), "s": draw(tensor(shape)), "t": draw(tensor(shape)),
            "a": draw(st.integers(-5, 5)), "int": draw(st.booleans()), "list": draw(st.booleans()), "complex": draw(st.integers(0, 3)) == 0,
            "k": draw(st.integers(0, g["n"] - 1))}


def check(case, note):
    g = case["g"]
    n = g["n"]
    G = build(g, lap_type=case["lap"])
    s, t = np.array(case["s"], dtype=float), np.array(case["t"], dtype=float)
    if case["int"]:
        s = np.round(s).astype(int)
    note.nontrivial(bool(g["edges"]) and bool(np.any(s)))
    note.label("rank %d" % s.ndim, "int" if case["int"] else "float")
    arg = s.tolist() if case["list"] else s
    keep = s.copy()
    sh = G.gft(arg)
    th = G.gft(t)
    need(np.array_equal(s, keep), "gft changed its input")
    need(sh.shape == s.shape, "gft shape %s", sh.shape)
    sc = max(np.abs(s).max(), np.abs(t).max(), 1e-9) * n
    close(G.igft(sh), s, 1e-9, "igft(gft(s))", ref=sc)
    close(G.gft(G.igft(arg)), s, 1e-9, "gft(igft(s))", ref=sc)
    close(G.gft(s + case["a"] * t), sh + case["a"] * th, 1e-9, "linearity", ref=sc * 6)
    close(G.igft(sh + case["a"] * th), s + case["a"] * t, 1e-9, "linearity of the inverse", ref=sc * 6)
    # per column
    S, SH = s.reshape(n, -1), sh.reshape(n, -1)
    T, TH = t.reshape(n, -1), th.reshape(n, -1)
    for j in range(S.shape[1]):
        close(G.gft(S[:, j]), SH[:, j], 1e-9, "transform of a column", ref=sc)
    close(SH.T @ TH, S.T @ T, 1e-9, "inner products", ref=sc * sc * n)
    close(np.linalg.norm(SH, axis=0), np.linalg.norm(S, axis=0), 1e-9, "norms", ref=sc)
    # definition, by the basis
    close(SH, G.U.T @ S, 1e-9, "U^T s", ref=sc)
    d = np.zeros(n)
    d[case["k"]] = 1
    close(G.gft(G.U[:, case["k"]]), d, 1e-9, "transform of an eigenvector")
    close(G.igft(d), G.U[:, case["k"]], 1e-9, "inverse transform of an impulse", ref=1)
    if case["complex"]:
        z = S + 1j * T
        zh = G.gft(z)
        close(zh.real, SH, 1e-9, "real part of the transform of a complex signal", ref=sc)
        close(zh.imag, TH, 1e-9, "imaginary part of the transform of a complex signal", ref=sc)
        back = G.igft(zh)
        close(back.real, S, 1e-9, "real part of the inverse transform of a complex signal", ref=sc)
        close(np.imag(back), T, 1e-9, "imaginary part of the inverse transform of a complex signal", ref=sc)
        note.label("complex")
    L = ref_laplacian(dense(g), case["lap"])
    close(G.gft(L @ S), G.e[:, None] * SH, 1e-8, "diagonalization", ref=sc * lap_scale(dense(g), case['lap']) * n)


@st.composite
def bad(draw):
    g = draw(graph(min_n=1, max_n=6))
    m = draw(st.integers(1, 9).filter(lambda m: m != g["n"]))
    return {"g": g, "shape": draw(st.sampled_from([[m], [m, g["n"]], [m, 2, 2]])), "inv": draw(st.booleans())}


def check_bad(case, note):
    G = build(case["g"])
    f = G.igft if case["inv"] else G.gft
    raises(ValueError, lambda: f(np.ones(case["shape"])), "signal of wrong length")


PARTS = [
    Part("unitary", cases(), check, quick=6000, large=300),
    Part("shape", bad(), check_bad, quick=900),
]
