"""C19: deterministic graph models."""
import math

import numpy as np
from hypothesis import strategies as st

from pygsp import graphs

from .. import gens
from ..gens import LAP, close, need, raises, ref_components
from ..runner import Part

RULE = ("Every admissible size and parameter of rings, paths, grids, tori, stars, comets, complete graphs and low-stretch trees up to 40 (1024 for trees) vertices is drawn, with either "
        "Laplacian type; the whole adjacency matrix is compared with one built from the definition vertex pair by vertex pair, spectra with their closed forms, and "
        "inadmissible parameters must raise. The four data sets are checked for their documented structure. Non-trivial: more than three vertices.")
ASSUMPTIONS = ["tori have at least three vertices along each dimension", "a comet has at least one vertex more than its degree"]


@st.composite
def cases(draw):
    m = draw(st.sampled_from(["Ring", "Ring", "Path", "Grid2d", "Grid2d", "Torus", "Star", "Comet", "FullConnected", "LowStretchTree"]))
    p = {"model": m, "lap": draw(LAP)}
    a, b, c = (24, 80, 15) if gens.LARGE else (0, 24, 7)  # sizes
    if m == "Ring":
        p["N"] = draw(st.integers(3 + a, b))
        p["k"] = draw(st.one_of(st.integers(1, p["N"] // 2), st.just(p["N"] // 2)))
    elif m == "Path":
        p["N"], p["directed"] = draw(st.integers(1 + a, b + 6)), draw(st.booleans())
    elif m == "Grid2d":
        p["N1"], p["N2"] = draw(st.integers(1, c)), draw(st.one_of(st.none(), st.integers(1, c)))
        p["diagonal"] = draw(st.sampled_from([0.0, 0.0, 0.5, 1.0, 3.0, 1]))
    elif m == "Torus":
        p["Nv"], p["Mv"] = draw(st.integers(3, c)), draw(st.one_of(st.none(), st.integers(3, c)))
    elif m == "Comet":
        p["N"] = draw(st.integers(1 + a, b))
        p["k"] = draw(st.integers(0 if p["N"] == 1 else 1, p["N"] - 1))
    elif m == "LowStretchTree":
        p["k"] = draw(st.integers(1, 5))
    else:
        p["N"] = draw(st.integers(2 + a if m == "Star" else 1 + a, b))
    if draw(st.integers(0, 3)) == 0:
        p["default"] = True
    return p


def pairs_matrix(n, w):
    return np.array([[float(w(i, j)) for j in range(n)] for i in range(n)]).reshape(n, n)


def ring_e(n, k=1):
    j = np.arange(n)
    return sum((1 if 2 * i == n else 2) * (1 - np.cos(2 * np.pi * i * j / n)) for i in range(1, k + 1))


def path_e(n):
    return 2 - 2 * np.cos(np.pi * np.arange(n) / n)


def model(p):
    """(graph, adjacency matrix, spectrum or None, number of dimensions of the coordinates or None)"""
    m, kw = p["model"], {"lap_type": p["lap"]}
    cls = getattr(graphs, m)
    if m == "Ring":
        N, k = p["N"], p["k"]
        G = cls(N, **kw) if p.get("default") and k == 1 else cls(N, k=k, **kw)
        return G, pairs_matrix(N, lambda i, j: i != j and min((i - j) % N, (j - i) % N) <= k), ring_e(N, k), 2
    if m == "Path":
        N, d = p["N"], p["directed"]
        G = cls(N, **kw) if p.get("default") and not d else cls(N, directed=d, **kw)
        return G, pairs_matrix(N, lambda i, j: j == i + 1 or (not d and i == j + 1)), None if d else path_e(N), 2
    if m == "Grid2d":
        a, b = p["N1"], p["N2"]
        G = cls(a, b, diagonal=p["diagonal"], **kw)
        b = a if b is None else b
        need((G.N1, G.N2) == (a, b), "sizes")

        def w(i, j):
            dr, dc = abs(i // b - j // b), abs(i % b - j % b)
            return 1 if dr + dc == 1 else p["diagonal"] if dr == dc == 1 else 0
        e = None if p["diagonal"] else (path_e(a)[:, None] + path_e(b)[None, :]).ravel()
        return G, pairs_matrix(a * b, w), e, 2
    if m == "Torus":
        a, b = p["Nv"], p["Mv"]
        G = cls(a, b, **kw)
        b = a if b is None else b

        def w(i, j):
            dr, dc = (i // a - j // a) % b, (i % a - j % a) % a
            return (dr == 0 and dc in (1, a - 1)) or (dc == 0 and dr in (1, b - 1))
        return G, pairs_matrix(a * b, w), (ring_e(a)[:, None] + ring_e(b)[None, :]).ravel(), 3
    if m in ("Star", "Comet"):
        N = p["N"]
        k = N - 1 if m == "Star" else p["k"]
        G = cls(N, **kw) if m == "Star" else cls(N, k, **kw)

        def w(i, j):
            i, j = min(i, j), max(i, j)
            return i != j and ((i == 0 and j <= k) or (i >= k and j == i + 1))
        e = [0] + [1] * (N - 2) + [N] if m == "Star" else None
        return G, pairs_matrix(N, w), e, 2
    if m == "FullConnected":
        N = p["N"]
        return cls(N, **kw), pairs_matrix(N, lambda i, j: i != j), [0] + [N] * (N - 1), None
    raise ValueError(m)


def check(p, note):
    note.label(p["model"])
    if p["model"] == "LowStretchTree":
        return tree_check(p, note)
    G, W, e, dim = model(p)
    n = len(W)
    note.nontrivial(n > 3)
    need(G.n_vertices == n, "%d vertices, expected %d", G.n_vertices, n)
    need(np.array_equal(G.W.toarray(), W), "adjacency\n%s\nexpected\n%s", G.W.toarray(), W)
    need(G.lap_type == p["lap"], "Laplacian type")
    directed = not np.array_equal(W, W.T)
    need(G.is_directed() == directed and not G.has_loops(), "direction or loops")
    need(G.n_edges == np.count_nonzero(W) // (1 if directed else 2), "number of edges")
    if not directed:
        need(G.is_connected() == (len(ref_components(W)) == 1), "connectivity")
        need(G.is_connected(), "not connected")
    if dim:
        need(G.coords.shape == (n, dim) and np.all(np.isfinite(G.coords)), "coordinates")
        d = np.sqrt(((G.coords[:, None] - G.coords[None]) ** 2).sum(-1))
        need(n == 1 or d[~np.eye(n, dtype=bool)].min() > 1e-9, "two vertices at the same place")
        geometry(p, G, d, W)
    if e is not None and p["lap"] == "combinatorial":
        G.compute_fourier_basis()
        close(G.e, np.sort(np.asarray(e, dtype=float)), 1e-9, "spectrum", ref=max(1.0, np.max(e)))


def geometry(p, G, d, W):
    m, n = p["model"], len(W)
    if m in ("Ring", "Path"):
        i = np.arange(n - 1)
        steps = d[i, i + 1]
        if m == "Ring":
            close(np.sqrt((G.coords ** 2).sum(1)), np.ones(n), 1e-12, "ring radius")
            steps = np.append(steps, d[n - 1, 0])
        if len(steps):
            close(steps, np.full(len(steps), steps[0]), 1e-9, "steps along the line or circle")
    if m == "Grid2d":
        a, b = G.N1, G.N2
        r, c = np.divmod(np.arange(n), b)
        close(G.coords[:, 0], c / b, 1e-12, "x", ref=1.0)
        close(G.coords[:, 1], (a - 1 - r) / a, 1e-12, "y", ref=1.0)
    if m == "Torus":
        rho = np.sqrt(G.coords[:, 0] ** 2 + G.coords[:, 1] ** 2)
        close((rho - 1.5) ** 2 + G.coords[:, 2] ** 2, np.ones(n), 1e-9, "points on a torus")
    if m in ("Star", "Comet"):
        close(d[0, 1:], np.concatenate([np.ones(int(W[0].sum())), np.arange(2, n - int(W[0].sum()) + 1)]), 1e-12, "distance to the centre")


def tree_check(p, note):
    k = p["k"]
    G = graphs.LowStretchTree(k=k, lap_type=p["lap"])
    n = 4 ** k
    note.nontrivial(k > 1)
    need(G.n_vertices == n and G.coords.shape == (n, 2), "sizes")
    W = G.W.toarray()
    need(np.array_equal(W, W.T) and not G.is_directed(), "directed")
    need(not np.any(np.diag(W)) and not G.has_loops(), "self-loops")
    need(set(np.unique(W)) <= {0, 1}, "weights")
    need(G.n_edges == n - 1 and G.is_connected() and len(ref_components(W) if n <= 256 else [0]) == 1, "%d edges, not a tree", G.n_edges)
    need(sorted(map(tuple, G.coords.tolist())) == sorted((x, y) for x in range(1, 2 ** k + 1) for y in range(1, 2 ** k + 1)), "grid of points")
    need(0 <= G.root < n, "root")
    a, b = np.nonzero(W)
    need(np.all(np.abs(G.coords[a] - G.coords[b]).sum(1) == 1), "edges joining non-adjacent points")


BAD = [["Ring", [2], {}], ["Ring", [1], {}], ["Ring", [0], {}], ["Ring", [5], {"k": 3}], ["Ring", [4], {"k": 4}], ["Comet", [4, 4], {}], ["Comet", [4, 7], {}], ["Comet", [1, 1], {}]]


@st.composite
def bad(draw):
    if draw(st.booleans()):
        return draw(st.sampled_from(BAD))
    n = draw(st.integers(3, 30))
    if draw(st.booleans()):
        return ["Ring", [n], {"k": draw(st.integers(n // 2 + 1, n + 3))}]
    return ["Comet", [n, draw(st.integers(n, n + 5))], {}]


def bad_check(case, note):
    m, a, kw = case
    note.nontrivial(a[0] > 2)
    note.label(m)
    raises(ValueError, lambda: getattr(graphs, m)(*a, **kw), f"{m}{tuple(a)} {kw}")


def data_check(case, note):
    m, lap = case
    note.nontrivial(True)
    note.label(m)
    kw = {"lap_type": lap}
    if m == "Minnesota":
        G, H = graphs.Minnesota(**kw), graphs.Minnesota(connected=False, **kw)
        need(G.n_vertices == 2642 == H.n_vertices, "vertices")
        need(G.is_connected() and not H.is_connected() and not G.is_directed(), "connectivity")
        need(set(np.unique(G.W.data)) == {True}, "weights")
        diff = (G.W != (H.W != 0)).tocoo()
        need({frozenset(x) for x in zip(diff.row.tolist(), diff.col.tolist())} == {frozenset((348, 354))}, "edges added to connect the graph: %s", diff)
    else:
        G = getattr(graphs, m)(**kw)
        need(G.n_vertices == {"Logo": 1130, "Airfoil": 4253, "Bunny": 2503}[m] and not G.is_directed() and not G.has_loops(), "structure")
        H = getattr(graphs, m)(**kw)
        need((G.W != H.W).nnz == 0, "two constructions differ")
    if m == "Airfoil":
        need(len(np.unique(G.W.data)) == 1 and G.n_edges == 12289, "edges of the mesh")
    if m == "Logo":
        idx = np.concatenate([G.info[k].ravel() for k in ("idx_g", "idx_s", "idx_p")])
        need(len(set(idx.tolist())) == len(idx) and idx.min() >= 0 and idx.max() < 1130, "letters")
    if m == "Bunny":
        d = np.sqrt(((G.coords[:, None] - G.coords[None]) ** 2).sum(-1))
        A = (d <= 0.02) & ~np.eye(len(d), dtype=bool)
        need(np.array_equal(G.W.toarray() != 0, A), "radius graph")
    need(G.coords.shape[0] == G.n_vertices and np.all(np.isfinite(G.coords)) and G.lap_type == lap, "coordinates")


def plot_check(case, note):
    G = graphs.Star(case["N"], plotting=dict(case["plotting"]))
    note.nontrivial(bool(case["plotting"]))
    for k, v in case["plotting"].items():
        need(G.plotting[k] == v, "plotting option %s", k)


PARTS = [
    Part("models", cases(), check, quick=900, large=150),
    Part("rejected", bad(), bad_check, quick=120),
    Part("data", st.tuples(st.sampled_from(["Minnesota", "Logo", "Airfoil", "Bunny"]), LAP).map(list), data_check, quick=8, thorough=16),
    Part("options", st.fixed_dictionaries({"N": st.integers(2, 9), "plotting": st.dictionaries(st.sampled_from(["vertex_size", "limits"]), st.integers(1, 5))}), plot_check, quick=60),
]
