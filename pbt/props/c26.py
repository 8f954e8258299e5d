"""C26: coordinates and layouts."""
import numpy as np
from hypothesis import strategies as st

from pygsp import graphs

from ..gens import LAP, build, close, dense, graph, need, norm_of, raises, ref_laplacian, subset, tensor, upto
from ..runner import Part

RULE = ("Random graphs of one to ten vertices, every layout name, seeds, spring options (dimension, scale, centre, initial and fixed positions, ideal distance, iterations), explicit coordinates of one to three dimensions and wrong shapes; "
        "oracles: closed forms for lines and rings, eigen-equations and orthogonality for eigenmaps, discs around the centres of the communities, centring, scale, fixed vertices, reproducibility, and invariance of the spring layout under translation, "
        "exchange of axes and renumbering. Non-trivial: at least three vertices and one edge.")
ASSUMPTIONS = ["eigenmaps need more vertices than dimensions", "communities are numbered from zero"]


@st.composite
def explicit_cases(draw):
    g = draw(graph(min_n=1, max_n=7))
    n = g["n"]
    shape = draw(st.sampled_from([[n], [n, 1], [n, 2], [n, 3], [n + 1], [n + 1, 2], [n, 4], [n, 2, 2], [max(n - 1, 0), 2], [], [2, n], [3, n], [n, 0]]))
    return {"g": g, "shape": shape, "int": draw(st.booleans()), "list": draw(st.booleans()), "v": draw(tensor(tuple(shape))), "init": draw(st.booleans())}


def explicit(c, note):
    g, n, shape = c["g"], c["g"]["n"], c["shape"]
    G = build(g)
    x = np.array(c["v"], dtype=float).reshape(shape)
    if c["int"]:
        x = (10 * x).astype(int)
    keep = x.copy()
    arg = x.tolist() if c["list"] and 0 not in shape else x
    ok = len(shape) >= 1 and shape[0] == n and (len(shape) == 1 or (len(shape) == 2 and 1 <= shape[1] <= 3))
    if not ok and n > 1 and 1 in shape:
        return  # superfluous dimensions are removed
    if n == 1 and shape == [1, 1]:
        return  # one dimension, as a column
    note.nontrivial(ok and n > 2)
    note.label("accepted" if ok else "rejected", str(len(shape)) + "-D")
    if ok:
        G.set_coordinates(arg)
        want = keep if n == 1 and shape == [1] else (keep[:, 0] if len(shape) == 2 and shape[1] == 1 and n > 1 else keep)
        need(isinstance(G.coords, np.ndarray) and np.array_equal(G.coords, want) and G.coords.shape == want.shape, "coordinates %s instead of %s", G.coords, want)
        need(np.array_equal(x, keep), "array modified")
        if c["init"]:
            H = build(g, coords=arg)
            need(np.array_equal(H.coords, keep), "coordinates of the constructor %s", H.coords)
    else:
        raises(ValueError, lambda: G.set_coordinates(arg), f"coordinates of shape {shape} for {n} vertices")
        need(not hasattr(G, "coords"), "rejected coordinates recorded")


NAMES = ["line1D", "line2D", "ring2D", "random2D", "random3D", "laplacian_eigenmap2D", "laplacian_eigenmap3D", "spring", "unknown"]


@st.composite
def named_cases(draw):
    return {"g": draw(graph(min_n=1, max_n=10, directed=False)), "lap": draw(LAP), "kind": draw(st.sampled_from(NAMES)), "seed": draw(st.integers(0, 2 ** 32 - 1)), "pre": draw(st.sampled_from([None, "full", "partial"])),
            "bad": draw(st.sampled_from(["spring2D", "Spring", "", "random", "ring", "line3D", "community"]))}


def named(c, note):
    g, n, kind = c["g"], c["g"]["n"], c["kind"]
    W = dense(g)
    G, H = build(g, lap_type=c["lap"]), build(g, lap_type=c["lap"])
    note.nontrivial(n >= 3 and bool(g["edges"]))
    note.label(kind)
    if kind == "unknown":
        raises(ValueError, lambda: G.set_coordinates(c["bad"]), f"layout {c['bad']}")
        raises((AttributeError, ValueError), lambda: G.set_coordinates("community2D"), "communities of a graph without")
        return
    dim = {"1": 1, "2": 2, "3": 3}.get(kind[-2], 2)
    if kind.startswith("laplacian"):
        if n <= dim:
            raises((ValueError, TypeError), lambda: G.set_coordinates(kind), "more dimensions than eigenvectors")
            return
        if c["pre"] and n > 4:
            G.compute_fourier_basis(n_eigenvectors=None if c["pre"] == "full" else 2)
    state = np.random.get_state()[1].copy()
    G.set_coordinates(kind, seed=c["seed"])
    need(np.array_equal(state, np.random.get_state()[1]), "global random state used")
    x = np.asarray(G.coords, dtype=float)
    need(x.shape == ((n,) if dim == 1 else (n, dim)), "shape %s", x.shape)
    need(bool(np.isfinite(x).all()), "not finite: %s", x)
    need(np.array_equal(G.W.toarray(), W), "graph modified")
    if kind == "line1D":
        need(np.array_equal(x, np.arange(n)), "line: %s", x)
    elif kind == "line2D":
        need(np.array_equal(x, np.stack([np.arange(n), np.zeros(n)], 1)), "line: %s", x)
    elif kind == "ring2D":
        t = 2 * np.pi * np.arange(n) / n
        close(x, np.stack([np.cos(t), np.sin(t)], 1), 1e-12, "ring", ref=1)
    elif kind.startswith("random"):
        need(bool((x >= 0).all() and (x < 1).all()), "outside of the unit square: %s", x)
        need(n < 3 or len({tuple(r) for r in x.tolist()}) == n, "coinciding random vertices")
    elif kind.startswith("laplacian"):
        L = ref_laplacian(W, c["lap"])
        e = np.linalg.eigvalsh(L)
        s = max(e[-1], 1e-300)
        lam = e[1:dim + 1]
        close(L @ x, x * lam, 1e-6, "eigenvectors", ref=s)
        close(x.T @ x, np.eye(dim), 1e-6, "orthonormality")
        old = G.coords.copy()
        U = G.U.copy()
        G.coords[:] = 7
        need(np.array_equal(G.U, U), "coordinates share memory with the Fourier basis")
        G.coords = old
    else:
        close(x.mean(0), np.zeros(2), 1e-9, "centre", ref=1)
        need(n == 1 or abs(np.abs(x).max() - 1) < 1e-9, "scale %s", np.abs(x).max())
    if kind.startswith("random") or kind == "spring":
        H.set_coordinates(kind, seed=c["seed"])
        need(np.array_equal(G.coords, H.coords), "not reproducible from its seed")
        if n >= 3:
            H.set_coordinates(kind, seed=c["seed"] + 1)
            need(not np.array_equal(G.coords, H.coords), "seed ignored")


@st.composite
def spring_cases(draw):
    g = draw(graph(min_n=1, max_n=7))
    n = g["n"]
    dim = draw(st.sampled_from([2, 2, 3]))
    pos = draw(st.sampled_from([None, "array", "array", "list", "dict"]))
    return {"g": g, "dim": dim, "pos": pos, "p": draw(tensor((n, dim), -30, 30)), "fixed": draw(st.one_of(st.just([]), subset(n))), "k": draw(st.sampled_from([None, None, 0.3, 1.0, 2.5])),
            "it": draw(st.integers(0, 8)), "scale": draw(st.sampled_from([None, 1.0, 2.5, 10])), "center": draw(st.one_of(st.none(), tensor((1, dim)))), "seed": draw(st.integers(0, 10 ** 6)),
            "perm": draw(st.permutations(list(range(n)))), "shift": draw(tensor((dim,), -30, 30)), "badcenter": draw(st.integers(0, 9)) == 0}


def spring(c, note):
    g, n, dim = c["g"], c["g"]["n"], c["dim"]
    G = build(g)
    W = dense(g)
    P = np.array(c["p"]).reshape(n, dim)
    keepP = P.copy()
    kw = {"dim": dim, "iterations": c["it"], "seed": c["seed"]}
    if c["k"]:
        kw["k"] = c["k"]
    if c["scale"]:
        kw["scale"] = c["scale"]
    center = np.zeros(dim)
    if c["center"] is not None:
        kw["center"] = c["center"] if not c["badcenter"] else [[1.0] * (dim + 1)]
        center = np.array(c["center"])[0] if not c["badcenter"] else center
    if c["pos"]:
        kw["pos"] = {"array": lambda: P, "list": lambda: P.tolist(), "dict": lambda: P}[c["pos"]]()
    fixed = list(c["fixed"])
    if fixed:
        kw["fixed"] = fixed
    G.set_coordinates("spring", **kw)
    x = G.coords
    note.nontrivial(n >= 3 and bool(g["edges"]) and c["it"] > 0)
    note.label("fixed" if fixed else "free", c["pos"] or "random", f"{dim}-D")
    need(x.shape == (n, dim) and bool(np.isfinite(x).all()), "coordinates %s", x)
    need(np.array_equal(P, keepP) and fixed == c["fixed"] and np.array_equal(G.W.toarray(), W), "positions, fixed vertices or graph modified")
    if fixed and c["pos"]:
        need(np.array_equal(x[fixed], P[fixed]), "fixed vertices moved: %s instead of %s", x[fixed], P[fixed])
    if not fixed:
        close(x.mean(0), center, 1e-9, "centre", ref=max(norm_of(x), 1))
        s = c["scale"] or 1.0
        spread = np.abs(x - center).max()
        need(spread <= s * (1 + 1e-9), "beyond the scale: %s", spread)
        if n > 1 and (c["pos"] is None or c["it"] > 0 or len({tuple(p) for p in P.tolist()}) > 1) and spread > 0:
            need(abs(spread - s) <= 1e-9 * s, "scale %s instead of %s", spread, s)
        if c["pos"] is None:
            H = build(g)
            H.set_coordinates("spring", **{**kw, "seed": c["seed"] + 1})
            need(n < 3 or not np.array_equal(H.coords, x), "seed ignored")
    if c["it"] == 0 and c["pos"] and not fixed:
        d = P - P.mean(0)
        m = np.abs(d).max()
        close(x, center + (d * (c["scale"] or 1.0) / m if m else d), 1e-9, "rescaled positions", ref=max(norm_of(x), 1))
    # well separated points: no chaos to fear within a few iterations
    D = np.sqrt(((P[:, None] - P[None]) ** 2).sum(-1)) + 10 * np.eye(n)
    if not c["pos"] or D.min() < 0.05 or c["it"] > 6:
        return
    tol = 1e-5
    # renumbering
    q = np.array(c["perm"])
    H = graphs.Graph(W[np.ix_(q, q)])
    H.set_coordinates("spring", **{**kw, "pos": P[q], **({"fixed": [int(np.nonzero(q == f)[0][0]) for f in fixed]} if fixed else {})})
    close(H.coords, x[q], tol, "layout of the renumbered graph", ref=max(norm_of(x), 1))
    note.label("equivariance")
    # exchange of axes
    axes = np.arange(dim)[::-1]
    kw2 = {**kw, "pos": P[:, axes]}
    if c["center"] is not None and not c["badcenter"]:
        kw2["center"] = [center[axes].tolist()]
    H = build(g)
    H.set_coordinates("spring", **kw2)
    close(H.coords, x[:, axes], tol, "layout with exchanged axes", ref=max(norm_of(x), 1))
    if fixed and not c["k"]:
        return  # the ideal distance depends on the positions
    H = build(g)
    H.set_coordinates("spring", **{**kw, "pos": P + np.array(c["shift"])})
    close(H.coords, x + np.array(c["shift"]) if fixed else x, tol, "translated layout", ref=max(norm_of(x), norm_of(c["shift"]), 1))


@st.composite
def physics_cases(draw):
    """One free vertex, and one edge to a fixed one: it settles at the ideal distance."""
    return {"k": draw(st.sampled_from([0.2, 0.5, 1.0, 2.0])), "angle": draw(st.integers(0, 359)), "r": draw(st.integers(2, 18)) / 10, "edge": draw(st.booleans()), "w": draw(st.sampled_from([0.1, 1.0, 30.0])), "dim": draw(st.sampled_from([2, 3]))}


def physics(c, note):
    dim, k, w = c["dim"], c["k"], c["w"] if c["edge"] else 0
    G = graphs.Graph([[0, w], [w, 0]])
    u = np.zeros(dim)
    u[:2] = np.cos(np.radians(c["angle"])), np.sin(np.radians(c["angle"]))
    P = np.stack([np.zeros(dim), c["r"] * u])
    G.set_coordinates("spring", dim=dim, pos=P, fixed=[0], k=k, iterations=60)
    d = np.linalg.norm(G.coords[1])
    note.nontrivial(c["edge"])
    note.label("spring" if c["edge"] else "repulsion")
    close(np.dot(G.coords[1], u) * u, G.coords[1], 1e-9, "direction", ref=max(d, 1))
    path = 0.1 * 30  # what the cooling lets a vertex travel
    if not c["edge"]:
        need(d >= c["r"] - 1e-9, "attracted without an edge: %s", d)
        need(k * k / d < 0.011 or d > c["r"] + 0.5, "not repelled: %s", d)
    elif abs(c["r"] - k) < path - 1:
        need(abs(d - k) < 0.06, "distance %.4f instead of %s", d, k)


@st.composite
def community_cases(draw):
    sizes = draw(st.lists(upto(1, 4, 20), min_size=1, max_size=draw(upto(5, 5, 15))))
    labels = draw(st.permutations([k for k, s in enumerate(sizes) for _ in range(s)]))
    return {"labels": labels, "sizes": draw(st.booleans()), "rad": draw(st.sampled_from([None, 0.5, 3.0, 20.0])), "seed": draw(st.integers(0, 10 ** 6)), "list": draw(st.booleans()), "model": draw(st.booleans())}


def community(c, note):
    labels = c["labels"]
    if c["model"]:
        G = graphs.Community(N=20 + len(labels), seed=c["seed"])
        labels = G.info["node_com"].tolist()
        rad = G.info["world_rad"]
    else:
        G = graphs.Graph(np.ones((len(labels), len(labels))) - np.eye(len(labels)))
        G.info = {"node_com": list(labels) if c["list"] else np.array(labels)}
        if c["sizes"]:
            G.info["comm_sizes"] = np.bincount(labels)
        if c["rad"]:
            G.info["world_rad"] = c["rad"]
        rad = c["rad"] or np.sqrt(len(labels))
    sizes = np.bincount(labels)
    note.nontrivial(len(sizes) > 1 and len(labels) > 3)
    note.label("model" if c["model"] else "custom", f"{len(sizes)} communities")
    G.set_coordinates("community2D", seed=c["seed"])
    x = G.coords.copy()
    need(x.shape == (len(labels), 2) and bool(np.isfinite(x).all()), "coordinates %s", x)
    need(list(G.info["node_com"]) == list(labels) and list(G.info["comm_sizes"]) == sizes.tolist(), "communities modified")
    cen = np.array(G.info["com_coords"])
    need(cen.shape == (len(sizes), 2), "centres %s", cen)
    close(np.hypot(*cen.T), np.full(len(sizes), rad), 1e-9, "distance of the centres", ref=rad)
    if len(sizes) > 1:
        gap = np.hypot(*(cen - np.roll(cen, 1, 0)).T)
        close(gap, np.full(len(sizes), 2 * rad * np.sin(np.pi / len(sizes))), 1e-9, "distance between centres", ref=rad)
    r = np.hypot(*(x - cen[labels]).T)
    need(bool((r <= np.sqrt(sizes[labels]) * (1 + 1e-12) + 1e-12 * rad).all()), "vertices outside of their communities: %s", r)
    G.set_coordinates("community2D", seed=c["seed"])
    need(np.array_equal(x, G.coords), "not reproducible from its seed")


PARTS = [
    Part("explicit", explicit_cases(), explicit, 800, large=300),
    Part("named", named_cases(), named, 1600, large=300),
    Part("spring", spring_cases(), spring, 1000, large=300),
    Part("physics", physics_cases(), physics, 100),
    Part("community", community_cases(), community, 400, large=300),
]
