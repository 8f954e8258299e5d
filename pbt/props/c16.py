"""C16: subgraphs."""
import numpy as np
from hypothesis import strategies as st

from pygsp import graphs

from ..gens import LAP, close, dense, graph, need, ref_components, ref_laplacian, tensor
from ..runner import Part

RULE = ("Random graphs of every kind (directed, loops, isolated vertices, integer/boolean/float weights, named models), Laplacian type, coordinates of 1 to 3 dimensions or none, "
        "signals of 1 or more columns and several dtypes, custom plotting options, and earlier queries that fill the caches; subsets of vertices in any order given "
        "as list, tuple-free index array, boolean list or boolean array; the subgraph, and subgraphs of the subgraph, are compared with numpy indexing. "
        "Non-trivial: a proper subset keeping an edge.")
ASSUMPTIONS = ["vertices to keep are distinct, non-negative and at least one"]
QUERIES = ["fourier", "lmax", "D", "d", "dw", "A", "connected", "directed", "components"]


@st.composite
def cases(draw):
    g = draw(graph(min_n=1, max_n=9, loops=True))
    n = g["n"]
    sel = []
    m = n
    for _ in range(draw(st.integers(1, 3))):
        k = draw(st.integers(1, m))
        order = draw(st.permutations(list(range(m))))[:k]
        how = draw(st.sampled_from(["list", "array", "boollist", "boolarray", "int32"]))
        sel.append([how, sorted(order) if how.startswith("bool") else list(order)])
        m = k
    dt = draw(st.sampled_from(["int", "bool" if g["kind"] == "ones" else "uint8"])) if g["kind"] in ("ones", "int") and draw(st.booleans()) else "float"
    cd = draw(st.sampled_from([None, 1, 2, 3]))
    sigs = []
    for name in draw(st.lists(st.sampled_from(["a", "b", "c"]), unique=True)):
        kind = draw(st.sampled_from(["float", "int", "bool"]))
        cols = draw(st.sampled_from([None, 1, 3, n]))
        sigs.append([name, kind, draw(tensor((n, cols) if cols else (n,)))])
    return {"g": g, "dtype": dt, "sel": sel, "lap": draw(LAP), "coords": None if cd is None else draw(tensor((n, cd) if cd > 1 else (n,))),
            "signals": sigs, "plotting": draw(st.dictionaries(st.sampled_from(["vertex_size", "edge_width", "mine"]), st.integers(1, 9), max_size=3)),
            "queries": draw(st.lists(st.sampled_from(QUERIES), unique=True, max_size=4))}


def query(G, q):
    {"fourier": G.compute_fourier_basis, "lmax": lambda: G.lmax, "D": G.compute_differential_operator, "d": lambda: G.d, "dw": lambda: G.dw,
     "A": lambda: G.A, "connected": G.is_connected, "directed": G.is_directed,
     "components": lambda: None if G.is_directed() else G.extract_components()}[q]()


def indices(how, idx, m):
    mask = np.zeros(m, dtype=bool)
    mask[idx] = True
    return {"list": lambda: list(idx), "array": lambda: np.array(idx), "int32": lambda: np.array(idx, dtype=np.int32),
            "boollist": lambda: mask.tolist(), "boolarray": lambda: mask}[how]()


def check(case, note):
    g = case["g"]
    n = g["n"]
    W = dense(g).astype(case["dtype"])
    coords = None if case["coords"] is None else np.array(case["coords"])
    G = graphs.Graph(W.copy(), lap_type=case["lap"], coords=None if coords is None else coords.copy(), plotting=dict(case["plotting"]))
    sig = {}
    for name, kind, v in case["signals"]:
        x = np.array(v)
        x = {"float": x, "int": (10 * x).astype(int), "bool": x > 0}[kind]
        sig[name] = x
        G.set_signal(x.copy(), name)
    for q in case["queries"]:
        if q in ("fourier", "lmax") and any(i == j for i, j, _ in g["edges"]):
            continue
        query(G, q)
    first = set(range(n))
    original = (G, W, coords, sig)
    parent = G
    for how, idx in case["sel"]:
        m = len(W)
        vert = indices(how, idx, m)
        keep = vert.copy() if isinstance(vert, np.ndarray) else list(vert)
        H = parent.subgraph(vert)
        need(np.array_equal(keep, vert), "the vertices passed were modified")
        note.label(how)
        W = W[np.ix_(idx, idx)]
        need(len(idx) == m or parent.n_vertices == m, "original resized")
        note.nontrivial(len(idx) < m and bool(np.any(W)))
        judge(H, W, None if coords is None else coords[idx], {k: x[idx] for k, x in sig.items()}, parent, case["lap"])
        if coords is not None:
            coords = coords[idx]
        sig = {k: x[idx] for k, x in sig.items()}
        parent = H
    # everything done to a subgraph stays there
    H.plotting["vertex_size"] = -1
    H.plotting["new"] = 3
    for x in H.signals.values():
        x[...] = x + 1 if x.dtype != bool else ~x
    if coords is not None:
        H.coords += 7
    H.W.data[:] = 5 if H.W.dtype != bool else True
    G, W, coords, sig = original
    same(G, W, coords, sig)
    need("new" not in G.plotting and G.plotting["vertex_size"] != -1, "plotting options are shared with the subgraph")
    for k, v in case["plotting"].items():
        need(G.plotting[k] == v, "plotting option changed")


def same(G, W, coords, sig):
    need(G.n_vertices == len(W) and np.array_equal(G.W.toarray(), W), "weights\n%s\n%s", G.W.toarray(), W)
    need((coords is None) == (getattr(G, "coords", None) is None), "presence of coordinates")
    if coords is not None:
        need(np.array_equal(G.coords, coords), "coordinates")
    need(list(G.signals) == list(sig), "names of signals")
    for k, x in sig.items():
        need(G.signals[k].dtype == x.dtype and np.array_equal(G.signals[k], x), "signal %s", k)


def judge(H, W, coords, sig, parent, lap):
    need(H.W.dtype == parent.W.dtype, "dtype of the weights")
    same(H, W, coords, sig)
    need(H.lap_type == lap and parent.lap_type == lap, "Laplacian type")
    need(H.plotting == parent.plotting, "plotting options")
    L = ref_laplacian(W, lap)
    if not np.any(np.diag(W)):
        close(H.L, L, 1e-12, "Laplacian", ref=max(1e-300, np.abs(L).max(initial=0)))
    loops = np.count_nonzero(np.diag(W))
    directed = bool(np.any(W != W.T))
    need(H.is_directed() == directed, "direction")
    need(H.n_edges == (np.count_nonzero(W) if directed else (np.count_nonzero(W) - loops) // 2 + loops), "number of edges")
    need(np.array_equal(H.d, ((W != 0).sum(0) + (W != 0).sum(1)) / 2), "degrees")
    if not directed:
        need(H.is_connected() == (len(ref_components(W)) == 1), "connectivity")


@st.composite
def models(draw):
    return {"model": draw(st.sampled_from(["Ring", "Path", "Grid2d", "Comet", "FullConnected", "Sensor", "ErdosRenyi", "Star", "Torus"])),
            "n": draw(st.integers(3, 12)), "seed": draw(st.integers(0, 99)), "bits": draw(st.integers(1, (1 << 12) - 1)), "lap": draw(LAP)}


def model_check(case, note):
    n = case["n"]
    cls = getattr(graphs, case["model"])
    kw = {"lap_type": case["lap"]}
    if case["model"] in ("Sensor", "ErdosRenyi"):
        kw["seed"] = case["seed"]
    if case["model"] == "Comet":
        G = cls(n, n // 2, **kw)
    elif case["model"] in ("Grid2d", "Torus"):
        G = cls(3, n // 2 + 2, **kw)
    elif case["model"] == "Sensor":
        G = cls(n, k=2, **kw)
    else:
        G = cls(n, **kw)
    note.label(case["model"])
    n = G.n_vertices
    mask = np.array([bool(case["bits"] >> (i % 12) & 1) for i in range(n)])
    W = G.W.toarray()
    if not mask.any():
        mask[0] = True
    idx = np.flatnonzero(mask)
    note.nontrivial(0 < len(idx) < n)
    coords = getattr(G, "coords", None)
    H = G.subgraph(mask)
    need(type(H) is graphs.Graph, "class")
    judge(H, W[np.ix_(idx, idx)], None if coords is None else coords[idx], {}, G, case["lap"])
    K = G.subgraph(list(range(n)))
    judge(K, W, coords, {}, G, case["lap"])


PARTS = [
    Part("random", cases(), check, quick=4500, large=300),
    Part("models", models(), model_check, quick=750),
]
