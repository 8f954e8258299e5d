"""C02: connectivity and connected components are exact."""
import numpy as np
from hypothesis import strategies as st

from pygsp import graphs

from ..gens import build, extreme, close, dense, graph, need, raises, ref_components, ref_laplacian, ref_reach
from ..runner import Part

RULE = ("Random graphs (9 shapes, unions of components, isolated vertices, loops, directed) with "
        "prior queries in random order. Non-trivial: at least two vertices and one edge.")
ASSUMPTIONS = ["non-negative weights"]
QUERIES = ["is_directed", "A", "d", "dw", "L", "e", "D", "lmax", "extract", "is_connected", "edges"]


@st.composite
def cases(draw):
    return {"g": draw(extreme(graph(min_n=1, max_n=10, loops=True))),
            "before": draw(st.lists(st.sampled_from(QUERIES), max_size=4))}


def query(G, q):
    if q == "is_directed":
        G.is_directed()
    elif q == "edges":
        G.get_edge_list()
    elif q == "extract":
        if not G.is_directed():
            G.extract_components()
    elif q == "is_connected":
        G.is_connected()
    elif q == "e":
        G.compute_fourier_basis()
    else:
        getattr(G, q)


def check_conn(case, note):
    g = case["g"]
    W = dense(g)
    G = build(g)
    note.nontrivial(g["n"] > 1 and bool(g["edges"]))
    R = ref_reach(W)
    want = bool(R.all())
    note.label("connected" if want else "disconnected", "directed" if np.any(W != W.T) else "undirected",
               g["shape"])
    if np.any(W != W.T) and not want and (R | R.T).all():
        note.label("unilaterally connected only")
    for q in case["before"]:
        query(G, q)
    for _ in range(2):
        got = G.is_connected()
        need(bool(got) is want, "is_connected() is %s, expected %s", got, want)
    need(np.array_equal(G.W.toarray(), W), "W changed")
    if np.any(W != W.T):
        raises(NotImplementedError, G.extract_components, "components of a directed graph")


@st.composite
def comp_cases(draw):
    g = draw(extreme(graph(min_n=draw(st.sampled_from([1, 3, 4, 4])), max_n=10, loops=True, directed=False, shapes=["union", "union", "union", "random", "random", "tree", "ring", "star", "bipartite"])))
    n = g["n"]
    return {"g": g, "before": draw(st.lists(st.sampled_from(QUERIES), max_size=3)),
            "coords": draw(st.sampled_from([None, 2, 3])), "lap": draw(st.sampled_from(["combinatorial", "normalized"])),
            "signals": draw(st.lists(st.sampled_from(["s", "temp", "x y"]), unique=True, max_size=2)),
            "vals": draw(st.lists(st.integers(-20, 20), min_size=3 * n, max_size=3 * n))}


def check_comp(case, note):
    g = case["g"]
    n = g["n"]
    W = dense(g)
    vals = np.array(case["vals"], dtype=float).reshape(n, 3)
    coords = vals[:, : case["coords"]] if case["coords"] else None
    G = build(g, lap_type=case["lap"], coords=coords)
    sig = {}
    for k, name in enumerate(case["signals"]):
        sig[name] = vals[:, k] if k == 0 else vals
        G.set_signal(sig[name], name)
    for q in case["before"]:
        query(G, q)
    want = ref_components(W)
    note.nontrivial(len(want) > 1 and bool(g["edges"]))
    note.label("%d components" % min(len(want), 4))
    comps = G.extract_components()
    got = [list(map(int, c.info["orig_idx"])) for c in comps]
    need(sorted(map(sorted, got)) == want, "components %s, expected %s", got, want)
    for c, idx in zip(comps, got):
        need(isinstance(c, graphs.Graph), "a component is not a graph")
        need(np.array_equal(c.W.toarray(), W[np.ix_(idx, idx)]), "weights of component %s", idx)
        need(bool(c.is_connected()), "component %s is not connected", idx)
        need(c.n_vertices == len(idx), "component size")
        close(c.L, ref_laplacian(W[np.ix_(idx, idx)], case["lap"]), 1e-9, "Laplacian of a component", ref=max(1, np.abs(W).max() * n))
        if coords is not None:
            need(np.array_equal(c.coords, coords[idx]), "coordinates of component %s", idx)
        need(set(c.signals) == set(sig), "signals of component %s: %s", idx, list(c.signals))
        for name in sig:
            need(np.array_equal(c.signals[name], sig[name][idx]), "signal %s of component %s", name, idx)
    need(bool(G.is_connected()) == (len(want) == 1), "is_connected() after extraction")
    need(np.array_equal(G.W.toarray(), W), "W changed")


PARTS = [
    Part("connected", cases(), check_conn, quick=5000, large=300),
    Part("components", comp_cases(), check_comp, quick=1000, large=300),
]
