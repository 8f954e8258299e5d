"""C17: line graphs."""
import numpy as np
from hypothesis import strategies as st

from pygsp import graphs

from ..gens import LAP, build, dense, graph, need, tensor
from ..runner import Part

RULE = ("Random graphs (directed or not, self-loops, all shapes, all weight ranges, isolated vertices, several components), either Laplacian type, coordinates of 1 to 3 dimensions or none, "
        "after random queries; the line graph is compared with a pairwise test of shared end points over the edge list. The line graph of the line graph as well. "
        "Non-trivial: two edges sharing a vertex and two which do not.")
ASSUMPTIONS = ["at least one edge"]


@st.composite
def cases(draw):
    g = draw(graph(min_n=2, max_n=8, loops=True, min_edges=1))
    cd = draw(st.sampled_from([None, 1, 2, 3]))
    return {"g": g, "lap": draw(LAP), "coords": None if cd is None else draw(tensor((g["n"], cd) if cd > 1 else (g["n"],))),
            "pre": draw(st.lists(st.sampled_from(["D", "fourier", "edges", "other"]), max_size=2)), "sign": draw(st.booleans()),
            "lap2": draw(LAP), "again": draw(st.booleans())}


def check(case, note):
    g = case["g"]
    W = dense(g)
    coords = None if case["coords"] is None else np.array(case["coords"])
    G = build(g, lap_type=case["lap"], coords=None if coords is None else coords.copy(), plotting={"vertex_size": 17})
    for q in case["pre"]:
        if q == "D":
            G.compute_differential_operator()
        elif q == "fourier":
            G.compute_fourier_basis()
        elif q == "edges":
            G.get_edge_list()
        else:
            G.compute_laplacian("normalized" if G.lap_type == "combinatorial" else "combinatorial")
    lap = G.lap_type
    H = judge(G, coords, case["lap2"], note)
    need(np.array_equal(G.W.toarray(), W) and G.lap_type == lap, "the graph was modified")
    need(H.plotting["vertex_size"] == 17, "plotting options")
    H.plotting["vertex_size"] = 3
    need(G.plotting["vertex_size"] == 17, "plotting options are shared")
    if coords is not None:
        need(np.array_equal(G.coords, coords), "coordinates of the graph")
    if case["again"] and H.n_edges and H.n_edges <= 40:
        judge(H, getattr(H, "coords", None), case["lap2"], note)


def judge(G, coords, lap, note):
    H = graphs.LineGraph(G, lap_type=lap)
    src, dst, w = G.get_edge_list()
    E = [(int(a), int(b)) for a, b in zip(src, dst)]
    W = G.W.toarray()
    need(sorted(E) == sorted((i, j) for i in range(len(W)) for j in range(0 if G.is_directed() else i, len(W)) if W[i, j] != 0), "edge list")
    m = len(E)
    A = np.array([[float(a != b and bool(set(E[a]) & set(E[b]))) for b in range(m)] for a in range(m)]).reshape(m, m)
    need(H.n_vertices == m, "%d vertices for %d edges", H.n_vertices, m)
    need(np.array_equal(H.W.toarray(), A), "adjacency\n%s\nexpected\n%s", H.W.toarray(), A)
    need(H.n_edges == int(A.sum()) // 2 and not H.is_directed() and not H.has_loops() and not H.is_weighted(), "summary of the line graph")
    need(np.array_equal(H.d, A.sum(0)) and H.lap_type == lap, "degrees or Laplacian type")
    need(len(H.get_edge_list()[0]) == H.n_edges, "edge list of the line graph")
    note.nontrivial(bool(A.any()) and bool(np.any(A[~np.eye(m, dtype=bool)] == 0)))
    if coords is None:
        need(getattr(H, "coords", None) is None, "coordinates out of nowhere")
    else:
        mid = np.array([(coords[a] + coords[b]) / 2 for a, b in E])
        need(H.coords.shape == mid.shape and np.allclose(H.coords, mid, rtol=0, atol=1e-12 * max(1, np.abs(coords).max())), "mid-points\n%s\n%s", H.coords, mid)
    return H


PARTS = [Part("line", cases(), check, quick=6000, large=40)]
