"""C15: NetworkX and file round-trips."""
import os
import tempfile

import numpy as np
from hypothesis import strategies as st

from pygsp import graphs

from .. import gens
from ..gens import build, dense, graph, int_vector, need, raises, rng, upto
from ..runner import Part

RULE = ("Random graphs (directed or not, loops, integer/boolean/float/wide weights, isolated vertices) with random signals (float, int, bool, NaN, infinities, 1-12 "
        "columns, names sharing prefixes) go through to_networkx/from_networkx and through files of each format in a scratch directory, possibly twice; "
        "random NetworkX (multi)graphs with missing attributes, odd node names and parallel edges are imported and compared with an explicit "
        "accumulation. Non-trivial: an edge and a signal.")
ASSUMPTIONS = ["signal names are valid in the format: not 'id' or 'viz', and in GML letters, digits and underscores only and not 'label'", "1-d signal names do not end in _0, _1, ... (reserved for dimensions)",
               "graph-tool is not installed here: its backend is not exercised"]
NAMES = ["s", "temp", "temp_mean", "temp_max", "a_b_c", "a_b_d", "x1", "X", "sig_x", "x_7", "x_", "weight", "name"]
ODD = ["x_²", "x_٣", "Ünï", "two words", "a.b", "x_1.5", "x_-1", "0", "<a&b>", "label", "_0"]  # not in GML


@st.composite
def signal(draw, n):
    kind = draw(st.sampled_from(["float", "float", "int", "bool", "special", "wide", "f32"]))
    cols = draw(st.one_of(st.none(), st.none(), st.integers(2, 4), upto(10, 13, 120)))
    m = n * (cols or 1)
    v = draw(int_vector(m, -1000, 1000))
    return {"kind": kind, "cols": cols, "v": v}


def sig_array(s, n):
    v = np.array(s["v"], dtype=float)
    x = {"float": lambda: v / 7, "int": lambda: v.astype(int), "bool": lambda: v > 0, "f32": lambda: (v / 7).astype(np.float32),
         "wide": lambda: np.sign(v) * 10.0 ** (v / 5), "special": lambda: np.where(v > 900, np.nan, np.where(v < -900, np.inf, v / 3))}[s["kind"]]()
    return x.reshape(n, s["cols"]) if s["cols"] else x


@st.composite
def cases(draw):
    g = draw(graph(min_n=1, max_n=8, loops=True))
    fmts = draw(st.lists(st.sampled_from(["nx", "graphml", "gml", "gexf"]), min_size=1, max_size=3))
    names = draw(st.lists(st.sampled_from(NAMES if "gml" in fmts else NAMES + ODD), unique=True, max_size=5))
    dt = "float"
    if g["kind"] in ("ones", "int"):
        dt = draw(st.sampled_from(["float", "int", "bool" if g["kind"] == "ones" else "int", "int8"]))
    elif draw(st.booleans()) and g["kind"] == "float":
        dt = "negative"
    return {"g": g, "dtype": dt, "signals": [[k, draw(signal(g["n"]))] for k in names],
            "fmts": fmts,
            "explicit": draw(st.booleans()), "stem": draw(st.sampled_from(["g", "graph.v2.", "gexf.", "my graph ", "graphe-\u00e9t\u00e9"]))}


def check(case, note):
    g = case["g"]
    n = g["n"]
    W = dense(g)
    if case["dtype"] == "negative":
        W = np.where((np.arange(n)[:, None] + np.arange(n)) % 3 == 0, -W, W)
    elif case["dtype"] != "float":
        W = W.astype({"int": int, "bool": bool, "int8": np.int8}[case["dtype"]])
    G = graphs.Graph(W.copy())
    ref = {}
    for name, s in case["signals"]:
        x = sig_array(s, n)
        ref[name] = x.copy()
        G.set_signal(x, name)
    note.nontrivial(bool(g["edges"]) and bool(ref))
    note.label(case["dtype"], *case["fmts"])
    H = G
    with tempfile.TemporaryDirectory(prefix="pbt-c15-") as tmp:
        for k, fmt in enumerate(case["fmts"]):
            old = H
            before = {key: np.array(v) for key, v in old.signals.items()}
            if fmt == "nx":
                N = old.to_networkx()
                need(N.number_of_nodes() == n and N.number_of_edges() == G.n_edges, "exported sizes")
                need(N.is_directed() == bool(np.any(W != W.T)), "exported direction")
                for i, j, d in N.edges(data=True):
                    need(d["weight"] == W[i, j] or (not N.is_directed() and d["weight"] == W[j, i]), "exported weight of %s", (i, j))
                for name, x in ref.items():
                    for i in range(n):
                        if x.ndim == 1:
                            need(np.array_equal(N.nodes[i][name], x[i], equal_nan=True), "exported signal")
                        else:
                            need(all(np.array_equal(N.nodes[i][f"{name}_{c}"], x[i, c], equal_nan=True) for c in range(x.shape[1])), "exported dimensions of a signal")
                H = graphs.Graph.from_networkx(N)
            else:
                path = os.path.join(tmp, case["stem"] + f"{k}." + ("dat" if case["explicit"] else fmt))
                kw = {"fmt": fmt} if case["explicit"] else {}
                old.save(path, **kw)
                H = graphs.Graph.load(path, **kw)
            need(set(old.signals) == set(before) and all(np.array_equal(old.signals[q], before[q], equal_nan=before[q].dtype.kind == "f") for q in before),
                 "the exported graph's signals changed: %s", list(old.signals))
            need(np.array_equal(old.W.toarray(), W), "the exported graph's weights changed")
            need(H.n_vertices == n, "%d vertices after %s", H.n_vertices, fmt)
            need(np.array_equal(H.W.toarray(), W), "weights after %s: %s, expected %s", fmt, H.W.toarray(), W)
            need(bool(H.is_directed()) == bool(np.any(W != W.T)), "direction")
            need(set(H.signals) == set(ref), "signals after %s: %s, expected %s", fmt, sorted(H.signals), sorted(ref))
            for name, x in ref.items():
                y = np.asarray(H.signals[name])
                need(y.shape == x.shape, "shape of %s after %s: %s, expected %s", name, fmt, y.shape, x.shape)
                need(np.array_equal(y, x.astype(float), equal_nan=True), "signal %s after %s: %s, expected %s", name, fmt, y, x)
        raises(ValueError, lambda: G.save(os.path.join(tmp, "g.xyz")), "unknown format")
        raises(ValueError, lambda: G.save(os.path.join(tmp, "g.gml"), fmt="xyz"), "unknown format")
        raises(ValueError, lambda: G.save(os.path.join(tmp, "g.gml"), backend="xyz"), "unknown backend")
        raises(ValueError, lambda: graphs.Graph.load(os.path.join(tmp, "g.xyz")), "unknown format")


# ------------------------------------------------------------------- import
@st.composite
def import_cases(draw):
    n = draw(upto(1, 7, 40))
    names = draw(rng()).permutation(50)[:n].tolist() if gens.LARGE else draw(st.permutations(["a", "b", "c", 0, 1, 2, "node x"]))[:n]
    v = st.integers(0, n - 1)
    edges = draw(st.lists(st.tuples(v, v, st.one_of(st.none(), st.integers(-5, 9), st.integers(1, 50).map(lambda x: x / 4)), st.one_of(st.none(), st.integers(1, 9))), max_size=draw(upto(14, 14, 60))))
    attrs = draw(st.lists(st.tuples(v, st.sampled_from(["p", "q_0", "q_1", "q_2", "long_name"]), st.integers(-9, 9)), max_size=draw(upto(12, 12, 30))))
    return {"names": list(names), "edges": [list(e) for e in edges], "attrs": [list(a) for a in attrs], "directed": draw(st.booleans()),
            "multi": draw(st.booleans()), "weight": draw(st.sampled_from(["default", "weight", "length", None]))}


def check_import(case, note):
    import networkx as nx

    names, n = case["names"], len(case["names"])
    cls = {(0, 0): nx.Graph, (1, 0): nx.DiGraph, (0, 1): nx.MultiGraph, (1, 1): nx.MultiDiGraph}[int(case["directed"]), int(case["multi"])]
    N = cls()
    N.add_nodes_from(names)
    W = np.zeros((n, n))
    which = {"default": 0, "weight": 0, "length": 1, None: None}[case["weight"]]
    seen = {}
    for k, (i, j, w, l) in enumerate(case["edges"]):
        d = {key: val for key, val in (("weight", w), ("length", l)) if val is not None}
        key = (i, j) if case["directed"] else tuple(sorted((i, j)))
        if not case["multi"] and key in seen:
            continue
        seen[key] = True
        N.add_edge(names[i], names[j], **d)
        val = 1 if which is None else (w, l)[which]
        val = 1 if val is None else val
        W[i, j] += val
        if not case["directed"] and i != j:
            W[j, i] += val
    attrs = {}
    for i, name, val in case["attrs"]:
        N.nodes[names[i]][name] = val
        attrs.setdefault(name, np.full(n, np.nan))[i] = val
    note.nontrivial(bool(case["edges"]))
    note.label("multi" if case["multi"] else "simple", "directed" if case["directed"] else "undirected", f"weight={case['weight']}")
    G = graphs.Graph.from_networkx(N) if case["weight"] == "default" else graphs.Graph.from_networkx(N, weight=case["weight"])
    need(np.array_equal(G.W.toarray(), W), "imported weights %s, expected %s", G.W.toarray(), W)
    need(G.n_edges == (np.count_nonzero(W) if np.any(W != W.T) else np.count_nonzero(np.triu(W))), "edges")
    # q_0, q_1(, q_2) are dimensions of one signal
    q = [k for k in ("q_0", "q_1", "q_2") if k in attrs]
    if q in (["q_0", "q_1"], ["q_0", "q_1", "q_2"]):
        attrs["q"] = np.stack([attrs.pop(k) for k in q], 1)
        note.label("joined")
    need(set(G.signals) == set(attrs), "signals %s, expected %s", sorted(G.signals), sorted(attrs))
    for k, x in attrs.items():
        need(np.array_equal(G.signals[k], x, equal_nan=True), "signal %s: %s, expected %s", k, G.signals[k], x)


PARTS = [
    Part("round-trip", cases(), check, quick=3000, large=200),
    Part("import", import_cases(), check_import, quick=3000, large=200),
]


def single_column(case, note):
    G = graphs.Graph(np.ones((3, 3)) - np.eye(3))
    x = np.arange(3.0 * case["columns"]).reshape(3, case["columns"])
    G.set_signal(x, "x")
    H = graphs.Graph.from_networkx(G.to_networkx())
    need(set(H.signals) == {"x"} and np.shape(H.signals["x"]) == x.shape, "signals %s", H.signals)


KNOWN = {"C15-single-column": single_column}
