"""C27: plots of graphs, signals, filters and spectrograms."""
import copy
import json
import os
import subprocess
import sys

os.environ.setdefault("QT_QPA_PLATFORM", "offscreen")
os.environ.setdefault("MPLBACKEND", "agg")
os.environ.setdefault("QT_LOGGING_RULES", "*.warning=false;default.warning=false")

import matplotlib  # noqa: E402

matplotlib.use("agg")

import matplotlib.pyplot as plt  # noqa: E402
import numpy as np  # noqa: E402
from hypothesis import strategies as st  # noqa: E402
from matplotlib.figure import Figure  # noqa: E402

from pygsp import filters, plotting  # noqa: E402

from ..gens import LAP, build, close, dense, graph, kernel, kernel_fn, need, norm_of, raises, spectral_scale, subset, tensor  # noqa: E402
from ..runner import Part  # noqa: E402

RULE = ("Random graphs (directed, self-loops, edgeless, a single vertex or edge) with one- to three-dimensional coordinates; signals or colors or sizes for vertices and edges, highlighted vertices in any kind of iterable, limits, indices, "
        "with the figure given or created; filter banks with or without Fourier basis, sums and labels. The oracle reads the artists back: marker positions, values, sizes, segment end points, transparencies, widths, curves. The pyqtgraph "
        "backend (offscreen) is read back likewise: positions, adjacency, brushes, and spectrograms up to reordering of vertices. Every argument, option and signal is compared with a copy taken before. "
        "Plots are also the first of a new process. Non-trivial: an edge and a signal which is not constant (graphs), more than one filter or eigenvalues shown (filters).")
ASSUMPTIONS = ["signals which matplotlib would take for a colour (three or four numbers in [0, 1]) are excluded", "one-dimensional coordinates need a signal to plot", "the Agg backend and the offscreen Qt platform"]


def colorlike(x):
    try:
        if matplotlib.colors.is_color_like(x):
            return True
        return all(map(matplotlib.colors.is_color_like, x))
    except TypeError:
        return False


def seq(kind, x):
    return {"list": list, "tuple": tuple, "array": np.array, "gen": lambda v: (i for i in v), "column": lambda v: np.array(v)[:, None], "row": lambda v: np.array(v)[None, :]}[kind](x)


@st.composite
def graph_cases(draw):
    g = draw(graph(min_n=1, max_n=7, loops=True))
    if draw(st.integers(0, 11)) == 0:  # a single vertex
        g = dict(g, n=1, edges=[e for e in g["edges"] if e[0] == e[1] == 0])
    n, m = g["n"], len(g["edges"])
    dim = draw(st.sampled_from([1, 2, 2, 3]))
    vals = lambda k: draw(st.lists(st.integers(-50, 50).map(lambda v: v / 10 + 2 * (v >= 0)), min_size=k, max_size=k))
    kinds = ["list", "tuple", "array", "row"]
    return {"g": g, "dim": dim, "coords": draw(tensor((n, dim) if dim > 1 else (n,))), "intcoords": draw(st.booleans()),
            "vc": draw(st.sampled_from(["none", "signal", "signal", "signal", "color", "rgba"])), "vs": draw(st.sampled_from(["none", "scalar", "signal", "const"])),
            "ec": draw(st.sampled_from(["none", "signal", "color"])), "ew": draw(st.sampled_from(["none", "scalar", "signal"])),
            "v": vals(n), "s": vals(n), "e": vals(m), "w": vals(m), "k1": draw(st.sampled_from(kinds)), "k2": draw(st.sampled_from(kinds)), "k3": draw(st.sampled_from(kinds)),
            "hl": draw(st.one_of(st.none(), st.integers(0, n - 1), subset(n))), "hk": draw(st.sampled_from(["list", "tuple", "array", "gen"])),
            "edges": draw(st.sampled_from([None, True, False])), "indices": draw(st.booleans()), "colorbar": draw(st.sampled_from([None, True, False])), "limits": draw(st.sampled_from([None, None, [-3.0, 7.0]])),
            "ax": draw(st.integers(0, 3)) > 0, "title": draw(st.sampled_from([None, "", "a title"])), "opts": draw(st.sampled_from([{}, {}, {"vertex_size": 30, "edge_width": 5, "normalize_intercept": 0.5}, {"edge_color": (0.1, 0.2, 0.3, 1), "vertex_color": "red"}, {"normalize_intercept": 0}, {"normalize_intercept": 0.0625}])),
            "draw": draw(st.integers(0, 7)) == 0, "cols": draw(st.integers(0, 2))}


def norm01(x, b):
    x = np.asarray(x, dtype=float)
    p = np.ptp(x)
    return np.full(x.shape, 0.5) if p == 0 else (1 - b) * (x - x.min()) / p + b


def offsets(sc, dim):
    if dim == 2:
        return np.asarray(sc.get_offsets(), dtype=float)
    return np.stack([np.asarray(a, dtype=float) for a in sc._offsets3d], axis=1)


def graph_plot(c, note):
    g, n, dim = c["g"], c["g"]["n"], c["dim"]
    W = dense(g)
    coords = np.array(c["coords"])
    if c["intcoords"]:
        coords = coords.astype(int)
    G = build(g, coords=coords, plotting=dict(c["opts"]))
    m = G.n_edges
    src, dst, _ = [np.array(a) for a in G.get_edge_list()]
    G.set_signal(np.arange(n), "a")
    kw, snap = {}, {}
    if dim == 1:
        c = dict(c, vc="signal", ec="none", ew="none", indices=False)
    v = np.array(c["v"])
    if c["vc"] == "signal":
        if dim == 1 and c["cols"]:
            v = np.stack([v + k for k in range(c["cols"])], axis=1)
            kw["vertex_color"] = v
        else:
            kw["vertex_color"] = seq(c["k1"], v)
        if colorlike(kw["vertex_color"]):
            return
    elif c["vc"] == "color":
        kw["vertex_color"] = "green"
    elif c["vc"] == "rgba":
        kw["vertex_color"] = np.stack([np.linspace(0, 1, n), np.full(n, 0.3), np.full(n, 0.7)], axis=1)
    if c["vs"] == "scalar":
        kw["vertex_size"] = 77
    elif c["vs"] in ("signal", "const"):
        kw["vertex_size"] = seq(c["k2"], c["s"] if c["vs"] == "signal" else [3.0] * n)
    es = np.resize(np.array(c["e"] or [1.0]), m)
    ew = np.resize(np.array(c["w"] or [1.0]), m)
    if c["ec"] == "signal" and m:
        kw["edge_color"] = seq(c["k3"], es)
        if colorlike(kw["edge_color"]):
            return
    elif c["ec"] == "color":
        kw["edge_color"] = "blue"
    if c["ew"] == "scalar":
        kw["edge_width"] = 3
    elif c["ew"] == "signal" and m:
        kw["edge_width"] = seq(c["k3"], ew)
    hl = []
    if c["hl"] is not None:
        hl = [c["hl"]] if isinstance(c["hl"], int) else list(c["hl"])
        kw["highlight"] = c["hl"] if isinstance(c["hl"], int) else seq(c["hk"], hl) if hl or c["hk"] != "array" else []
    for name in ("edges", "colorbar", "limits", "title"):
        if c[name] is not None:
            kw[name] = c[name]
    if c["indices"]:
        kw["indices"] = True
    if c["ax"]:
        fig = Figure()
        kw["ax"] = fig.add_subplot(111, **({"projection": "3d"} if dim == 3 else {}))
    snap = {k: copy.deepcopy(x) for k, x in kw.items() if k != "ax" and not hasattr(x, "__next__")}
    options = copy.deepcopy(G.plotting)
    note.nontrivial(m > 0 and np.ptp(v) > 0 and c["vc"] == "signal")
    note.label(f"{dim}-D", c["vc"], "highlight" if hl else "no highlight")
    try:
        fig2, ax = G.plot(backend="matplotlib", **kw)
        if c["ax"]:
            need(ax is kw["ax"] and fig2 is fig, "not drawn on the given axes")
        if c["draw"]:
            fig2.canvas.draw()
        for k, x in snap.items():
            need(np.array_equal(np.asarray(x, dtype=object), np.asarray(kw[k], dtype=object)), "argument %s modified", k)
        need(G.plotting == options, "plotting options modified: %s", G.plotting)
        need(np.array_equal(G.W.toarray(), W) and np.array_equal(G.coords, coords) and np.array_equal(G.signals["a"], np.arange(n)) and len(G.signals) == 1, "graph modified")
        inspect(c, G, kw, ax, coords, v, src, dst, m, hl, es, ew)
    finally:
        plotting.close_all()
        plt.close("all")


def inspect(c, G, kw, ax, coords, v, src, dst, m, hl, es, ew):
    n, dim = G.N, c["dim"]
    title = repr(G) if c["title"] is None else c["title"]
    if c["title"] is not None:
        need(ax.get_title() == title, "title %r", ax.get_title())
    P = coords.astype(float)
    if dim == 1:
        lines = ax.lines
        V = v.reshape(n, -1)
        need(len(lines) == V.shape[1] + len(hl), "%d lines", len(lines))
        for k in range(V.shape[1]):
            x, y = lines[k].get_data()
            need(np.array_equal(x, P) and np.array_equal(y, V[:, k]), "curve %s, %s", x, y)
        need(sorted(l.get_xdata()[0] for l in lines[V.shape[1]:]) == sorted(P[hl]), "highlighted vertices")
        lo, hi = ax.get_ylim()
        if c["limits"]:
            need((lo, hi) == tuple(c["limits"]), "limits %s", (lo, hi))
        else:
            need(lo <= V.min() and hi >= V.max(), "values %s..%s out of the limits %s", V.min(), V.max(), (lo, hi))
            if np.ptp(V) > 0:
                need(lo >= V.min() - 0.2 * abs(V.min()) - 1e-9 and hi <= V.max() + 0.2 * abs(V.max()) + 1e-9, "limits %s for %s..%s", (lo, hi), V.min(), V.max())
        return
    cols = list(ax.collections)
    scs = [x for x in cols if "Path" in type(x).__name__]
    lcs = [x for x in cols if "Line" in type(x).__name__]
    edges = c["edges"] is not False
    need(len(scs) == 2 and len(lcs) == int(edges), "artists %s", cols)
    sc, sh = scs
    close(offsets(sc, dim), P, 1e-12, "position of the markers", ref=max(norm_of(P), 1))
    need(len(offsets(sh, dim)) == len(hl), "highlighted: %s", offsets(sh, dim))
    if hl:
        close(offsets(sh, dim), P[hl], 1e-12, "position of the highlights", ref=max(norm_of(P), 1))
    base = G.plotting["vertex_size"]
    b = G.plotting["normalize_intercept"]
    sizes = np.broadcast_to(np.asarray(sc.get_sizes() if dim == 2 else sc._sizes3d, dtype=float), n) if c["vs"] in ("none", "scalar") else np.asarray(sc.get_sizes() if dim == 2 else sc._sizes3d, dtype=float)
    want = {"none": np.full(n, base), "scalar": np.full(n, 77.0)}.get(c["vs"])
    if want is None:
        want = base * 4 * norm01(c["s"] if c["vs"] == "signal" else [3.0] * n, b) ** 2
    close(sizes, want, 1e-9, "sizes", ref=norm_of(want))
    if dim == 2:
        if hl:
            close(np.broadcast_to(np.asarray(sh.get_sizes(), dtype=float), len(hl)), 2 * want[hl], 1e-9, "sizes of the highlights", ref=norm_of(want))
    if c["vc"] == "signal":
        close(np.asarray(sc.get_array(), dtype=float), v, 1e-12, "values of the markers", ref=max(norm_of(v), 1))
        lo, hi = sc.get_clim()
        if c["limits"]:
            need((lo, hi) == tuple(c["limits"]), "limits %s", (lo, hi))
        else:
            need(lo <= v.min() and hi >= v.max(), "values %s..%s out of the limits %s", v.min(), v.max(), (lo, hi))
            need(lo >= v.min() - 0.2 * abs(v.min()) - 1e-9 and hi <= v.max() + 0.2 * abs(v.max()) + 1e-9, "limits %s for %s..%s", (lo, hi), v.min(), v.max())
        need((len(ax.figure.axes) == 2) == (c["colorbar"] is not False), "%d axes: colorbar", len(ax.figure.axes))
    else:
        need(len(ax.figure.axes) == 1, "colorbar without a signal")
        if dim == 2:
            fc = sc.get_facecolors()
            want = {"none": [matplotlib.colors.to_rgb(G.plotting["vertex_color"])], "color": [matplotlib.colors.to_rgb("green")], "rgba": kw.get("vertex_color")}[c["vc"]]
            close(np.broadcast_to(fc[:, :3], (n, 3)), np.broadcast_to(np.array(want), (n, 3)), 1e-9, "colors", ref=1)
    texts = [t.get_text() for t in ax.texts]
    need(sorted(texts) == (sorted(str(i) for i in range(n)) if c["indices"] else []), "texts %s", texts)
    if c["indices"] and dim == 2:
        for t in ax.texts:
            need(np.allclose(t.get_position(), P[int(t.get_text())]), "index %s at %s", t.get_text(), t.get_position())
    if not edges:
        return
    lc = lcs[0]
    segs = np.asarray(lc.get_segments() if dim == 2 else lc._segments3d, dtype=float).reshape(-1, 2, dim)
    need(len(segs) == m, "%d segments for %d edges", len(segs), m)
    if m:
        close(segs, np.stack([P[src], P[dst]], 1), 1e-12, "segments", ref=max(norm_of(P), 1))
        w = np.asarray(lc.get_linewidths(), dtype=float)
        ref = {"none": G.plotting["edge_width"], "scalar": 3}.get(c["ew"])
        if ref is not None:
            close(np.broadcast_to(w, m), np.full(m, ref), 1e-9, "widths")
        else:
            close(w, G.plotting["edge_width"] * 2 * norm01(ew, b), 1e-9, "widths of the edges", ref=10)
        col = np.asarray(lc.get_colors() if dim == 2 else lc._edgecolor3d if hasattr(lc, "_edgecolor3d") else lc.get_colors(), dtype=float)
        ec = matplotlib.colors.to_rgba(G.plotting["edge_color"])
        if c["ec"] == "none":
            close(np.broadcast_to(col, (m, 4)), np.broadcast_to(ec, (m, 4)), 1e-9, "colors of the edges", ref=1)
        elif c["ec"] == "color":
            close(np.broadcast_to(col[:, :3], (m, 3)), np.broadcast_to([0, 0, 1.0], (m, 3)), 1e-9, "colors of the edges", ref=1)
        else:
            close(col, np.concatenate([np.tile(ec[:3], (m, 1)), 0.9 * norm01(es, b)[:, None]], 1), 1e-9, "transparency of the edges", ref=1)


# ------------------------------------------------------------------ inadmissible arguments
@st.composite
def reject_cases(draw):
    return {"g": draw(graph(min_n=5, max_n=8, directed=False, loops=False, connected=True)), "what": draw(st.sampled_from(["vertex_color", "vertex_size", "edge_color", "edge_width"])),
            "d": draw(st.sampled_from([-1, 1, 2])), "two": draw(st.booleans()), "seed": draw(st.integers(0, 1000)), "backend": draw(st.sampled_from(["matplotlib", "pyqtgraph"]))}


def reject(c, note):
    G = build(c["g"])
    note.nontrivial(True)
    note.label(c["what"])
    raises(AttributeError, lambda: G.plot(), "plot without coordinates")
    G.set_coordinates("ring2D")
    n = G.N if c["what"].startswith("vertex") else G.n_edges
    x = 10 + np.arange(2.0 * (n + 2))
    bad = x[:2 * n].reshape(n, 2) if c["two"] else x[:n + c["d"]]
    if len(bad) < 1:
        return
    try:
        if not (c["backend"] == "pyqtgraph" and c["what"].startswith("edge")):
            raises(ValueError, lambda: G.plot(backend=c["backend"], **{c["what"]: bad}), f"{c['what']} of shape {bad.shape} for {n}")
        raises(ValueError, lambda: G.plot(backend="nope"), "unknown backend")
        G.coords = np.zeros((G.N, 4))
        raises(AttributeError, lambda: G.plot(), "four dimensions")
        G.coords = np.zeros((G.N + c["d"], 2))
        raises(AttributeError, lambda: G.plot(), "wrong number of coordinates")
    finally:
        plotting.close_all()
        plt.close("all")


# ------------------------------------------------------------------ filters
@st.composite
def filter_cases(draw):
    return {"g": draw(graph(min_n=2, max_n=7, directed=False, min_edges=1)), "lap": draw(LAP), "ks": draw(st.lists(kernel(), min_size=1, max_size=4)), "basis": draw(st.booleans()),
            "n": draw(st.sampled_from([None, 2, 10, 37])), "eigenvalues": draw(st.sampled_from([None, True, False])), "sum": draw(st.sampled_from([None, True, False])), "labels": draw(st.sampled_from([None, True, False])),
            "title": draw(st.sampled_from([None, "x"])), "kw": draw(st.sampled_from([{}, {}, {"linewidth": 3}, {"linestyle": "--"}, {"alpha": 0.9}, {"label": "mine"}])), "lmax": draw(st.sampled_from([None, None, "lanczos", "bounds"])), "draw": draw(st.integers(0, 7)) == 0}


def filter_plot(c, note):
    W = dense(c["g"])
    G = build(c["g"], lap_type=c["lap"])
    if c["basis"]:
        G.compute_fourier_basis()
    elif c["lmax"] and not (c["lap"] == "normalized" and c["lmax"] == "bounds" and not W.any()):
        G.estimate_lmax(c["lmax"])
    s = spectral_scale(None, W, c["lap"])
    fns = [kernel_fn(k, s) for k in c["ks"]]
    bank = filters.Filter(G, fns)
    shown = c["eigenvalues"] if c["eigenvalues"] is not None else c["basis"]
    if c["eigenvalues"] and not c["basis"]:
        G.compute_fourier_basis()
    summed = c["sum"] if c["sum"] is not None else len(fns) > 1
    labeled = c["labels"] if c["labels"] is not None else len(fns) > 1
    kw = {k: c[k] for k in ("n", "eigenvalues", "sum", "labels", "title") if c[k] is not None}
    kw.update(c["kw"])
    fig = Figure()
    ax = fig.add_subplot(111)
    note.nontrivial(len(fns) > 1 or shown)
    note.label("eigenvalues" if shown else "no eigenvalues", "sum" if summed else "no sum", f"{len(fns)} filters")
    opts = dict(c["kw"])
    e = G.e.copy() if shown or c["basis"] else None
    fig2, ax2 = bank.plot(ax=ax, **kw)
    need(ax2 is ax and fig2 is fig, "not drawn on the given axes")
    if c["draw"]:
        fig.canvas.draw()
    need(np.array_equal(G.W.toarray(), W) and c["kw"] == opts, "graph or options modified")
    need(e is None or np.array_equal(G.e, e), "eigenvalues modified")
    curves = [l for l in ax.lines if l.get_marker() == "None"]
    dots = [l for l in ax.lines if l.get_marker() != "None"]
    need(len(curves) == len(fns) + summed, "%d curves", len(curves))
    need(len(dots) == (len(fns) + summed if shown else 0), "%d series of points", len(dots))
    total = c["n"] or 500
    x0 = np.linspace(0, G.lmax, total)
    x = np.sort(np.concatenate([x0, G.e])) if shown else x0
    ys = [np.broadcast_to(f(x), x.shape) for f in fns]
    if summed:
        ys.append(sum(np.square(y) for y in ys))
    for k, (l, y) in enumerate(zip(curves, ys)):
        a, b = l.get_data()
        close(a, x, 1e-9, f"abscissae of curve {k}", ref=max(G.lmax, 1e-300))
        close(b, y, 1e-7, f"response of curve {k}", ref=max(norm_of(y), 1))
    if shown:
        ye = [np.broadcast_to(f(G.e), G.e.shape) for f in fns]
        if summed:
            ye.append(sum(np.square(y) for y in ye))
        for k, (l, y) in enumerate(zip(dots, ye)):
            a, b = l.get_data()
            close(a, G.e, 1e-9, f"eigenvalues of curve {k}", ref=max(G.lmax, 1e-300))
            close(b, y, 1e-7, f"response at the eigenvalues {k}", ref=max(norm_of(y), 1))
            need(l.get_color() == curves[k].get_color(), "color of the points of curve %d", k)
        lc = [x for x in ax.collections if "Line" in type(x).__name__]
        need(len(lc) == 1, "eigenvalues not shown")
        segs = np.array(lc[0].get_segments())
        close(segs[:, :, 0], np.stack([G.e, G.e], 1), 1e-9, "position of the eigenvalues", ref=max(G.lmax, 1e-300))
    else:
        need(not ax.collections, "eigenvalues shown")
    if "label" in c["kw"]:
        need(all(l.get_label().startswith("_") or "mine" not in l.get_label() for l in dots), "label of the points")
        need(labeled or all(l.get_label() == "mine" for l in curves), "labels %s", [l.get_label() for l in curves])
    need((ax.get_legend() is not None) == labeled, "legend %s", ax.get_legend())
    if labeled:
        need(len(ax.get_legend().get_texts()) >= len(fns) + summed, "legend of %d entries", len(ax.get_legend().get_texts()))
    need(ax.get_title() == (c["title"] or repr(bank)), "title %r", ax.get_title())


# ------------------------------------------------------------------ pyqtgraph
@st.composite
def qt_cases(draw):
    g = draw(graph(min_n=1, max_n=6, loops=True))
    n = g["n"]
    return {"g": g, "dim": draw(st.sampled_from([2, 2, 3])), "coords": draw(tensor((n, 3))), "v": draw(st.lists(st.integers(-40, 40).map(lambda v: v / 4 + 3 * (v >= 0)), min_size=n, max_size=n)), "signal": draw(st.integers(0, 2)) > 0,
            "a": draw(st.sampled_from([1, 2, 0.5])), "b": draw(st.sampled_from([0, 5, -20])), "edges": draw(st.sampled_from([None, True, False])), "size": draw(st.sampled_from([None, 50])),
            "M": draw(st.integers(2, 5)), "perm": draw(st.permutations(list(range(n)))), "limits": draw(st.booleans()), "flat": draw(st.integers(0, 7)) == 0}


def items(w):
    return list(w.items()) if callable(w.items) else list(w.items)


def brushes(it):
    return [p.brush().color().getRgb() for p in it.points()]


def by_type(w, name):
    return [i for i in items(w) if type(i).__name__ == name]


def qt(c, note):
    n, dim = c["g"]["n"], c["dim"]
    coords = np.array(c["coords"])[:, :dim]
    G = build(c["g"], coords=coords.copy())
    W = dense(c["g"])
    src, dst, _ = G.get_edge_list()
    v = np.array(c["v"])
    keep = v.copy()
    lim = [-20.0, 30.0] if c["limits"] else None
    note.nontrivial(G.n_edges > 0 and np.ptp(v) > 0 and c["signal"])
    note.label(f"{dim}-D", "signal" if c["signal"] else "graph")
    plotting.close_all()

    def draw(signal, limits):
        kw = {"backend": "pyqtgraph", "title": "t"}
        if c["edges"] is not None:
            kw["edges"] = c["edges"]
        if c["size"]:
            kw["vertex_size"] = c["size"]
        if limits:
            kw["limits"] = limits
        if signal is not None:
            kw["vertex_color"] = signal
        G.plot(**kw)
        return plotting._qtg_widgets[-1]

    try:
        w = draw(v if c["signal"] else None, lim)
        need(np.array_equal(v, keep) and np.array_equal(G.coords, coords) and np.array_equal(G.W.toarray(), W), "signal or graph modified")
        edges = c["edges"] is not False
        if dim == 2:
            gi = by_type(w, "GraphItem")
            need(len(gi) == int(edges or not c["signal"]), "graph items %s", gi)
            if gi:
                close(gi[0].pos, coords, 1e-6, "positions", ref=max(norm_of(coords), 1))
                adj = np.zeros((0, 2)) if gi[0].adjacency is None else gi[0].adjacency
                need(np.array_equal(adj, np.stack([src, dst], 1)), "edges %s", adj)
        else:
            li, pi = by_type(w, "GLLinePlotItem"), by_type(w, "GLScatterPlotItem")
            need(len(li) == int(edges) and len(pi) == 1, "items %s", items(w))
            close(pi[0].pos, coords, 1e-6, "positions", ref=max(norm_of(coords), 1))
            if li and G.n_edges:
                close(np.asarray(li[0].pos).reshape(-1, 2, 3), np.stack([coords[src], coords[dst]], 1), 1e-6, "segments", ref=max(norm_of(coords), 1))
        if not c["signal"]:
            return

        def colors(w):
            if dim == 2:
                sc = [i for i in by_type(w, "ScatterPlotItem") if len(set(brushes(i))) >= 1 and i is not getattr(by_type(w, "GraphItem")[0] if by_type(w, "GraphItem") else None, "scatter", None)]
                need(len(sc) == 1, "%d sets of markers", len(sc))
                x, y = sc[0].getData()
                close(np.stack([x, y], 1), coords, 1e-6, "markers", ref=max(norm_of(coords), 1))
                return np.array(brushes(sc[0]), dtype=float) / 255
            return np.asarray(by_type(w, "GLScatterPlotItem")[0].color, dtype=float)

        col = colors(w)
        need(col.shape == (n, 4), "colors %s", col.shape)
        # the colors only depend on the position between the limits
        a, b = c["a"], c["b"]
        lo, hi = lim or [v.min() - 0.05 * abs(v.min()), v.max() + 0.05 * abs(v.max())]
        if hi > lo:
            col2 = colors(draw(a * v + b, [a * lo + b, a * hi + b]))
            close(col2, col, 0.02, "colors of the rescaled signal", ref=1)
            # against signals spanning the whole range
            t = (v - lo) / (hi - lo)
            for i in range(n):
                for j in range(n):
                    if abs(t[i] - t[j]) < 1e-9:
                        need(np.abs(col[i] - col[j]).max() < 0.02, "different colors for equal values")
                    elif abs(t[i] - t[j]) > 0.15:
                        need(np.abs(col[i] - col[j]).max() > 0.03, "same colors for values %s and %s of %s..%s", v[i], v[j], lo, hi)
    finally:
        plotting.close_all()


def spectrogram(c, note):
    n, M = c["g"]["n"], c["M"]
    G = build(c["g"], coords=np.array(c["coords"])[:, :2])
    rng = np.arange(n * M, dtype=float).reshape(n, M)
    G.spectr = (rng * 7 % 11) + rng / 100
    if c["flat"]:
        G.spectr = np.full((n, M), float(c["v"][0]))
        note.label("constant")
    keep = G.spectr.copy()
    perm = np.array(c["perm"])
    note.nontrivial(n > 2)
    plotting.close_all()

    def cells(**kw):
        G.plot_spectrogram(**kw)
        sc = [i for i in by_type(plotting._qtg_widgets[-1], "ScatterPlotItem") if len(i.data)]
        need(len(sc) == 1, "%d sets of cells", len(sc))
        x, y = sc[0].getData()
        need(len(x) == n * M, "%d cells", len(x))
        return {(int(a), int(b)): np.array(k, dtype=float) for a, b, k in zip(x, y, brushes(sc[0]))}

    try:
        a = cells()
        need(np.array_equal(G.spectr, keep), "spectrogram modified")
        need(set(a) == {(i, j) for i in range(n) for j in range(M)}, "cells %s", sorted(a))
        b = cells(node_idx=perm)
        flat = np.argsort(keep, axis=None)
        for i in range(n):
            for j in range(M):
                need(np.array_equal(b[i, j], a[int(perm[i]), j]), "order of the vertices")
        lo, hi = [np.unravel_index(k, keep.shape) for k in (flat[0], flat[-1])]
        if np.ptp(keep) > 0:
            close(a[int(lo[0]), int(lo[1])][:3], [20, 133, 212], 0.02, "color of the lowest value", ref=255)
            close(a[int(hi[0]), int(hi[1])][:3], [249, 251, 14], 0.02, "color of the highest value", ref=255)
        else:
            need(len({tuple(k) for k in a.values()}) == 1, "colors of a constant spectrogram")
            need(max(a[0, 0][:3]) > 60, "color %s is not of the map", a[0, 0])
    finally:
        plotting.close_all()


# ------------------------------------------------------------------ the first plot of a process
FIRST = """
import json, os, sys
import numpy as np
from pygsp import graphs, plotting
c = json.loads(sys.argv[1])
n = c["n"]
G = graphs.Ring(n)
coords = np.stack([np.arange(n), np.arange(n) % 2, np.arange(n) % 3], 1)[:, :c["dim"]].astype(float)
G.set_coordinates(coords)
plotting.BACKEND = "pyqtgraph"
for k in range(c["times"]):
    if c.get("spectrogram"):
        G.plot_spectrogram()
    else:
        G.plot(np.arange(float(n)) if c["signal"] else None, title="")
    if c["close"]:
        plotting.close_all()
print("plotted", len(plotting._qtg_widgets))
sys.stdout.flush()
os._exit(0)
"""


@st.composite
def first_cases(draw):
    return {"n": draw(st.integers(3, 9)), "dim": draw(st.sampled_from([3, 3, 2])), "signal": draw(st.booleans()), "times": draw(st.integers(1, 2)), "close": draw(st.booleans()), "spectrogram": draw(st.integers(0, 3)) == 0}


def first(c, note):
    note.nontrivial(True)
    note.label(f"{c['dim']}-D")
    p = subprocess.run([sys.executable, "-c", FIRST, json.dumps(c)], capture_output=True, text=True, timeout=120, env=dict(os.environ, PYTHONPATH=os.pathsep.join(sys.path)))
    need(p.returncode == 0 and f"plotted {0 if c['close'] else c['times']}" in p.stdout, "exit code %s: %s %s", p.returncode, p.stdout, p.stderr[-800:])


PARTS = [
    Part("first plot", first_cases(), first, 6, thorough=40),
    Part("graph", graph_cases(), graph_plot, 1300, large=80),
    Part("reject", reject_cases(), reject, 60),
    Part("filter", filter_cases(), filter_plot, 500, large=60),
    Part("pyqtgraph", qt_cases(), qt, 450, large=40),
    Part("spectrogram", qt_cases(), spectrogram, 120),
]
