"""C21: nearest-neighbour graphs and image-patch graphs."""
import sys

import numpy as np
from hypothesis import strategies as st

from pygsp import graphs

from .. import gens
from ..gens import LAP, close, need, raises
from ..runner import Part

RULE = ("Random point sets (lattice points with ties and coinciding points, points in general position, clusters of very different densities, 1 to 5 dimensions, integer, single "
        "or double type), all metrics, k, radii, widths, centerings, rescalings and symmetrizations, with every search back end (KD-tree, FLANN, the scikit-learn fallback and the last fallback); weights are compared "
        "with those of an exhaustive search; with ties, any choice among the tied is accepted. Random gray or color images and patch shapes against patches cut by hand. "
        "Non-trivial: more points than neighbours plus one, some pair not joined.")
ASSUMPTIONS = ["FLANN is approximate: only the weights and the number of the edges it returns are judged", "not all points coincide"]
METRICS = {"euclidean": 2, "manhattan": 1, "max_dist": np.inf, "minkowski": None}


@st.composite
def cases(draw):
    d = draw(st.integers(1, 5))
    n = draw(st.integers(2, 14)) if not gens.LARGE else draw(st.one_of(st.integers(15, 60), st.integers(61, 130)))
    kind = draw(st.sampled_from(["general", "general", "lattice", "clusters"]))
    lim = {"general": 10 ** 6, "lattice": 3, "clusters": 1000}[kind]
    if gens.LARGE:
        x = draw(gens.rng()).integers(0, lim + 1, (n, d)).tolist()
    else:
        x = [[draw(st.integers(0, lim)) for _ in range(d)] for _ in range(n)]
    if kind == "clusters":
        x = [[v / 10 ** 4 + 10 * (i % 3) for v in row] for i, row in enumerate(x)]
    case = {"x": x, "kind": kind, "type": draw(st.sampled_from(["float", "float", "int", "float32" if kind == "lattice" else "float"])) if kind != "clusters" else "float",
            "nn": draw(st.sampled_from(["knn", "knn", "radius"])), "k": draw(st.one_of(st.integers(1, 12), st.integers(1, n - 1)) if gens.LARGE else st.integers(1, n - 1)), "center": draw(st.sampled_from([None, False, True])),
            "rescale": draw(st.sampled_from([None, False, True])), "sigma": draw(st.sampled_from([None, None, 0.5, 2.0])), "rank": draw(st.integers(0, 1000)),
            "sym": draw(st.sampled_from([None, "average", "maximum", "fill", "tril", "triu"])), "metric": draw(st.sampled_from([None, "euclidean", "manhattan", "max_dist", "minkowski"])),
            "order": draw(st.sampled_from([1, 1.5, 2, 3])), "search": draw(st.sampled_from(["kdtree", "kdtree", "kdtree", "sklearn", "last"])), "lap": draw(LAP)}
    if kind == "lattice" and draw(st.integers(0, 2)) == 0:
        case.update(nn="radius", center=False, rescale=False, metric=draw(st.sampled_from([None, "euclidean", "manhattan", "max_dist"])))
    return case


def prepare(X, center, rescale):
    n, d = X.shape
    if center:
        X = X - X.mean(0)
    if rescale:
        radius = 0.5 * np.sqrt(((X.max(0) - X.min(0)) ** 2).sum())
        X = X * (n ** (1 / min(d, 3)) / 10 / radius)
    return X


def distances(X, p):
    D = np.abs(X[:, None] - X[None])
    if np.isinf(p):
        return D.max(-1)
    return (D ** p).sum(-1) ** (1 / p)


def sym(W, method):
    if method == "average":
        return (W + W.T) / 2
    if method == "maximum":
        return np.maximum(W, W.T)
    if method == "fill":
        return np.where(W == 0, W.T, np.where(W.T == 0, W, (W + W.T) / 2))
    T = np.tril(W) if method == "tril" else np.triu(W)
    return T + T.T - np.diag(np.diag(T))


def hide(*modules):
    saved = {m: sys.modules.get(m) for m in modules}
    for m in modules:
        sys.modules[m] = None
    return saved


def restore(saved):
    for m, v in saved.items():
        if v is None:
            sys.modules.pop(m, None)
        else:
            sys.modules[m] = v


def check(c, note):
    X = np.array(c["x"], dtype=float)
    if c["kind"] == "general" and c["type"] in ("float", "list"):
        X = X / 1e5
    X = X.astype({"int": int, "float32": np.float32}.get(c["type"], float))
    n, d = X.shape
    if np.all(X == X[0]):
        return
    center, rescale = (True if c[v] is None else c[v] for v in ("center", "rescale"))
    p = METRICS[c["metric"] or "euclidean"] or c["order"]
    Y = prepare(X.astype(float), center, rescale)
    D = distances(Y, p)
    off = ~np.eye(n, dtype=bool)
    kw = {k: c[k] for k in ("center", "rescale", "sigma") if c[k] is not None}
    if c["metric"]:
        kw["dist_type"] = c["metric"]
        if c["metric"] == "minkowski":
            kw["order"] = c["order"]
    if c["sym"]:
        kw["symmetrize_type"] = c["sym"]
    k = c["k"]
    eps, boundary = None, False
    if c["nn"] == "radius":
        near = np.sort(D[off])
        eps = float(near[c["rank"] % len(near)]) * (1 + 1e-3) + 1e-9
        whole = near[near == np.round(near)]
        if c["kind"] == "lattice" and not center and not rescale and p in (1, 2, np.inf) and whole.size:
            eps, boundary = float(whole[c["rank"] % len(whole)]), True  # computed without rounding
        kw.update(NNtype="radius", epsilon=eps)
        if c["rank"] % 2:
            kw["k"] = k
    else:
        kw["k"] = k
    search = c["search"] if c["nn"] == "knn" else "kdtree"
    if search != "kdtree":
        kw["use_flann"] = True
    saved = hide(*{"sklearn": ["pyflann"], "last": ["pyflann", "sklearn.neighbors"]}.get(search, []))
    given = X.tolist() if c["type"] == "list" else X.copy()
    try:
        G = graphs.NNGraph(given, lap_type=c["lap"], **kw)
    except ValueError as e:
        De = np.where(off, D, np.inf)
        used = np.sort(De, axis=1)[:, :k] if eps is None else D[(D <= eps) & off]
        # no width can be deduced from neighbours which coincide, or from no neighbours at all
        need(c["sigma"] is None and (used.size == 0 or used.mean() < 1e-12), "rejected: %s", e)
        return
    finally:
        restore(saved)
    need(np.array_equal(given, X), "the points passed were modified")
    note.label(c["nn"], search, c["kind"])
    need(G.n_vertices == n and G.lap_type == c["lap"], "vertices or Laplacian")
    s = max(np.abs(Y).max(), 1e-300)
    tol = 1e-5 if c["type"] == "float32" else 1e-10
    close(G.coords, Y, tol, "coordinates", ref=s)
    need(np.array_equal(np.asarray(G.Xin), X), "Xin")
    W = G.W.toarray()
    need(np.array_equal(W, W.T) and not G.is_directed(), "not symmetric")
    need(not np.any(np.diag(W)), "self-loops")
    if c["nn"] == "radius":
        B = (D <= eps) & off
        if not B.any():
            return
        clear = np.abs(D - eps) > 1e-7 * s
        if boundary:
            note.label("points at the radius")
        elif not np.all(clear | ~off):
            return
        sigma = D[B].mean() if c["sigma"] is None else c["sigma"]
        if sigma <= 1e-9 * s:
            return
        close(G.sigma, sigma, 10 * tol, "width")
        ref = np.where(B, np.exp(-D ** 2 / sigma), 0)
        close(W, sym(ref, c["sym"] or "average"), 100 * tol * max(1, s * s / sigma), "weights", ref=1.0)
        note.nontrivial(not B[off].all())
        return
    note.nontrivial(n > k + 1)
    De = np.where(off, D, np.inf)
    order = np.sort(De, axis=1)
    kth = order[:, k - 1]
    sigma = order[:, :k].mean() if c["sigma"] is None else c["sigma"]
    if sigma <= 1e-9 * s:
        return
    close(G.sigma, sigma, 1e-4 if c["type"] == "float32" else 1e-9, "width")
    w = np.exp(-D ** 2 / sigma)
    t = 1e-4 if c["type"] == "float32" else 1e-7
    sure = (De < kth[:, None] - t * s)  # always a neighbour
    maybe = (De <= kth[:, None] + t * s)  # tied neighbours
    sym_type = c["sym"] or "average"
    lo, hi = sym(np.where(sure, w, 0), sym_type), sym(np.where(maybe, w, 0), sym_type)
    if sym_type == "fill":  # w, w or the average: the same thing
        lo, hi = np.minimum(lo, hi), np.maximum(lo, hi)
    slack = 100 * t * max(1, s * s / sigma)
    if slack < 0.01 or np.array_equal(sure, maybe):
        slack = min(slack, 1e-2)
        need(np.all(W >= lo - slack) and np.all(W <= hi + slack), "weights\n%s\noutside of\n%s\n%s\ndistances\n%s", W, lo, hi, D)
    floor = np.exp(-D ** 2 / sigma) > 1e-200
    need(not np.any(W[~(hi > 0)]), "edge between points which are not nearest neighbours")
    need(np.all(W[(lo > 0) & floor] > 0), "nearest neighbours are not joined")
    if np.array_equal(sure, maybe):
        close(W, hi, 1e-4 if c["type"] == "float32" else 1e-9 * max(1, s * s / sigma), "weights", ref=1.0)
    # ties: each row of the directed graph has exactly k neighbours
    if sym_type in ("maximum", "fill") and np.all(floor):
        need((W != 0).sum(1).min() >= k, "a point has fewer than %d neighbours", k)


@st.composite
def flann(draw):
    return {"n": draw(st.integers(30, 60)), "d": draw(st.integers(1, 3)), "k": draw(st.integers(1, 4)), "seed": draw(st.integers(0, 10 ** 6)), "sigma": draw(st.sampled_from([None, 0.1, 3.0])),
            "metric": draw(st.sampled_from(["euclidean", "euclidean", "manhattan", "minkowski", "max_dist"])), "order": draw(st.integers(1, 4))}


def flann_check(c, note):
    """The approximate search: whichever neighbours it finds, the weights are those of their distances."""
    n, k = c["n"], c["k"]
    X = np.random.default_rng(c["seed"]).uniform(size=(n, c["d"]))
    keep = X.copy()
    p = METRICS[c["metric"]] or c["order"]
    G = graphs.NNGraph(X, use_flann=True, k=k, center=False, rescale=False, sigma=c["sigma"], symmetrize_type="maximum", dist_type=c["metric"], order=c["order"])
    need(np.array_equal(X, keep) and np.array_equal(G.coords, X), "points modified")
    D = distances(X, p)
    De = np.where(np.eye(n, dtype=bool), np.inf, D)
    sigma = np.sort(De, 1)[:, :k].mean()
    note.label(c["metric"])
    note.nontrivial(True)
    W = G.W.toarray()
    need(np.array_equal(W, W.T) and not np.any(np.diag(W)), "not symmetric or self-loops")
    if c["sigma"] is None:
        need(sigma * (1 - 1e-6) <= G.sigma <= 3 * sigma, "width %s, average distance %s", G.sigma, sigma)
    w = np.exp(-D ** 2 / G.sigma)
    need(np.all((np.abs(W - w) <= 1e-6) | (W == 0)), "weights are not those of the distances")
    need(n * k <= 2 * (W != 0).sum() and (W != 0).sum() <= 2 * n * k, "number of edges")
    exact = De <= np.sort(De, 1)[:, [k - 1]]
    need((W[exact] != 0).mean() > 0.5, "most nearest neighbours are missed")


BAD = [{"NNtype": "knn", "k": 5}, {"NNtype": "knn", "k": 9}, {"NNtype": "delaunay", "k": 2}, {"k": 2, "symmetrize_type": "sum"}, {"NNtype": "radius", "epsilon": 1e-9}]


def bad_check(case, note):
    kw, seed = case
    note.nontrivial(True)
    X = np.random.default_rng(seed).uniform(size=(5, 2))
    raises(ValueError, lambda: graphs.NNGraph(X, **kw), str(kw))


# ------------------------------------------------------------ images
@st.composite
def images(draw):
    side = 14 if gens.LARGE else 6
    h, w = draw(st.integers(1, side)), draw(st.integers(1, side))
    if h * w < 3:
        h, w = 2, 3
    d = draw(st.sampled_from([None, None, 1, 3]))
    m = h * w * (d or 1)
    kind = draw(st.sampled_from(["general", "general", "flat", "uint8"]))
    top = {"general": 10 ** 6, "flat": 1, "uint8": 255}[kind]
    v = draw(gens.rng()).integers(0, top + 1, m).tolist() if gens.LARGE else draw(st.lists(st.integers(0, top), min_size=m, max_size=m))
    shape = draw(st.sampled_from([None, [3, 3], [1, 1], [2, 2], [3, 2], [1, 4], [5], [2], [4, 3]]))
    return {"h": h, "w": w, "d": d, "kind": kind, "v": v, "shape": shape, "k": draw(st.integers(1, h * w - 1)), "grid": draw(st.booleans()),
            "agg": draw(st.sampled_from([None, "max"])), "lap": draw(LAP), "sigma": draw(st.sampled_from([None, 1.0]))}


def patches_of(img, r, c):
    """The r x c patch of each pixel: (r - 1) // 2 rows above, the rest below, mirrored at the borders."""
    h, w = img.shape[:2]

    def mirror(i, n):
        i %= 2 * n
        return i if i < n else 2 * n - 1 - i
    out = []
    for i in range(h):
        for j in range(w):
            out.append([img[mirror(i - (r - 1) // 2 + a, h), mirror(j - (c - 1) // 2 + b, w)] for a in range(r) for b in range(c)])
    return np.array(out).reshape(h * w, -1)


def image_check(c, note):
    h, w, d = c["h"], c["w"], c["d"]
    img = np.array(c["v"]).reshape((h, w) if d is None else (h, w, d))
    img = img.astype(np.uint8) if c["kind"] == "uint8" else img / 1e6 if c["kind"] == "general" else img.astype(float)
    if np.all(img == img.flat[0]):
        return
    shape = (3, 3) if c["shape"] is None else tuple(c["shape"])
    r, cc = shape if len(shape) == 2 else (shape[0], shape[0])
    kw = dict(k=c["k"])
    if c["shape"] is not None:
        kw["patch_shape"] = shape
    if c["sigma"]:
        kw["sigma"] = c["sigma"]
    keep = img.copy()
    P = patches_of(img, r, cc)
    if np.all(P == P[0]):
        return
    note.label(c["kind"], "grid" if c["grid"] else "patches")
    note.nontrivial(h * w > 5)

    def make(cls, **extra):
        try:
            return cls(img, **extra, **kw)
        except ValueError as e:
            if "NaN" in str(e):  # all neighbours at distance zero and no width given
                return None
            raise
    G = make(graphs.ImgPatches, lap_type=c["lap"])
    need(np.array_equal(img, keep), "the image was modified")
    if G is None:
        near = np.sort(distances(P.astype(float), 2), 1)[:, 1:c["k"] + 1]
        need(c["sigma"] is None and not near.any(), "rejected")
        return
    need(np.array_equal(G.Xin, P), "patches\n%s\nexpected\n%s", G.Xin, P)
    need(G.n_vertices == h * w and G.lap_type == c["lap"] and not G.has_loops(), "vertices")
    N = graphs.NNGraph(P.astype(float), lap_type=c["lap"], k=c["k"], **({"sigma": c["sigma"]} if c["sigma"] else {}))
    need((abs(G.W - N.W) > 1e-12).nnz == 0, "not the nearest-neighbour graph of the patches")
    if c["grid"]:
        agg = {} if c["agg"] is None else {"aggregate": lambda Wp, Wg: Wp.maximum(Wg)}
        H = make(graphs.Grid2dImgPatches, **agg)
        Wg = graphs.Grid2d(h, w).W.toarray()
        ref = G.W.toarray() + Wg if c["agg"] is None else np.maximum(G.W.toarray(), Wg)
        close(H.W, ref, 1e-12, "union of the grid and the patch graph")
        need(np.array_equal(H.coords, graphs.Grid2d(h, w).coords), "coordinates")
        need(np.array_equal(img, keep), "the image was modified")


PARTS = [
    Part("points", cases(), check, quick=3500, large=300),
    Part("flann", flann(), flann_check, quick=200),
    Part("rejected", st.tuples(st.sampled_from(BAD), st.integers(0, 99)), bad_check, quick=30),
    Part("images", images(), image_check, quick=400, large=80),
]
