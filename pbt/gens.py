"""Generators of graphs, signals, kernels and permutations (JSON-able), and the
builders which turn such a case into objects of the code under test."""
import math

import numpy as np
from hypothesis import strategies as st
from scipy import sparse

# Set while a "large" part generates: graphs of tens of vertices, whose edges,
# weights and signals are derived from drawn seeds.
LARGE = False


@st.composite
def rng(draw):
    return np.random.default_rng(draw(st.integers(0, 2 ** 32 - 1)))


# ------------------------------------------------------------------ weights
WEIGHTS = ["ones", "int", "float", "wide", "scaled"]


@st.composite
def weights(draw, m, kinds=None):
    kind = draw(st.sampled_from(kinds or ["ones", "int", "float", "float", "wide", "scaled"]))
    if m == 0:
        return kind, []
    if kind == "ones":
        return kind, [1.0] * m
    if LARGE:
        r = draw(rng())
        if kind == "int":
            return kind, r.integers(1, 10, m).tolist()
        if kind == "float":
            return kind, (r.integers(1, 1001, m) / 100).tolist()
        if kind == "wide":
            return kind, [float(f"{10 ** (x / 10):.4g}") for x in r.integers(-30, 31, m)]
        if kind == "scaled":
            s = draw(st.sampled_from([1e-12, 1e-6, 1e-3, 1e3, 1e6, 1e12, 1e-20, 1e20]))
            return kind, (r.integers(50, 1001, m) / 100 * s).tolist()
    if kind == "int":
        return kind, draw(st.lists(st.integers(1, 9), min_size=m, max_size=m))
    if kind == "float":
        w = draw(st.lists(st.integers(1, 1000), min_size=m, max_size=m))
        return kind, [x / 100 for x in w]
    if kind == "wide":
        w = draw(st.lists(st.integers(-30, 30), min_size=m, max_size=m))
        return kind, [float(f"{10 ** (x / 10):.4g}") for x in w]
    if kind == "scaled":
        s = draw(st.sampled_from([1e-12, 1e-6, 1e-3, 1e3, 1e6, 1e12, 1e-20, 1e20]))
        w = draw(st.lists(st.integers(50, 1000), min_size=m, max_size=m))
        return kind, [x / 100 * s for x in w]
    raise ValueError(kind)


def _tree_pairs(draw, n, base=0):
    pairs = []
    for i in range(1, n):
        p = draw(st.integers(0, i - 1))
        pairs.append((base + p, base + i))
    return pairs


SHAPES = ["random", "tree", "path", "ring", "star", "complete", "bipartite", "grid", "union"]


@st.composite
def pairs(draw, n, connected=False, shapes=None):
    """Unordered vertex pairs of a simple graph; returns (shape, pairs)."""
    if n == 1:
        return "single", []
    shape = draw(st.sampled_from(shapes or (SHAPES if not connected else
                 ["treeplus", "treeplus", "treeplus", "tree", "path", "ring", "star", "complete", "bipartite", "grid"])))
    if LARGE:
        return shape, draw(large_pairs(n, shape))
    allp = [(i, j) for i in range(n) for j in range(i + 1, n)]
    out = []
    if shape in ("random", "treeplus"):
        m = len(allp)
        bits = draw(st.integers(0, (1 << m) - 1))
        for _ in range(draw(st.integers(0, 2))):
            bits &= draw(st.integers(0, (1 << m) - 1))
        out = [p for k, p in enumerate(allp) if bits >> k & 1]
        if shape == "treeplus":
            out = sorted(set(out) | set(_tree_pairs(draw, n)))
    elif shape == "tree":
        out = _tree_pairs(draw, n)
    elif shape == "path":
        out = [(i, i + 1) for i in range(n - 1)]
    elif shape == "ring":
        out = [(i, i + 1) for i in range(n - 1)] + ([(0, n - 1)] if n > 2 else [])
    elif shape == "star":
        c = draw(st.integers(0, n - 1))
        out = [tuple(sorted((c, i))) for i in range(n) if i != c]
    elif shape == "complete":
        out = allp
    elif shape == "bipartite":
        k = draw(st.integers(1, n - 1))
        out = [(i, j) for i in range(k) for j in range(k, n)]
    elif shape == "grid":
        c = draw(st.integers(1, max(1, int(math.sqrt(n)))))
        out = [(i, i + 1) for i in range(n - 1) if (i + 1) % c] + [(i, i + c) for i in range(n - c)]
        if c == 1:
            out = [(i, i + 1) for i in range(n - 1)]
        out = sorted(set(out))
        # a partial last row stays connected through the vertical edges
    elif shape == "union":
        k = draw(st.integers(1, n - 1))
        out = _tree_pairs(draw, k) + _tree_pairs(draw, n - k, k)
        extra = draw(st.lists(st.sampled_from([p for p in allp if (p[0] < k) == (p[1] < k)] or [None]), max_size=n))
        out = sorted(set(out) | {p for p in extra if p})
    return shape, [list(p) for p in out]


@st.composite
def large_pairs(draw, n, shape):
    r = draw(rng())

    def tree(k, base=0):
        deep = r.integers(2)
        return [(base + int(r.integers(max(0, i - 3) if deep else 0, i)), base + i) for i in range(1, k)]

    def some(p, ok=lambda i, j: True):
        return [(i, j) for i in range(n) for j in range(i + 1, n) if r.random() < p and ok(i, j)]

    p = draw(st.sampled_from([1 / n, 2 / n, 4 / n, 0.3]))
    k = draw(st.integers(1, n - 1))
    if shape == "random":
        out = some(p)
    elif shape == "treeplus":
        out = sorted(set(some(p)) | set(tree(n)))
    elif shape == "tree":
        out = tree(n)
    elif shape == "path":
        out = [(i, i + 1) for i in range(n - 1)]
    elif shape == "ring":
        out = [(i, i + 1) for i in range(n - 1)] + [(0, n - 1)]
    elif shape == "star":
        out = [tuple(sorted((k, i))) for i in range(n) if i != k]
    elif shape == "complete":
        out = some(2)
    elif shape == "bipartite":
        out = [(i, j) for i in range(k) for j in range(k, n)]
    elif shape == "grid":
        c = max(2, int(math.sqrt(n)))
        out = [(i, i + 1) for i in range(n - 1) if (i + 1) % c] + [(i, i + c) for i in range(n - c)]
    elif shape == "union":
        out = sorted(set(tree(k) + tree(n - k, k)) | set(some(p, lambda i, j: (i < k) == (j < k))))
    else:
        raise ValueError(shape)
    return [list(q) for q in out]


@st.composite
def graph(draw, min_n=1, max_n=9, directed=None, loops=False, connected=False,
          kinds=None, shapes=None, shuffle=True, min_edges=0):
    """{"n", "directed", "edges": [[i, j, w]], "shape", "kind"}; i -> j if directed."""
    n = draw(st.one_of(st.integers(max_n + 1, 40), st.integers(17, 34), st.integers(62, 70)) if LARGE else st.integers(min_n, max_n))
    shape, ps = draw(pairs(n, connected, shapes))
    if min_edges and not ps and n > 1:
        ps = [[0, 1]]
    isdir = draw(st.booleans()) if directed is None else directed
    if shuffle and n > 1 and draw(st.booleans()):
        perm = draw(rng()).permutation(n).tolist() if LARGE else draw(st.permutations(list(range(n))))
        ps = [sorted((perm[i], perm[j])) for i, j in ps]
    edges = []
    if isdir:
        d = draw(rng()).integers(0, 3, len(ps)) if LARGE else draw(st.lists(st.integers(0, 2), min_size=len(ps), max_size=len(ps)))
        for (i, j), k in zip(ps, d):
            if k in (0, 2):
                edges.append([i, j])
            if k in (1, 2):
                edges.append([j, i])
    else:
        edges = [list(p) for p in ps]
    if loops and draw(st.booleans()):
        for i in draw(subset(n)):
            edges.append([i, i])
    kind, w = draw(weights(len(edges), kinds))
    return {"n": n, "directed": isdir, "shape": shape, "kind": kind,
            "edges": [[i, j, x] for (i, j), x in zip(edges, w)]}


@st.composite
def extreme(draw, base):
    """Some weights negligible next to the others."""
    g = draw(base)
    if g["edges"] and draw(st.integers(0, 3)) == 0:
        t = draw(st.sampled_from([1e-9, 1e-12, 1e-16, 1e-30, 1e-150]))
        for k in draw(st.lists(st.integers(0, len(g["edges"]) - 1), min_size=1, max_size=4)):
            g["edges"][k][2] *= t
        g["kind"] = "extreme"
    return g


def dense(g, dtype=float):
    W = np.zeros((g["n"], g["n"]), dtype=dtype)
    for i, j, w in g["edges"]:
        W[i, j] = w
        if not g["directed"]:
            W[j, i] = w
    return W


def build(g, **kw):
    from pygsp import graphs

    return graphs.Graph(sparse.csr_matrix(dense(g)), **kw)


LAP = st.sampled_from(["combinatorial", "normalized"])


def upto(lo, hi, large):
    """A count: lo to hi, or up to `large` in the large parts."""
    return st.one_of(st.integers(lo, hi), st.integers(lo, large)) if LARGE else st.integers(lo, hi)


def subset(n, min_size=0):
    """Sorted distinct vertices."""
    if LARGE:
        return st.tuples(rng(), st.integers(min_size, n)).map(lambda a: sorted(a[0].permutation(n)[:a[1]].tolist()))
    return st.lists(st.integers(0, n - 1), unique=True, min_size=min_size, max_size=n).map(sorted)


# ------------------------------------------------------------------ signals
def floats(lo=-100, hi=100, q=10):
    return st.integers(lo, hi).map(lambda x: x / q)


def vector(n, lo=-100, hi=100, q=10):
    if LARGE:
        return rng().map(lambda r: (r.integers(lo, hi + 1, n) / q).tolist())
    return st.lists(floats(lo, hi, q), min_size=n, max_size=n)


def int_vector(n, lo=-9, hi=9):
    if LARGE:
        return rng().map(lambda r: r.integers(lo, hi + 1, n).tolist())
    return st.lists(st.integers(lo, hi), min_size=n, max_size=n)


@st.composite
def tensor(draw, shape, lo=-100, hi=100, q=10):
    m = int(np.prod(shape))
    v = draw(vector(m, lo, hi, q))
    return np.array(v, dtype=float).reshape(shape).tolist()


# ------------------------------------------------------------------ kernels
SMOOTH = ["heat", "rational", "gauss", "sqrt1", "cos", "poly"]


@st.composite
def kernel(draw, kinds=None, degree=4):
    """A kernel of x / s, for s a scale chosen by the check; [kind, params]."""
    kind = draw(st.sampled_from(kinds or SMOOTH))
    if kind == "poly":
        return [kind, draw(st.lists(st.integers(-20, 20).map(lambda v: v / 10), min_size=1, max_size=degree + 1))]
    return [kind, [draw(st.integers(1, 40)) / 10, draw(st.integers(-10, 20)) / 10]]


def kernel_fn(spec, scale):
    """The element-wise function of a kernel; never called with anything but arrays."""
    kind, p = spec

    def fn(x):
        t = np.asarray(x, dtype=float) / scale
        if kind == "poly":
            return np.polynomial.polynomial.polyval(t, p)
        if kind == "heat":
            return np.exp(-p[0] * t)
        if kind == "rational":
            return 1 / (1 + p[0] * t)
        if kind == "gauss":
            return np.exp(-p[0] * (t - p[1]) ** 2)
        if kind == "sqrt1":
            return np.sqrt(1 + p[0] * t)
        if kind == "cos":
            return np.cos(p[0] * t + p[1])
        raise ValueError(kind)

    return fn


def matfun(L, fns):
    """g(L) for each g, from an own eigendecomposition of the symmetric matrix L."""
    e, U = np.linalg.eigh(L)
    e = np.maximum(e, 0)
    return [U @ (np.broadcast_to(f(e), e.shape)[:, None] * U.T) for f in fns]


# ------------------------------------------------------------------ references
def ref_sym(W):
    return (W.astype(float) + W.astype(float).T) / 2


def ref_laplacian(W, lap_type):
    W = ref_sym(W)
    d = W.sum(0)
    if lap_type == "combinatorial":
        return np.diag(d) - W
    s = np.zeros(len(d))
    s[d != 0] = 1 / np.sqrt(d[d != 0])
    L = np.eye(len(d)) - s[:, None] * W * s[None, :]
    L[d == 0, :] = 0
    L[:, d == 0] = 0
    return L


def ref_components(W):
    """Weakly connected components by union-find, sorted."""
    n = len(W)
    parent = list(range(n))

    def find(x):
        while parent[x] != x:
            parent[x] = parent[parent[x]]
            x = parent[x]
        return x

    for i in range(n):
        for j in range(n):
            if W[i, j] != 0:
                parent[find(i)] = find(j)
    groups = {}
    for i in range(n):
        groups.setdefault(find(i), []).append(i)
    return sorted(groups.values())


def ref_reach(W):
    """Boolean reachability matrix (Warshall)."""
    R = (W != 0) | np.eye(len(W), dtype=bool)
    for k in range(len(W)):
        R |= R[:, [k]] & R[[k], :]
    return R


def scale_of(*xs):
    m = 1.0
    for x in xs:
        x = np.asarray(x, dtype=float)
        if x.size:
            m = max(m, float(np.max(np.abs(x))))
    return m


def norm_of(x):
    x = np.abs(np.asarray(x, dtype=float))
    return float(x.max()) if x.size else 0.0


def lap_scale(W, lap_type):
    """Magnitude of the numbers a Laplacian is computed from (loops included)."""
    return 1.0 if lap_type == "normalized" else max(norm_of(W) * len(W), 1e-300)


def spectral_scale(L, W, lap_type):
    """A scale within [lambda_max / 2, lambda_max], but for loops; at least half any bound used as lmax."""
    if lap_type == "normalized":
        return 1.0
    s = norm_of(ref_sym(W).sum(0))
    return s if s > 1e-250 else 1.0


def null_spectrum(G, s):
    """Only self-loops, so that lmax is nothing but rounding noise: no polynomial approximation makes sense."""
    return G.lmax != 0 and abs(G.lmax) <= 1e-9 * s


# ------------------------------------------------------------------ oracles
def need(cond, msg, *args):
    if not cond:
        raise AssertionError(msg % args if args else msg)


def close(a, b, tol, what, ref=None):
    """max |a - b| <= tol * scale, where scale is that of the reference b (or ref)."""
    a = np.asarray(a.toarray() if sparse.issparse(a) else a, dtype=float)
    b = np.asarray(b.toarray() if sparse.issparse(b) else b, dtype=float)
    need(a.shape == b.shape, "%s: shape %s, expected %s", what, a.shape, b.shape)
    if a.size == 0:
        return
    need(bool(np.all(np.isfinite(a))), "%s: not finite: %s", what, a)
    s = norm_of(b) if ref is None else float(ref)
    err = float(np.max(np.abs(a - b)))
    need(err <= tol * s or err == 0, "%s: error %.3g (scale %.3g)\n got %s\n expected %s", what, err, s, a, b)


def raises(exc, fn, what):
    try:
        fn()
    except exc:
        return
    except Exception as e:
        raise AssertionError(f"{what}: raised {type(e).__name__} ({e}) instead of {exc}")
    raise AssertionError(f"{what}: accepted")


def arr(x, dtype=float):
    return np.array(x, dtype=dtype)


def toarray(x):
    return x.toarray() if sparse.issparse(x) else np.asarray(x)
