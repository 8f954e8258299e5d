"""C20: random graph models."""
import logging
import math
import random
import warnings

import numpy as np
from hypothesis import strategies as st
from scipy import stats

from pygsp import graphs

from .. import gens
from ..gens import LAP, close, need, raises, ref_components, ref_reach
from ..runner import Part

RULE = ("For each model, admissible parameters and seeds (0 included) are drawn; every constraint of the model is checked on the whole adjacency matrix and the coordinates; each graph is "
        "built twice under different states of the global generators, which must not move, and over several seeds, which must not all agree when the "
        "model has entropy. Edge counts of block models and attachment counts of preferential attachment are pooled over seeds and compared with the exact binomial law "
        "(two-sided tail below 1e-11 alarms). Non-trivial: more than five vertices.")
ASSUMPTIONS = ["statistical checks see deviations of several standard errors only", "a random regular graph that ran out of iterations must say so in the log"]
TAIL = 1e-11


def twice(make, case, spread=True):
    """Builds the graph; the same again, whatever the global generators; and with other seeds."""
    np.random.seed(case["noise"])
    random.seed(case["noise"])
    s0, p0 = np.random.get_state(), random.getstate()
    G = make(case["seed"])
    s1, p1 = np.random.get_state(), random.getstate()
    need(np.array_equal(s0[1], s1[1]) and s0[2:] == s1[2:] and p0 == p1, "the process-wide random state moved")
    np.random.seed(case["noise"] + 1)
    random.seed(case["noise"] + 1)
    H = make(case["seed"])
    need(np.array_equal(G.W.toarray(), H.W.toarray()), "the same seed gave another graph")
    cg, ch = getattr(G, "coords", None), getattr(H, "coords", None)
    need((cg is None) == (ch is None) and (cg is None or np.array_equal(cg, ch)), "the same seed gave other coordinates")
    need(G.seed == case["seed"], "seed attribute")
    if spread:
        def key(X):
            c = getattr(X, "coords", None)
            return (X.W.toarray().tobytes(), None if c is None else np.asarray(c).tobytes())
        need(any(key(make(case["seed"] + 7 * k + 1)) != key(G) for k in range(4)), "the seed makes no difference")
    repr(G)
    return G


SEEDS = {"seed": st.one_of(st.just(0), st.integers(0, 2 ** 31)), "noise": st.integers(0, 1000), "lap": LAP}


def simple(G, n, directed=False, loops=False, binary=True):
    W = G.W.toarray()
    need(W.shape == (n, n) and G.n_vertices == n, "%s vertices, expected %d", W.shape, n)
    need(directed or np.array_equal(W, W.T), "directed edges")
    need(loops or not np.any(np.diag(W)), "self-loops")
    need(not binary or set(np.unique(W).tolist()) <= {0, 1}, "weights other than one: %s", np.unique(W))
    return W.astype(float)


# ------------------------------------------------------------ block models
@st.composite
def sbm(draw):
    c = {k: draw(v) for k, v in SEEDS.items()}
    er = draw(st.integers(0, 2)) == 0
    prob = st.one_of(st.sampled_from([0, 1, 0.0, 1.0]), st.integers(0, 100).map(lambda x: x / 100))
    k = 1 if er else draw(st.integers(1, 4))
    most = 60 if gens.LARGE else 16
    c.update(er=er, N=draw(st.integers(2, most)), k=k, directed=draw(st.booleans()), self_loops=draw(st.booleans()), connected=draw(st.integers(0, 2)) == 0,
             how=draw(st.sampled_from(["scalar", "vector", "matrix", "M"])), p=[draw(prob) for _ in range(k)], q=[[draw(prob) for _ in range(k)] for _ in range(k)],
             intq=draw(st.booleans()), z=draw(st.one_of(st.none(), st.lists(st.integers(0, k - 1), min_size=most, max_size=most))), zlist=draw(st.booleans()),
             n_try=draw(st.sampled_from([1, 3, 10])))
    if draw(st.integers(0, 3)) == 0:  # never degenerate: other seeds give other graphs
        mid = st.integers(40, 79).map(lambda x: x / 100)
        c.update(N=draw(st.integers(12, 16)), p=[draw(mid) for _ in range(k)], q=[[draw(mid) for _ in range(k)] for _ in range(k)], intq=False)
    if draw(st.booleans()):  # undirected models need a symmetric matrix
        c["directed"] = True
    return c


def sbm_check(c, note):
    N, k = c["N"], c["k"]
    kw = dict(N=N, directed=c["directed"], self_loops=c["self_loops"], connected=c["connected"], n_try=c["n_try"], lap_type=c["lap"])
    q = np.array(c["q"], dtype=float).reshape(k, k)
    if not c["directed"]:
        q = np.triu(q) + np.triu(q, 1).T
    if c["er"]:
        M = np.array([[c["p"][0]]], dtype=float)
        cls, kw["p"] = graphs.ErdosRenyi, c["p"][0]
        z = None
        args = []
    else:
        cls = graphs.StochasticBlockModel
        kw["k"] = k
        z = None if c["z"] is None else np.array(c["z"][:N])
        if z is not None:
            kw["z"] = z.tolist() if c["zlist"] else z.copy()
        if c["how"] == "scalar":
            M = np.full((k, k), q[0, 0])
            np.fill_diagonal(M, c["p"][0])
            kw["p"], kw["q"] = c["p"][0], float(q[0, 0])
        elif c["how"] == "M":
            M = q.copy()
            kw["M"] = M.copy()
        else:
            if c["intq"]:
                q = np.round(q).astype(int)
            M = q.astype(float)
            np.fill_diagonal(M, c["p"])
            kw["p"], kw["q"] = list(c["p"]), q.copy()
        args = [a for a in ("M", "q", "z") if isinstance(kw.get(a), np.ndarray)]
    keep = {a: kw[a].copy() for a in args}
    note.label("er" if c["er"] else c["how"])
    note.nontrivial(N > 5)

    def make(seed):
        return cls(seed=seed, **kw)
    try:
        G = twice(make, c, spread=N >= 12 and bool(np.all((M > 0.2) & (M < 0.8))) and (not c["connected"] or bool(np.all(M >= 0.4))))
    except ValueError:
        need(c["connected"] and not (np.all(M >= 0.9) and N >= 5), "rejected")
        return
    for a in args:
        need(np.array_equal(kw[a], keep[a]), "%s was modified", a)
    W = simple(G, N, c["directed"], c["self_loops"])
    need(not (c["connected"] and np.all(M == 0)) or N == 1, "connected without edges")
    if c["connected"]:
        need(bool(ref_reach(W).all()) and G.is_connected(), "not connected")
    zz = np.asarray(G.z)
    need(zz.shape == (N,) and zz.min() >= 0 and zz.max() < k, "classes")
    if z is not None:
        need(np.array_equal(zz, z), "given classes")
    for i in range(N):
        for j in range(N):
            if (i != j or c["self_loops"]) and (c["directed"] or i >= j):
                m = M[zz[i], zz[j]]
                need(not (m == 0 and W[i, j]) and not (m == 1 and not W[i, j]), "edge %s of probability %s: %s", (i, j), m, W[i, j])
    if c["connected"]:
        return
    # edge frequencies over seeds
    hits, total, classes = np.zeros((k, k)), np.zeros((k, k)), np.zeros(k)
    for s in range(12):
        G = make(c["seed"] + s)
        W, zz = G.W.toarray() != 0, np.asarray(G.z)
        ii, jj = np.nonzero(np.ones((N, N)) if c["directed"] else np.tril(np.ones((N, N))))
        ok = np.ones(len(ii), dtype=bool) if c["self_loops"] else ii != jj
        ii, jj = ii[ok], jj[ok]
        np.add.at(total, (zz[ii], zz[jj]), 1)
        np.add.at(hits, (zz[ii], zz[jj]), W[ii, jj])
        classes += np.bincount(zz, minlength=k)
    if z is None:
        for a in range(k):
            binomial(classes[a], 12 * N, 1 / k, f"vertices of class {a}")
    for a in range(k):
        for b in range(k):
            binomial(hits[a, b], total[a, b], M[a, b], f"edges of block {a, b}")


def binomial(h, n, p, what):
    lo, hi = stats.binom.cdf(h, n, p), stats.binom.sf(h - 1, n, p)
    need(min(lo, hi) > TAIL, "%s: %d of %d with probability %s", what, h, n, p)


@st.composite
def sbm_bad(draw):
    return draw(st.sampled_from([{"p": 1.5}, {"p": -0.1}, {"q": 1.2}, {"q": -1}, {"k": 3, "p": [0.1, 0.2]}, {"k": 2, "p": [0.1, 0.2, 0.3]}, {"k": 2, "q": [0.1, 0.2]},
                                 {"k": 2, "q": [[0.1, 0.2, 0.3]] * 3}, {"k": 2, "M": [[0.5, 2], [2, 0.5]]}, {"k": 2, "M": [[0.5, -0.5], [0, 0.5]]},
                                 {"connected": True, "p": 0, "q": 0}, {"connected": True, "k": 2, "q": 0, "n_try": 2}]) ), draw(st.integers(6, 12)), draw(st.integers(0, 99))


def sbm_bad_check(case, note):
    kw, n, seed = case
    kw = dict(kw)
    if kw.get("q") == 0 and "k" in kw:
        kw["z"] = [0, 1] * (n // 2) + [0] * (n % 2)
    note.nontrivial(True)
    raises(ValueError, lambda: graphs.StochasticBlockModel(n, seed=seed, **kw), str(kw))


# ------------------------------------------------------------ attachment, regular, ring
@st.composite
def others(draw):
    c = {k: draw(v) for k, v in SEEDS.items()}
    m = draw(st.sampled_from(["BarabasiAlbert", "RandomRegular", "RandomRing"]))
    c["model"] = m
    if m == "BarabasiAlbert":
        c["m0"] = draw(st.integers(1, 5))
        c["m"] = draw(st.integers(0, c["m0"]))
        c["N"] = draw(st.integers(c["m0"], 25 if not gens.LARGE else 120))
    elif m == "RandomRegular":
        c["N"] = draw(st.integers(2, 16 if not gens.LARGE else 60))
        c["k"] = draw(st.integers(0, c["N"] - 1 if not gens.LARGE else 6))
        c["k"] = min(c["k"], c["N"] - 1)
        if c["N"] * c["k"] % 2:
            c["k"] -= 1
        c["max_iter"] = draw(st.sampled_from([1, 2, 10, 10]))
    else:
        c["N"] = draw(st.integers(3, 25 if not gens.LARGE else 120))
        c["angles"] = draw(st.one_of(st.none(), st.lists(st.integers(0, 6282), min_size=3, max_size=12, unique=True)))
        c["list"] = draw(st.booleans())
    return c


class Warned:
    """Whether something was logged as a warning (the harness disables logging) or raised as one."""

    def __enter__(self):
        self.n = 0
        self.saved = {k: getattr(logging.Logger, k) for k in ("warning", "error", "critical")}
        for k in self.saved:
            setattr(logging.Logger, k, self.count)
        self.catch = warnings.catch_warnings(record=True)
        self.list = self.catch.__enter__()
        warnings.simplefilter("always", UserWarning)
        return self

    def count(self, *args, **kwargs):
        self.n += 1

    def __exit__(self, *exc):
        self.catch.__exit__(*exc)
        for k, f in self.saved.items():
            setattr(logging.Logger, k, f)

    def __bool__(self):
        return self.n > 0 or any(issubclass(w.category, UserWarning) for w in self.list)


def others_check(c, note):
    note.label(c["model"])
    N = c["N"]
    note.nontrivial(N > 5)
    if c["model"] == "BarabasiAlbert":
        m0, m = c["m0"], c["m"]
        G = twice(lambda s: graphs.BarabasiAlbert(N, m0=m0, m=m, seed=s, lap_type=c["lap"]), c, spread=N - m0 >= 8 and 0 < m and (m < m0 or m0 < 3))
        W = simple(G, N)
        need(G.n_edges == m * (N - m0), "%d edges", G.n_edges)
        for i in range(N):
            need(W[i, :i].sum() == (m if i >= m0 else 0), "vertex %d is joined to %d older ones", i, W[i, :i].sum())
        raises(ValueError, lambda: graphs.BarabasiAlbert(N, m0=m0, m=m0 + 1, seed=0), "m > m0")
    elif c["model"] == "RandomRegular":
        k = c["k"]
        with Warned() as log:
            G = twice(lambda s: graphs.RandomRegular(N, k=k, max_iter=c["max_iter"], seed=s, lap_type=c["lap"]), c, spread=False)
            warned = bool(log)
        if N >= 10 and 2 < k < N - 3 and c["max_iter"] > 2:
            twice(lambda s: graphs.RandomRegular(N, k=k, seed=s), c)
        W = simple(G, N)
        need(W.sum(0).max() <= k, "degrees %s above %d", W.sum(0), k)
        if np.any(W.sum(0) != k):
            note.label("incomplete")
            need(warned, "degrees %s, not %d, without a warning", W.sum(0), k)
            need(c["max_iter"] < 10 or k > 2, "not regular after 10 iterations")
        if (N * (k + 1)) % 2:
            raises(ValueError, lambda: graphs.RandomRegular(N, k=k + 1, seed=0), "odd number of half-edges")
    else:
        ang = c["angles"]
        if ang is None:
            G = twice(lambda s: graphs.RandomRing(N, seed=s, lap_type=c["lap"]), c)
            a = np.asarray(G.angles)
        else:
            N = len(ang)
            given = [x / 1000 for x in ang] if c["list"] else np.array(ang) / 1000
            G = graphs.RandomRing(angles=given, lap_type=c["lap"])
            need(np.array_equal(given, np.array(ang) / 1000), "the angles passed were modified")
            a = np.sort(np.array(ang) / 1000)
            need(np.array_equal(G.angles, a), "angles")
        W = simple(G, N, binary=False)
        need(a.shape == (N,) and np.all(np.diff(a) > 0) and a[0] >= 0 and a[-1] < 2 * np.pi, "angles")
        close(G.coords, np.stack([np.cos(a), np.sin(a)], 1), 1e-12, "coordinates")
        ref = np.zeros((N, N))
        for i in range(N):
            j = (i + 1) % N
            ref[i, j] = ref[j, i] = (2 * np.pi / N) / ((a[j] - a[i]) % (2 * np.pi))
        close(W / np.where(ref == 0, 1, ref), ref != 0, 1e-6, "weights relative to the inverse of the angles")
    need(G.lap_type == c["lap"], "Laplacian type")


def ring_bad(case, note):
    note.nontrivial(True)
    raises(ValueError, lambda: graphs.RandomRing(**case), str(case))


def attach_check(case, note):
    """Preferential attachment: the law of every new vertex's neighbour given the former ones, pooled over steps and seeds."""
    note.nontrivial(True)
    m0, N = case["m0"], case["m0"] + case["more"]
    hits, var, mean = 0, 0.0, 0.0
    for s in range(200):
        W = graphs.BarabasiAlbert(N, m0=m0, m=1, seed=case["seed"] + s).W.toarray()
        for i in range(m0, N):
            d = W[:i, :i].sum(0) + 1
            top = d > d.mean()
            p = d[top].sum() / d.sum()
            hits += W[i, :i][top].sum()
            mean += p
            var += p * (1 - p)
    # Freedman's inequality: P(|S - mean| > t) <= 2 exp(-t^2 / (2 var + 2 t / 3))
    t = abs(hits - mean)
    need(2 * math.exp(-t * t / (2 * var + 2 * t / 3 + 1e-300)) > TAIL, "attached %d times to the well connected vertices, %.1f expected", hits, mean)


def defaults_check(case, note):
    """Documented defaults: p = 0.7, q = 0.3 / k, uniform classes for the block model, p = 0.1 for Erdos-Renyi."""
    k, N = case["k"], 90
    note.nontrivial(True)
    note.label(f"k={k}")
    inside, outside, classes = np.zeros(2), np.zeros(2), np.zeros(k)
    for s in range(5):
        if k == 1:
            G = graphs.ErdosRenyi(N, seed=case["seed"] + s, directed=case["directed"])
        else:
            G = graphs.StochasticBlockModel(N, k=k, seed=case["seed"] + s, directed=case["directed"])
        W, z = simple(G, N, case["directed"]), np.asarray(G.z)
        pairs = ~np.eye(N, dtype=bool) if case["directed"] else np.tri(N, k=-1, dtype=bool)
        same = (z[:, None] == z[None]) & pairs
        inside += W[same].sum(), same.sum()
        outside += W[pairs & ~same].sum(), (pairs & ~same).sum()
        classes += np.bincount(z, minlength=k)
    binomial(*inside, 0.1 if k == 1 else 0.7, "edges inside of the blocks, by default")
    binomial(*outside, 0.3 / k, "edges between the blocks, by default")
    for a in range(k):
        binomial(classes[a], 5 * N, 1 / k, f"vertices of class {a}")


# ------------------------------------------------------------ community
@st.composite
def community(draw):
    c = {k: draw(v) for k, v in SEEDS.items()}
    Nc = draw(st.integers(1, 5))
    sizes = draw(st.one_of(st.none(), st.lists(st.integers(1, 9), min_size=Nc, max_size=Nc)))
    N = sum(sizes) if sizes else draw(st.integers(max(4, Nc), 40 if not gens.LARGE else 130))
    c.update(N=N, Nc=Nc, sizes=sizes, min_comm=draw(st.one_of(st.none(), st.integers(0, N // Nc))), size_ratio=draw(st.sampled_from([None, 0.5, 2.0])),
             world=draw(st.one_of(st.none(), st.sampled_from([0, 1]), st.integers(0, 100).map(lambda x: x / 100))),
             how=draw(st.sampled_from(["density", "k", "eps", "default"])), density=draw(st.one_of(st.sampled_from([0, 1]), st.integers(0, 100).map(lambda x: x / 100))),
             k_neigh=draw(st.integers(0, 6)), eps=draw(st.integers(0, 40)) / 10)
    if c["world"] is not None and c["world"] < 0.35 and Nc == 1:
        c["world"] = None if draw(st.booleans()) else c["world"]
    if sizes and c["min_comm"] is not None and c["min_comm"] * Nc > N:
        c["min_comm"] = 0
    return c


def community_check(c, note):
    N, Nc = c["N"], c["Nc"]
    kw = dict(N=N, Nc=Nc, lap_type=c["lap"])
    if c["sizes"]:
        kw["comm_sizes"] = list(c["sizes"])
    if c["min_comm"] is not None:
        kw["min_comm"] = c["min_comm"]
    if c["size_ratio"] is not None:
        kw["size_ratio"] = c["size_ratio"]
    if c["world"] is not None:
        kw["world_density"] = c["world"]
    if c["how"] == "density":
        kw["comm_density"] = c["density"]
    elif c["how"] == "k":
        kw["k_neigh"] = c["k_neigh"]
    elif c["how"] == "eps":
        kw["epsilon"] = c["eps"]
    min_comm = int(round(N / (3 * Nc))) if c["min_comm"] is None else c["min_comm"]
    note.label(c["how"])
    if min_comm * Nc > N:
        return
    note.nontrivial(N > 5 and Nc > 1)
    G = twice(lambda s: graphs.Community(seed=s, **kw), c, spread=N > 5)
    W = simple(G, N)
    lab = np.asarray(G.info["node_com"])
    sizes = np.array([int((lab == i).sum()) for i in range(Nc)])
    need(lab.shape == (N,) and np.array_equal(lab, np.sort(lab)) and sizes.sum() == N, "labels")
    need(np.array_equal(sizes, G.info["comm_sizes"]), "sizes")
    if c["sizes"]:
        need(sizes.tolist() == c["sizes"], "sizes %s", sizes)
    else:
        need(sizes.min() >= min_comm, "communities %s below the minimum %d", sizes, min_comm)
    # positions: a disc around each community's centre
    R = (1 if c["size_ratio"] is None else c["size_ratio"]) * math.sqrt(N)
    ang = 2 * np.pi * np.arange(1, Nc + 1) / Nc
    centre = R * np.stack([np.cos(ang), np.sin(ang)], 1)
    rad = np.sqrt(((G.coords - centre[lab]) ** 2).sum(1))
    need(G.coords.shape == (N, 2) and np.all(rad <= np.sqrt(sizes[lab]) + 1e-9), "positions outside of the communities")
    same = lab[:, None] == lab[None, :]
    D = np.sqrt(((G.coords[:, None] - G.coords[None]) ** 2).sum(-1))
    inter = W[~same].sum() / 2
    pairs = (~same).sum() / 2
    wd = 1 / N if c["world"] is None else c["world"]
    need(inter <= wd * pairs + 1e-9 and inter > wd * pairs - 1 - 1e-9, "%d edges between communities, density %s of %d", inter, wd, pairs)
    intra = np.where(same, W, 0)
    if c["how"] == "density":
        for i in range(Nc):
            e = intra[np.ix_(lab == i, lab == i)].sum() / 2
            M = sizes[i] * (sizes[i] - 1) / 2
            need(e <= c["density"] * M + 1e-9 and e > c["density"] * M - 1 - 1e-9, "%d edges inside community %d, density %s of %d", e, i, c["density"], M)
    elif c["how"] == "k":
        ref = np.zeros((N, N))
        for i in range(N):
            near = sorted((j for j in range(N) if same[i, j] and j != i), key=lambda j: D[i, j])[:c["k_neigh"]]
            ref[i, near] = ref[near, i] = 1
        need(np.array_equal(intra, ref), "edges to the nearest neighbours of the community")
    else:
        eps = c["eps"] if c["how"] == "eps" else math.sqrt(2 * math.sqrt(N)) / 2
        ref = same & (D <= eps) & ~np.eye(N, dtype=bool)
        sure = np.abs(D - eps) > 1e-9
        need(np.array_equal((intra != 0)[sure], ref[sure]), "edges below the distance %s", eps)
    need(G.is_connected() == (len(ref_components(W)) == 1), "connectivity")


COMMUNITY_BAD = [{"world_density": 1.5}, {"world_density": -0.1}, {"comm_density": 1.1}, {"comm_density": -1}, {"k_neigh": -1}, {"Nc": 4, "min_comm": 6}, {"Nc": 2, "comm_sizes": [10, 5, 5]},
                 {"Nc": 2, "comm_sizes": [10, 9]}]


def community_bad(case, note):
    note.nontrivial(True)
    raises(ValueError, lambda: graphs.Community(N=20, **case), str(case))


# ------------------------------------------------------------ point clouds
@st.composite
def clouds(draw):
    c = {k: draw(v) for k, v in SEEDS.items()}
    m = draw(st.sampled_from(["Sensor", "Sensor", "Cube", "Sphere", "TwoMoons", "SwissRoll", "David"]))
    c["model"] = m
    c["N"] = draw(st.integers(12, 60 if not gens.LARGE else 160))
    c["radius"] = draw(st.sampled_from([1, 1, 0.5, 3]))
    c["k"] = draw(st.integers(1, 8))
    c["distributed"] = draw(st.booleans())
    c["side"] = draw(st.one_of(st.integers(3, 9), st.integers(3, 9), st.sampled_from([20, 49])))
    c["dim"] = draw(st.integers(2, 3))
    c["sphere_dim"] = draw(st.sampled_from([0, 0, 4, 5]))
    c["sigmad"] = draw(st.sampled_from([0.0, 0.07, 0.2]))
    c["distance"] = draw(st.sampled_from([0.5, 0.0, 2.0]))
    c["srtype"] = draw(st.sampled_from(["uniform", "classic"]))
    c["noise_on"] = draw(st.booleans())
    c["ab"] = draw(st.sampled_from([[1, 4], [2, 3], [0, 1]]))
    return c


def nn_ok(G, k):
    """Each vertex is joined to its k nearest others (ties aside), and to nothing else than nearest neighbours."""
    X = np.asarray(G.coords, dtype=float)
    n = len(X)
    D = np.sqrt(((X[:, None] - X[None]) ** 2).sum(-1))
    A = G.W.toarray() != 0
    kth = np.sort(D + np.where(np.eye(n, dtype=bool), np.inf, 0), axis=1)[:, k - 1]
    inside = (D < kth[:, None] * (1 - 1e-9)) & ~np.eye(n, dtype=bool)
    near = D <= kth[:, None] * (1 + 1e-9)
    sigma = G.sigma
    visible = np.exp(-D ** 2 / sigma) > 1e-300
    need(np.all(A[inside & visible]), "a vertex is not joined to one of its %d nearest neighbours", k)
    need(not np.any(A & ~(near | near.T)), "an edge to a vertex which is not a nearest neighbour")


def cloud_check(c, note):
    m, N = c["model"], c["N"]
    note.label(m)
    note.nontrivial(True)
    if m == "Sensor":
        if c["distributed"]:
            N = c["side"] ** 2
        k = min(c["k"], N - 1)
        G = twice(lambda s: graphs.Sensor(N, k=k, distributed=c["distributed"], seed=s, lap_type=c["lap"]), c, spread=N < 500)
        need(G.coords.shape == (N, 2) and G.coords.min() >= 0 and G.coords.max() <= 1, "positions outside of the unit square")
        if c["distributed"]:
            cell = np.floor(G.coords * c["side"] + 1e-12).astype(int)
            need(len(set(map(tuple, cell.tolist()))) >= N - 0 if N < 500 else True, "not one vertex per cell")
        if N < 500:
            nn_ok(G, k)
            need((G.W != 0).sum(0).min() >= k, "fewer than %d neighbours", k)
        raises(ValueError, lambda: graphs.Sensor(c["side"] ** 2 + 1, distributed=True, seed=1), "number of vertices that is not a square")
    elif m == "Cube":
        G = twice(lambda s: graphs.Cube(radius=c["radius"], nb_pts=N, nb_dim=c["dim"], seed=s, lap_type=c["lap"]), c)
        P = G.coords / c["radius"]
        need(P.shape == (N, c["dim"]) and P.min() >= 0 and P.max() <= 1 + 1e-12, "positions outside of the cube: %s in [%s, %s]", P.shape, P.min(), P.max())
        if c["dim"] == 3:
            on = np.stack([np.isclose(P[:, a], v, atol=1e-12) for a in range(3) for v in (0, 1)], 1)
            need(np.all(on.any(1)), "points which are not on a face")
            need(np.ptp(on.sum(0)) <= 1, "faces of %s points", on.sum(0))
        need(P.max() > 0.3, "the cube is not filled")
        nn_ok(G, 10)
        raises(ValueError, lambda: graphs.Cube(nb_pts=30, sampling="grid"), "unknown sampling")
        raises(NotImplementedError, lambda: graphs.Cube(nb_pts=30, nb_dim=4), "four dimensions")
    elif m == "Sphere":
        G = twice(lambda s: graphs.Sphere(radius=c["radius"], nb_pts=N, nb_dim=c["dim"], seed=s, lap_type=c["lap"]), c)
        if c["sphere_dim"]:
            H = graphs.Sphere(radius=c["radius"], nb_pts=N, nb_dim=c["sphere_dim"], seed=c["seed"])
            need(H.coords.shape == (N, c["sphere_dim"]), "number of points")
            close(np.sqrt((H.coords ** 2).sum(1)), np.full(N, float(c["radius"])), 1e-9, "distance to the centre")
        need(G.coords.shape == (N, c["dim"]), "number of points")
        close(np.sqrt((G.coords ** 2).sum(1)), np.full(N, float(c["radius"])), 1e-9, "distance to the centre")
        nn_ok(G, 10)
        need(len({tuple(x) for x in np.sign(G.coords).tolist()}) > 1, "all points in one orthant")
        raises(ValueError, lambda: graphs.Sphere(nb_pts=30, sampling="grid"), "unknown sampling")
    elif m == "TwoMoons":
        G = twice(lambda s: graphs.TwoMoons("synthesized", N=N, sigmad=c["sigmad"], distance=c["distance"], seed=s, lap_type=c["lap"]), c)
        need(G.coords.shape == (N, 2) and len(G.labels) == N, "number of points")
        need(set(np.unique(G.labels)) == {0, 1} and G.labels.sum() == N - N // 2 and np.array_equal(G.labels, np.sort(G.labels)), "labels")
        first = G.labels == 0
        off = (c["distance"] - 1) / 2
        for sel, cx, cy, up in ((first, 0.5, -off, -1), (~first, -0.5, off, 1)):
            P = G.coords[sel] - [cx, cy]
            r = np.sqrt((P ** 2).sum(1))
            slack = 9 * c["sigmad"] + 1e-9
            need(np.all(np.abs(r - 1) <= slack) and np.all(up * P[:, 1] >= -slack), "points away from the moon")
        nn_ok(G, 5)
        raises(ValueError, lambda: graphs.TwoMoons("full"), "unknown moon type")
    elif m == "SwissRoll":
        a, b = c["ab"]
        G = twice(lambda s: graphs.SwissRoll(N=N, a=a, b=b, dim=c["dim"], noise=c["noise_on"], srtype=c["srtype"], seed=s, lap_type=c["lap"]), c)
        x = np.asarray(G.x)
        need(x.shape == (c["dim"], N) and G.coords.shape == (N, c["dim"]), "number of points")
        y = x - x.mean(1)[:, None]
        close(G.coords.T, y / y.max(), 1e-12, "rescaled coordinates")
        t = np.hypot(x[0], x[-1])
        if not c["noise_on"]:
            need(np.all(t >= a * np.pi - 1e-9) and np.all(t <= b * np.pi + 1e-9), "points away from the roll")
            close(np.stack([t * np.cos(t), t * np.sin(t)]), x[[0, -1]], 1e-9, "spiral")
            if c["dim"] == 3:
                need(x[1].min() >= 0 and x[1].max() <= 21, "width of the roll")
        d2 = ((G.coords[:, None] - G.coords[None]) ** 2).sum(-1)
        ref = np.exp(-d2 / (2 * (2.0 / N)))
        np.fill_diagonal(ref, 0)
        edge = np.abs(ref / 1e-6 - 1) < 1e-6
        ref[ref < 1e-6] = 0
        close(np.where(edge, 0, G.W.toarray()), np.where(edge, 0, ref), 1e-9, "weights", ref=1.0)
    else:
        G = twice(lambda s: graphs.DavidSensorNet(N, seed=s, lap_type=c["lap"]), c)
        need(G.coords.shape == (N, 2) and G.coords.min() >= 0 and G.coords.max() <= 1, "positions outside of the unit square")
        cut = -0.125 * N / 436.075 + 0.2183
        d2 = ((G.coords[:, None] - G.coords[None]) ** 2).sum(-1)
        ref = np.exp(d2 / cut ** 2 * math.log(0.6))
        np.fill_diagonal(ref, 0)
        edge = np.abs(ref - 0.6) < 1e-9
        ref[ref < 0.6] = 0
        close(np.where(edge, 0, G.W.toarray()), np.where(edge, 0, ref), 1e-9, "weights", ref=1.0)
    W = simple(G, N, binary=False)
    need(W.min() >= 0 and W.max() <= 1, "weights out of [0, 1]")
    need(G.lap_type == c["lap"], "Laplacian type")


def saved_check(case, note):
    note.nontrivial(True)
    if case == "moons":
        G = graphs.TwoMoons()
        need(G.n_vertices == 2000 and G.labels.sum() == 1000 and not G.is_directed() and not G.has_loops(), "two moons")
    else:
        G = graphs.DavidSensorNet(case)
        H = graphs.DavidSensorNet(case, seed=3)
        need(G.n_vertices == case and G.coords.shape == (case, 2) and not G.is_directed() and not G.has_loops(), "sensor network")
        need((G.W != H.W).nnz == 0, "saved network depends on the seed")


PARTS = [
    Part("blocks", sbm(), sbm_check, quick=260, large=60),
    Part("blocks_bad", sbm_bad(), sbm_bad_check, quick=60),
    Part("others", others(), others_check, quick=700, large=80),
    Part("ring_bad", st.sampled_from([{"N": 2}, {"N": 1}, {"angles": [0.1, 0.2]}, {"angles": [0.1, 1, 7]}, {"angles": [-0.1, 1, 3]}]), ring_bad, quick=10),
    Part("attachment", st.fixed_dictionaries({"m0": st.integers(1, 4), "more": st.integers(3, 25), "seed": st.integers(0, 10 ** 6)}), attach_check, quick=24),
    Part("defaults", st.fixed_dictionaries({"k": st.integers(1, 7), "directed": st.booleans(), "seed": st.integers(0, 10 ** 6)}), defaults_check, quick=24),
    Part("community", community(), community_check, quick=500, large=60),
    Part("community_bad", st.sampled_from(COMMUNITY_BAD), community_bad, quick=12),
    Part("clouds", clouds(), cloud_check, quick=350, large=60),
    Part("saved", st.sampled_from(["moons", 64, 500]), saved_check, quick=4, thorough=6),
]
