"""C32 Distances and clusterings are valid and faithful to their inputs."""

import warnings

import numpy as np
import pandas as pd
from hypothesis import strategies as st

from harness import gen
from harness.core import check, close, law, must_raise, note

ASSUMPTIONS = [
    "returns without constant assets; a power without the absolute transform is a whole number",
    "mutual information is compared where no return is within 1e-9 of a bin edge and every asset has positive entropy",
    "linkage trees are compared with a Lance-Williams recomputation on distances without ties; centroid and median linkages on Euclidean distances",
    "the automatic number of clusters maximises the second difference of the within-cluster dispersion (the documented sum, or the mean, of the within-cluster distances)",
]

DIST = ["pearson", "kendall", "spearman", "covariance", "gerber", "dcorr", "mutual"]


@st.composite
def cases(draw):
    name = draw(gen.choice(DIST))
    return {
        "d": name,
        "m": draw(gen.mat(5 if name != "gerber" else 10, 30, 1 if name == "dcorr" else 2, 6, kinds=gen.SMOOTH)),
        "round": draw(gen.choice([None, None, 3, 2])),
        "dup": draw(gen.choice(["none", "none", "same", "opposite"])),
        "absolute": draw(st.booleans()),
        "power": draw(gen.choice([1, 1, 2, 3, 4, 0.5, 1.5])),
        "bins": draw(gen.choice([None, 2, 3, 6])),
        "normalize": draw(st.booleans()),
        "form": draw(gen.choice(["frame", "array"])),
        "seed": draw(gen.seeds),
    }


def data(case):
    x = gen.build(case["m"])
    if case["round"] is not None:
        x = np.round(x / max(np.abs(x).max(), 1e-12), case["round"])
    if x.shape[1] > 1 and case["dup"] != "none":
        x = x.copy()
        x[:, -1] = x[:, 0] if case["dup"] == "same" else -x[:, 0]
    return x


def usable(case, x):
    if x.std(axis=0).min() < 1e-9 * max(1, np.abs(x).max()) or np.ptp(x, axis=0).min() < 1e-7:
        return False
    if case["d"] in ("pearson", "covariance") and (np.abs(x).max(axis=0) / x.std(axis=0)).max() > 1e4:
        return False
    return True


def table(x):
    return pd.DataFrame(x, columns=gen.names(x.shape[1]))


def make(case):
    from skfolio import distance as d
    from skfolio import moments as mo

    absolute, power = case["absolute"], case["power"]
    if not absolute:
        power = max(1, int(power))
    kw = dict(absolute=absolute, power=power)
    return {
        "pearson": lambda: d.PearsonDistance(**kw),
        "kendall": lambda: d.KendallDistance(**kw),
        "spearman": lambda: d.SpearmanDistance(**kw),
        "covariance": lambda: d.CovarianceDistance(covariance_estimator=mo.EmpiricalCovariance(nearest=False), **kw),
        "gerber": lambda: d.CovarianceDistance(**kw),
        "dcorr": lambda: d.DistanceCorrelation(),
        "mutual": lambda: d.MutualInformation(n_bins=case["bins"], normalize=case["normalize"]),
    }[case["d"]](), (absolute, power)


def fit(case, x):
    est, _ = make(case)
    with warnings.catch_warnings():
        warnings.simplefilter("ignore")
        return est.fit(table(x) if case["form"] == "frame" else x)


# ---------------------------------------------------------------- references
def pearson(x):
    d = x - x.mean(axis=0)
    s = np.sqrt((d**2).sum(axis=0))
    return d.T @ d / np.outer(s, s)


def ranks(v):
    return np.array([(v < t).sum() + ((v == t).sum() + 1) / 2 for t in v])


def kendall(x):
    n, k = x.shape
    out = np.ones((k, k))
    sg = [np.sign(x[:, None, i] - x[None, :, i]) for i in range(k)]
    for i in range(k):
        for j in range(k):
            out[i, j] = (sg[i] * sg[j]).sum() / np.sqrt((sg[i] ** 2).sum() * (sg[j] ** 2).sum())
    return out


def dcorr(x):
    n, k = x.shape
    a = []
    for i in range(k):
        m = np.abs(x[:, None, i] - x[None, :, i])
        a.append(m - m.mean(axis=0) - m.mean(axis=1)[:, None] + m.mean())
    out = np.ones((k, k))
    for i in range(k):
        for j in range(k):
            v = max(0.0, (a[i] * a[j]).mean()) / np.sqrt((a[i] ** 2).mean() * (a[j] ** 2).mean())
            out[i, j] = np.sqrt(v)
    return out


def binned(v, b):
    t = (v - v.min()) / (v.max() - v.min()) * b
    inner = (t > 1e-6) & (t < b - 1e-6)
    risky = bool(np.any(np.abs(t[inner] - np.round(t[inner])) < 1e-9))
    return np.minimum(np.floor(t + 1e-12).astype(int), b - 1), risky


def entropy(labels):
    p = np.unique(labels, return_counts=True, axis=0)[1] / len(labels)
    return -(p * np.log(p)).sum()


def freedman(v):
    n = len(v)
    lo, hi = np.quantile(v, [0.25, 0.75])
    d = 2 * (hi - lo) / n ** (1 / 3)
    return 5 if d == 0 else max(1, int(np.ceil((v.max() - v.min()) / d)))


def mutual(x, bins, normalize):
    k = x.shape[1]
    nb = [bins or freedman(x[:, i]) for i in range(k)]
    co, di = np.zeros((k, k)), np.zeros((k, k))
    for i in range(k):
        for j in range(k):
            b = max(nb[i], nb[j])
            (u, r1), (v, r2) = binned(x[:, i], b), binned(x[:, j], b)
            hx, hy, h = entropy(u), entropy(v), entropy(np.column_stack([u, v]))
            if r1 or r2 or min(hx, hy) < 1e-9:
                return None, None
            mi = hx + hy - h
            co[i, j] = mi / min(hx, hy) if normalize else mi
            di[i, j] = (h - mi) / h if normalize else h - mi
    return co, di


def reference(case, x):
    name = case["d"]
    if name == "mutual":
        return mutual(x, case["bins"], case["normalize"])
    if name == "dcorr":
        c = dcorr(x)
        return c, np.sqrt(np.clip(1 - c, 0, 1))
    if name in ("pearson", "covariance"):
        c = pearson(x)
    elif name == "kendall":
        c = kendall(x)
    elif name == "spearman":
        c = pearson(np.column_stack([ranks(x[:, i]) for i in range(x.shape[1])]))
    else:
        from skfolio.moments import GerberCovariance

        s = GerberCovariance().fit(x).covariance_
        c = s / np.sqrt(np.outer(np.diag(s), np.diag(s)))
    absolute, power = make(case)[1]
    c = np.abs(c) if absolute else c
    c = c**power
    scale = 0.5 if not absolute and power % 2 == 1 else 1.0
    return c, np.sqrt(np.clip(scale * (1 - c), 0, 1))


@law(cases(), quick=1200, thorough=20000, rule="at least two assets")
def distances(case):
    x = data(case)
    if not usable(case, x):
        return False
    if case["d"] == "gerber" and x.std(axis=0).min() < 1e-6:
        return False
    keep = x.copy()
    try:
        est = fit(case, x)
    except Exception as e:  # noqa: BLE001
        if case["d"] == "gerber" and type(e).__name__ == "NonPositiveVarianceError":
            return False
        raise
    check(np.array_equal(x, keep), "the returns were modified")
    co, di = est.codependence_, est.distance_
    k = x.shape[1]
    check(np.shape(co) == (k, k) and np.shape(di) == (k, k), "shape of the distance")
    rc, rd = reference(case, x)
    if rc is None:
        return False
    check(np.all(np.isfinite(di)) and np.all(np.isfinite(co)), "undefined distance", case=case)
    slack = 1e-6 if case["absolute"] and case["power"] < 1 else 1e-8  # a root near zero
    close(di**2, di.T**2, "the distance is not symmetric", rtol=0, atol=1e-7 if slack > 1e-7 else 1e-12)
    close(np.diag(di), np.zeros(k), "distance of an asset to itself", rtol=0, atol=1e-6)
    check(di.min() >= 0 and (di.max() <= 1 + 1e-12 or case["d"] == "mutual" and not case["normalize"]), "distance out of range", lo=di.min(), hi=di.max())
    close(co, rc, f"codependence ({case['d']})", rtol=0, atol=slack, case=case)
    if case["d"] == "mutual":
        close(di, rd, "mutual information distance", rtol=0, atol=1e-8, case=case)
    else:
        close(di**2, rd**2, f"distance ({case['d']})", rtol=0, atol=slack, case=case)
    if k > 1 and case["dup"] == "same" or case["dup"] == "opposite" and k > 1 and (case["d"] in ("dcorr",) or case["absolute"] and case["d"] in DIST[:4]):
        check(di[0, -1] < 1e-4, "identical assets are apart", got=di[0, -1])
        note("duplicate")
    if case["form"] == "frame":
        check(list(est.feature_names_in_) == gen.names(k), "names of the assets")
    note(case["d"], "absolute" if case["absolute"] else "signed", f"power {case['power']}")
    return k > 1


@law(st.fixed_dictionaries({"c": cases(), "op": gen.choice(["permute", "units", "shift", "monotone", "flip"]), "seed": gen.seeds}), quick=700, thorough=10000, rule="the transformation changes the input")
def invariance(case):
    c, op = case["c"], case["op"]
    g = gen.rng_of(case["seed"])
    x = data(c)
    k = x.shape[1]
    if not usable(c, x) or k < 2 or c["d"] == "gerber" and op not in ("permute", "units"):
        return False
    if c["d"] == "mutual" and reference(c, x)[0] is None:
        return False
    try:
        a = fit(c, x).distance_
    except Exception as e:  # noqa: BLE001
        if type(e).__name__ == "NonPositiveVarianceError":
            return False
        raise
    root = c["absolute"] and c["power"] < 1
    if root and op != "units":
        return False
    sq = lambda m: m if c["d"] == "mutual" else m**2  # noqa: E731
    if op == "permute":
        p = g.permutation(k)
        b = fit(c, np.ascontiguousarray(x[:, p])).distance_
        close(sq(b), sq(a[np.ix_(p, p)]), "the distance depends on the order of the assets", rtol=0, atol=1e-7 if c["d"] == "gerber" else 1e-9)
    elif op == "units":
        b = fit(c, x * 2.0 ** g.integers(-3, 4, k)).distance_
        close(sq(b), sq(a), "the distance depends on the units", rtol=0, atol=1e-7 if c["d"] == "gerber" else 1e-9)
    elif op == "shift":
        if c["d"] == "mutual" or c["d"] in ("kendall", "spearman") and c["round"] is None:
            return False
        y = x + 0.25 * np.abs(x).max() * g.integers(-2, 3, k)
        if c["d"] in ("kendall", "spearman") and any(len(np.unique(y[:, i])) != len(np.unique(x[:, i])) for i in range(k)):
            return False
        close(sq(fit(c, y).distance_), sq(a), "the distance depends on the level", rtol=0, atol=1e-7)
    elif op == "monotone":
        if c["d"] not in ("kendall", "spearman"):
            return False
        y = np.column_stack([np.searchsorted(np.unique(x[:, i]), x[:, i]) ** 3.0 for i in range(k)])
        close(sq(fit(c, y).distance_), sq(a), "a rank distance depends on more than the ranks", rtol=0, atol=1e-9)
    else:
        if c["d"] not in ("pearson", "kendall", "spearman", "covariance", "dcorr") or not (c["absolute"] or c["d"] == "dcorr"):
            return False
        b = fit(c, x * g.choice([-1.0, 1.0], k)).distance_
        close(sq(b), sq(a), "the absolute distance depends on the sign", rtol=0, atol=1e-9)
    note(op, c["d"])
    return True


# ---------------------------------------------------------------- clustering
LINK = ["single", "complete", "average", "weighted", "centroid", "median", "ward"]


@st.composite
def clus(draw):
    return {
        "n": draw(st.integers(2, 14)) if draw(st.integers(0, 9)) else draw(st.integers(60, 90)),
        "link": draw(gen.choice(LINK)),
        "src": draw(gen.choice(["points", "blobs", "matrix", "corr"])),
        "max": draw(gen.choice([None, None, None, 1, 2, 3, 4, 6, 20])),
        "dup": draw(gen.choice([0, 0, 1, 2])),
        "form": draw(gen.choice(["frame", "array"])),
        "seed": draw(gen.seeds),
    }


def distance_of(case):
    g = gen.rng_of(case["seed"])
    n, src = case["n"], case["src"]
    if case["link"] in ("centroid", "median") and src in ("matrix", "corr"):
        src = "points"
    if src == "points":
        p = g.random((n, 4))
    elif src == "blobs":
        p = g.random((4, 4))[g.integers(0, 4, n)] * 3 + 0.15 * g.random((n, 4))
    elif src == "many":
        k = 8 + case["seed"] % 4
        p = (np.eye(k) * (1 + 0.1 * g.random(k)))[g.permutation(np.arange(n) % k)] + 0.01 * g.random((n, k))
    if src in ("points", "blobs", "many"):
        d = np.sqrt(((p[:, None] - p[None]) ** 2).sum(-1))
    elif src == "corr":
        f = g.normal(size=(60, 3))
        x = f @ g.normal(size=(3, n)) + 0.7 * g.normal(size=(60, n))
        d = np.sqrt(np.clip(0.5 * (1 - np.corrcoef(x.T)), 0, 1))
    else:
        d = g.uniform(0.1, 1, (n, n))
    d = (d + d.T) / 2
    np.fill_diagonal(d, 0)
    for i in range(min(case["dup"], n // 2)):
        d[:, n - 1 - i] = d[:, i]
        d[n - 1 - i, :] = d[i, :]
        d[n - 1 - i, i] = d[i, n - 1 - i] = 0
        d[n - 1 - i, n - 1 - i] = 0
    d = np.minimum(d, d.T)
    np.fill_diagonal(d, 0)
    return d


def tree(d, link):
    """Merges as (members, height, max height in subtree), in order, by Lance-Williams."""
    n = len(d)
    act = {i: frozenset([i]) for i in range(n)}
    dist = {(i, j): d[i, j] for i in range(n) for j in range(i + 1, n)}
    top = dict.fromkeys(range(n), 0.0)
    out, gap = [], np.inf
    nxt = n
    while len(act) > 1:
        order = sorted(dist.items(), key=lambda t: t[1])
        (s, t), h = order[0]
        if len(order) > 1:
            gap = min(gap, order[1][1] - h)
        ns, nt = len(act[s]), len(act[t])
        new = {}
        for v in act:
            if v in (s, t):
                continue
            a = dist.pop((min(s, v), max(s, v)))
            b = dist.pop((min(t, v), max(t, v)))
            nv = len(act[v])
            new[v] = {
                "single": lambda: min(a, b),
                "complete": lambda: max(a, b),
                "average": lambda: (ns * a + nt * b) / (ns + nt),
                "weighted": lambda: (a + b) / 2,
                "centroid": lambda: np.sqrt(max(0, (ns * a * a + nt * b * b - ns * nt * h * h / (ns + nt)) / (ns + nt))),
                "median": lambda: np.sqrt(max(0, a * a / 2 + b * b / 2 - h * h / 4)),
                "ward": lambda: np.sqrt(((nv + ns) * a * a + (nv + nt) * b * b - nv * h * h) / (nv + ns + nt)),
            }[link]()
        del dist[(s, t)]
        members = act.pop(s) | act.pop(t)
        top[nxt] = max(h, top.pop(s), top.pop(t))
        act[nxt] = members
        for v, val in new.items():
            dist[(min(v, nxt), max(v, nxt))] = val
        out.append((members, h, top[nxt]))
        nxt += 1
    return out, gap


def flat(n, merges, m):
    """Partition with at most m clusters at the smallest cophenetic threshold."""
    for r in [-1.0] + sorted({t for _, _, t in merges}):
        parts = [frozenset([i]) for i in range(n)]
        for members, _, t in merges:
            if t <= r:
                parts = [p for p in parts if not p <= members] + [members]
        if len(parts) <= m:
            return set(parts)
    return {frozenset(range(n))}


def auto(d, merges, mean):
    n = len(d)
    M = min(n, max(8, round(np.sqrt(n))))
    W = []
    for k in range(1, M + 1):
        parts = [frozenset([i]) for i in range(n)]
        for members, _, _ in merges[: n - k]:
            parts = [p for p in parts if not p <= members] + [members]
        w = 0.0
        for p in parts:
            p = sorted(p)
            s = sum(d[i, j] for a, i in enumerate(p) for j in p[a + 1 :])
            q = len(p) * (len(p) - 1) / 2
            w += (s / q if q else 0.0) if mean else 2 * s / (2 * len(p))
        W.append(w)
    if M < 3:
        return {M}, M
    gaps = [W[i + 2] + W[i] - 2 * W[i + 1] for i in range(M - 2)]
    best = max(gaps)
    return {i + 2 for i, v in enumerate(gaps) if v > best - 1e-9}, M


@law(clus(), quick=500, thorough=8000, rule="more than two assets")
def clustering(case):
    return judge_clustering(case)


@law(
    st.fixed_dictionaries({"n": st.integers(82, 130), "link": gen.choice(["ward", "average", "complete", "weighted"]), "src": st.just("many"), "max": gen.choice([None, None, None, 9, 12]), "dup": st.just(0), "form": gen.choice(["frame", "array"]), "seed": gen.seeds}),
    quick=32,
    thorough=300,
    rule="always",
)
def many_clusters(case):
    return judge_clustering(case)


def judge_clustering(case):
    from skfolio.cluster import HierarchicalClustering, LinkageMethod

    d = distance_of(case)
    n = len(d)
    X = pd.DataFrame(d, columns=gen.names(n), index=gen.names(n)) if case["form"] == "frame" else d
    keep = d.copy()
    hc = HierarchicalClustering(max_clusters=case["max"], linkage_method=LinkageMethod(case["link"]))
    lab = hc.fit(X).labels_
    check(np.array_equal(d, keep), "the distance was modified")
    check(lab.shape == (n,) and set(lab) == set(range(hc.n_clusters_)), "labels are not a partition into clusters 0, 1, ...", labels=lab)
    bound = min(n, max(8, round(np.sqrt(n))))
    check(hc.n_clusters_ <= (case["max"] or bound), "too many clusters", got=hc.n_clusters_)
    check(np.array_equal(lab, hc.fit_predict(X)), "not reproducible")
    got = {frozenset(np.flatnonzero(lab == i)) for i in set(lab)}
    merges, gap = tree(d, case["link"])
    close(np.sort(hc.linkage_matrix_[:, 2]), np.sort([h for _, h, _ in merges]), "heights of the linkage", rtol=0, atol=1e-7) if gap > 1e-7 else None
    for i in range(min(case["dup"], n // 2)):
        if hc.n_clusters_ < n - case["dup"] + 1 and case["link"] not in ("centroid", "median"):
            check(lab[i] == lab[n - 1 - i], "identical assets are separated", labels=lab)
    if gap < 1e-7 and case["dup"] == 0:
        return False
    if case["dup"]:
        note("duplicates")
        return n > 2
    if case["max"] is not None:
        want = flat(n, merges, case["max"])
        check(got == want, "clusters are not the cut of the tree", got=sorted(map(sorted, got)), want=sorted(map(sorted, want)), case=case)
        note("given")
    elif case["link"] not in ("centroid", "median"):
        ks = auto(d, merges, True)[0] | auto(d, merges, False)[0]
        check(any(got == flat(n, merges, k) for k in ks), "automatic number of clusters", got=hc.n_clusters_, want=sorted(ks), case=case)
        note(f"automatic {hc.n_clusters_}")
    note(case["link"])
    return n > 2


@law(st.fixed_dictionaries({"n": st.integers(4, 7), "bad": gen.choice(["asymmetric", "diagonal", "rectangular", "nan"]), "seed": gen.seeds}), quick=60, thorough=500, rule="always")
def refusals(case):
    from skfolio.cluster import HierarchicalClustering

    d = distance_of({"seed": case["seed"], "n": case["n"], "src": "matrix", "link": "ward", "dup": 0})
    if case["bad"] == "asymmetric":
        d[0, 1] += 0.05
    elif case["bad"] == "diagonal":
        d[1, 1] = 0.05
    elif case["bad"] == "rectangular":
        d = d[:-1]
    else:
        d[0, 1] = d[1, 0] = np.nan
    must_raise(lambda: HierarchicalClustering().fit(d), ValueError, f"{case['bad']} distance accepted")


@law(st.fixed_dictionaries({"a": st.integers(2, 4), "b": st.integers(2, 4), "digits": st.integers(2, 6), "seed": gen.seeds}), quick=150, thorough=2000, rule="always")
def independent(case):
    """Assets that are exactly independent in the sample (a full factorial design)."""
    from skfolio import distance as d

    g = gen.rng_of(case["seed"])
    u, v = (np.round(np.cumsum(g.uniform(0.02, 0.05, k)) - 0.05, case["digits"]) for k in (case["a"], case["b"]))
    if len(set(u)) < 2 or len(set(v)) < 2:
        return False
    x = np.array([(p, q) for p in u for q in v])
    for est, far in ((d.DistanceCorrelation(), 1.0), (d.PearsonDistance(absolute=True), 1.0), (d.KendallDistance(), 0.5**0.5), (d.SpearmanDistance(), 0.5**0.5), (d.MutualInformation(n_bins=24), 1.0)):
        if isinstance(est, d.MutualInformation) and (min(np.diff(np.unique(u))) < 0.011 or min(np.diff(np.unique(v))) < 0.011):
            continue
        m = est.fit(x).distance_
        check(np.all(np.isfinite(m)), "undefined distance of independent assets", est=type(est).__name__, x=x.tolist())
        close(m[0, 1], far, f"independent assets ({type(est).__name__})", rtol=0, atol=1e-3)
    return True


LAWS = [independent, distances, invariance, clustering, refusals]
