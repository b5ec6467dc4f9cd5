"""C37 Vine models sample from the density they report."""

import warnings

import numpy as np
import pandas as pd
import scipy.stats as sst
from hypothesis import strategies as st
from skfolio.distribution import (
    ClaytonCopula,
    DependenceMethod,
    Gaussian,
    GaussianCopula,
    GumbelCopula,
    JoeCopula,
    JohnsonSU,
    SelectionCriterion,
    StudentT,
    StudentTCopula,
    VineCopula,
    select_bivariate_copula,
    select_univariate_dist,
)
from sklearn.base import clone

from harness import gen
from harness.core import check, close, law, must_raise, note

ASSUMPTIONS = [
    "conditional sampling is required to follow the conditional law when the conditioned assets are exactly those declared central when fitting, as the library recommends, or a single one of them in a vine that is not truncated (other subsets need not be marginals of the vine); the requested values or bounds are required always",
    "sampler and density are compared through the change of variables from the uniform draws: log density plus log Jacobian of the sampling map is zero (constant given the conditioning), with numerical derivatives, within 0.02",
    "the density of a log-transformed model is the density of the transformed data",
    "three or more assets and a depth of two or more, as the estimator requires",
]

COPS = {"gaussian": GaussianCopula, "student": StudentTCopula, "clayton": ClaytonCopula, "gumbel": GumbelCopula, "joe": JoeCopula}
MARG = {"gaussian": Gaussian, "student": StudentT, "johnson": JohnsonSU}


def quiet(f):
    with warnings.catch_warnings(), np.errstate(all="ignore"):
        warnings.simplefilter("ignore")
        return f()


@st.composite
def vines(draw, max_k=6, central=None):
    k = draw(gen.choice([*range(3, max_k + 1)] + [7] * (max_k == 6)))
    return {
        "k": k,
        "n": draw(gen.choice([60, 120, 200])),
        "src": draw(gen.choice(["gauss", "tail", "tail", "mixed", "factor"])),
        "marg": draw(st.booleans()),
        "cops": draw(gen.choice([None, ["clayton"], ["joe", "gumbel"], ["clayton", "gaussian"], ["gumbel", "student"]])),
        "depth": draw(gen.choice([None, None, 2, 3, 4, 5])),
        "central": draw(gen.subset(range(k), p=0.3)) if central is None else central,
        "bic": draw(st.booleans()),
        "level": draw(gen.choice([0.05, 0.05, 1.0, 1e-6])),
        "names": draw(st.booleans()),
        "seed": draw(gen.seeds),
    }


def clayton_next(u, p, th):
    return (u**-th * (p ** (-th / (1 + th)) - 1) + 1) ** (-1 / th)


def uniforms(c):
    """Dependent uniforms with positive, negative and tail-asymmetric pairs."""
    g = gen.rng_of(c["seed"])
    n, k = c["n"], c["k"]
    if c["src"] in ("gauss", "factor"):
        if c["src"] == "factor":
            L = g.normal(size=(k, 1)) * 1.5
            S = L @ L.T + np.eye(k)
        else:
            A = g.normal(size=(k, k + 1))
            S = A @ A.T
        z = g.multivariate_normal(np.zeros(k), S, size=n)
    else:
        cols = [g.random(n)]
        for i in range(1, k):
            u = cols[int(g.integers(0, i))]
            p = g.random(n)
            if c["src"] == "mixed" and g.random() < 0.4:
                cols.append(p)
                continue
            a, b = g.random(2) < 0.5
            v = clayton_next(1 - u if a else u, p, g.uniform(0.7, 4))
            cols.append(1 - v if b else v)
        z = np.column_stack(cols) + 1e-9 * g.normal(size=(n, k))
    perm = g.permutation(k)
    return ((sst.rankdata(z, axis=0) - 0.5) / n)[:, perm]


def dataset(c):
    u = uniforms(c)
    g = gen.rng_of(c["seed"] + 1)
    if not c["marg"]:
        if c["seed"] % 4 == 0:  # values on the edge of the unit cube
            for i in range(int(g.integers(1, 3))):
                j = int(g.integers(c["k"]))
                u[np.argmin(u[:, j]), j] = 0.0
                u[np.argmax(u[:, j]), j] = 1.0
        return u
    df = g.uniform(3, 12, c["k"])
    q = [sst.norm.ppf(u[:, i]) if i % 3 == 1 else sst.t(df[i]).ppf(u[:, i]) for i in range(c["k"])]
    return np.column_stack(q) * g.uniform(0.005, 0.03, c["k"]) + g.normal(size=c["k"]) * 1e-3


def model(c, **kw):
    return VineCopula(
        fit_marginals=c["marg"],
        marginal_candidates=[Gaussian(), JohnsonSU()] if c["marg"] else None,
        copula_candidates=None if c["cops"] is None else [COPS[n]() for n in c["cops"]],
        max_depth=c["depth"],
        central_assets=([f"A{i}" for i in c["central"]] if c["names"] else list(c["central"])) or None,
        selection_criterion=SelectionCriterion.BIC if c["bic"] else SelectionCriterion.AIC,
        independence_level=c["level"],
        **kw,
    )


def fitted(c, **kw):
    x = dataset(c)
    X = pd.DataFrame(x, columns=gen.names(c["k"])) if c["names"] else x
    m = model(c, **kw)
    keep = np.array(X, copy=True)
    check(quiet(lambda: m.fit(X)) is m, "fit does not return the estimator")
    check(np.array_equal(np.asarray(X), keep), "the data was modified")
    return m, x


def wrap(c, x):
    return pd.DataFrame(x, columns=gen.names(c["k"])) if c["names"] else x


# ---------------------------------------------------------------- reference density
def edges_of(m):
    return [[(tuple(int(v) for v in e.cond_sets.conditioned), frozenset(int(v) for v in e.cond_sets.conditioning), e.copula) for e in t.edges] for t in m.trees_]


class Rosenblatt:
    """Conditional distribution values F(i | D) from the pair copulas."""

    def __init__(self, m, u):
        self.levels, self.u, self.memo = edges_of(m), u, {}

    def F(self, i, D):
        if not D:
            return self.u[:, i]
        key = (i, D)
        if key not in self.memo:
            for (a, b), S, cop in self.levels[len(D) - 1]:
                if i in (a, b) and S | {b if i == a else a} == D:
                    x = np.clip(np.column_stack([self.F(a, S), self.F(b, S)]), 0, 1)
                    self.memo[key] = quiet(lambda: cop.partial_derivative(x, first_margin=i == b))
                    break
            else:
                raise KeyError(key)
        return self.memo[key]


def to_uniform(m, x):
    if not m.fit_marginals:
        return np.clip(x, 1e-9, 1 - 1e-9)
    return np.clip(np.column_stack([d.cdf(x[:, [i]]).ravel() for i, d in enumerate(m.marginal_distributions_)]), 1e-9, 1 - 1e-9)


def ref_score(m, x):
    R = Rosenblatt(m, to_uniform(m, x))
    out = np.zeros(len(x))
    if m.fit_marginals:
        for i, d in enumerate(m.marginal_distributions_):
            out += quiet(lambda d=d, i=i: d.score_samples(x[:, [i]]))
    for lev in R.levels:
        for (a, b), S, cop in lev:
            y = np.clip(np.column_stack([R.F(a, S), R.F(b, S)]), 0, 1)
            out += quiet(lambda cop=cop, y=y: cop.score_samples(y))
    return out


def points(c, m, x, n=12):
    g = gen.rng_of(c["seed"] + 7)
    rows = x[g.integers(0, len(x), n // 2)]
    if c["marg"]:
        other = x.mean(axis=0) + x.std(axis=0) * g.normal(size=(n - n // 2, c["k"]))
    else:
        other = g.uniform(0.01, 0.99, size=(n - n // 2, c["k"]))
    return np.vstack([rows, other])


def asym(m):
    return any(str(getattr(cop, "rotation_", "")) in ("90°", "270°") for lev in edges_of(m) for _, _, cop in lev)


# ---------------------------------------------------------------- structure
def spanning_weight(W, allowed):
    """Greatest total weight of a spanning tree (Prim)."""
    n = len(W)
    inside, total = {0}, 0.0
    while len(inside) < n:
        best = max(((W[i, j], j) for i in inside for j in range(n) if j not in inside and allowed[i, j]), key=lambda t: t[0])
        total += best[0]
        inside.add(best[1])
    return total


@law(vines(), quick=70, thorough=600, rule="the vine has a dependent pair above the first tree, or central assets")
def structure_and_density(c):
    m, x = fitted(c)
    k = c["k"]
    depth = k - 1 if c["depth"] is None else min(c["depth"], k - 1)
    lev = edges_of(m)
    check(len(lev) == depth, "number of trees", got=len(lev), depth=depth)
    pairs = []
    nodes = [frozenset([i]) for i in range(k)]
    R = Rosenblatt(m, to_uniform(m, x))
    for t, edges in enumerate(lev):
        check(len(edges) == k - 1 - t, "number of edges", t=t, n=len(edges))
        sets = []
        for (a, b), S, _ in edges:
            check(len(S) == t and a not in S and b not in S and a != b, "conditioning set", t=t, e=(a, b, S))
            pairs.append(frozenset([a, b]))
            ends = [q for q in nodes if q <= S | {a, b}]
            if t:
                check(S | {a} in nodes and S | {b} in nodes, "an edge joins nodes that do not share a node", e=(a, b, S))
            sets.append((S | {a}, S | {b}))
            check(len(ends) >= 2, "edge without two nodes")
        # connected
        idx = {q: i for i, q in enumerate(nodes)}
        parent = list(range(len(nodes)))

        def find(i, parent=parent):
            while parent[i] != i:
                i = parent[i]
            return i

        for p, q in sets:
            parent[find(idx[p])] = find(idx[q])
        check(len({find(i) for i in range(len(nodes))}) == 1, "the edges do not form a tree", t=t)
        # greatest dependence among the eligible edges
        W = np.zeros((len(nodes), len(nodes)))
        ok = np.zeros(W.shape, bool)
        cen = set(c["central"])
        for i in range(len(nodes)):
            for j in range(i + 1, len(nodes)):
                S = nodes[i] & nodes[j]
                if len(S) != t:
                    continue
                (a,), (b,) = nodes[i] - S, nodes[j] - S
                if t:
                    # the two nodes, edges of the tree before, must share an end
                    ea, eb = ends_of[i], ends_of[j]
                    if not set(ea) & set(eb):
                        continue
                tau = sst.kendalltau(R.F(a, S), R.F(b, S)).statistic
                W[i, j] = W[j, i] = abs(tau)
                ok[i, j] = ok[j, i] = True
        got = sum(W[idx[p], idx[q]] for p, q in sets)
        if not cen:
            best = spanning_weight(W, ok)
            check(got >= best - 1e-6, "another tree carries more dependence", t=t, got=got, best=best, case=c)
        elif t == 0:
            inner = sum({a, b} <= cen for (a, b), _, _ in edges)
            weak = sum(bool({a, b} & cen) for (a, b), _, _ in edges)
            check(inner == len(cen) - 1 and weak == len(edges), "central assets are not at the centre", central=cen, edges=[e[0] for e in edges])
            note("central")
        # pair copulas fit the conditional data
        for (a, b), S, cop in edges:
            data = np.column_stack([R.F(a, S), R.F(b, S)])
            p = sst.kendalltau(*data.T).pvalue
            if abs(p - c["level"]) < 1e-6:
                continue
            want = quiet(
                lambda data=data: select_bivariate_copula(
                    np.clip(data, 0, 1),
                    copula_candidates=None if c["cops"] is None else [COPS[n]() for n in c["cops"]],
                    selection_criterion=SelectionCriterion.BIC if c["bic"] else SelectionCriterion.AIC,
                    independence_level=c["level"],
                )
            )
            close(quiet(lambda cop=cop, d=data: cop.score(np.clip(d, 0, 1))), quiet(lambda w=want, d=data: w.score(np.clip(d, 0, 1))), "pair copula", rtol=1e-4, atol=1e-2, pair=(a, b, S), case=c)
        ends_of = [tuple(idx[q] for q in s) for s in sets]
        nodes = [p | q for p, q in sets]
    check(len(set(pairs)) == len(pairs), "a pair appears twice", pairs=pairs)
    if depth == k - 1:
        check(len(pairs) == k * (k - 1) // 2, "a pair is missing")
    if c["marg"]:
        for i, d in enumerate(m.marginal_distributions_):
            w = quiet(lambda i=i: select_univariate_dist(x[:, [i]], distribution_candidates=[Gaussian(), JohnsonSU()], selection_criterion=m.selection_criterion))
            check(type(d) is type(w), "marginal family", i=i, case=c)
            close(d.score(x[:, [i]]), w.score(x[:, [i]]), "marginal parameters", rtol=1e-8, atol=1e-6)
    check(m.n_params == sum(cop.n_params for e in lev for _, _, cop in e) + (sum(d.n_params for d in m.marginal_distributions_) if c["marg"] else 0), "number of parameters")
    y = points(c, m, x)
    s = quiet(lambda: m.score_samples(wrap(c, y)))
    close(s, ref_score(m, y), "log density", rtol=1e-8, atol=1e-6, case=c)
    close(quiet(lambda: m.score_samples(wrap(c, y[:1]))), s[:1], "density depends on the other rows", rtol=1e-9, atol=1e-9)
    L = quiet(lambda: m.score(wrap(c, x)))
    close(quiet(lambda: m.aic(wrap(c, x))), 2 * m.n_params - 2 * L, "aic", rtol=1e-9, atol=1e-6)
    close(quiet(lambda: m.bic(wrap(c, x))), m.n_params * np.log(len(x)) - 2 * L, "bic", rtol=1e-9, atol=1e-6)
    note("complete" if depth == k - 1 else "truncated", "rotated pair" if asym(m) else "symmetric pairs")
    return any(cop.n_params for e in lev[1:] for _, _, cop in e) or bool(c["central"])


# ---------------------------------------------------------------- sampling
class Script(np.random.RandomState):
    """A random source replaying given uniforms (assets in rows, samples in columns)."""

    def __init__(self, w):
        super().__init__(0)
        self.w, self.used = w, 0

    def take(self, size):
        size = tuple(np.atleast_1d(size)) if size is not None else ()
        if size == self.w.shape:
            self.used += 1
            return self.w.copy()
        if size == self.w.shape[::-1]:
            self.used += 1
            return self.w.T.copy()
        raise AssertionError(f"unexpected draw {size}")

    def random(self, size=None):
        return self.take(size)

    random_sample = random

    def uniform(self, low=0.0, high=1.0, size=None):
        return low + (high - low) * self.take(size)

    def rand(self, *size):
        return self.take(size)


def log_jacobian(m, w, cond, free):
    """log |det d sample / d w| by central differences, and the samples."""
    d, n = w.shape
    h = 1e-4
    blocks = [w]
    for i in range(d):
        for s in (h, -h):
            q = w.copy()
            q[i] += s
            blocks.append(q)
    W = np.hstack(blocks)
    src = Script(W)
    m.random_state = src
    cond = None if cond is None else {a: np.tile(v, 2 * d + 1) for a, v in cond.items()}
    try:
        X = quiet(lambda: m.sample(n_samples=W.shape[1], conditioning=cond))
    except AssertionError:
        return None, None
    finally:
        m.random_state = None
    if src.used != 1:
        return None, None
    parts = X.reshape(2 * d + 1, n, -1)
    J = np.stack([(parts[1 + 2 * i] - parts[2 + 2 * i])[:, free] / (2 * h) for i in range(d)], axis=2)
    return np.linalg.slogdet(J)[1], parts[0]


@law(vines(), quick=110, thorough=1000, rule="the vine has dependent pairs and the draws could be replayed")
def sampler_matches_density(c):
    m, x = fitted(c)
    g = gen.rng_of(c["seed"] + 3)
    w = g.uniform(0.06, 0.94, size=(c["k"], 6))
    lj, y = log_jacobian(m, w, None, np.arange(c["k"]))
    if lj is None:
        note("draws not replayable")
        return False
    s = quiet(lambda: m.score_samples(wrap(c, y)))
    inner = np.all((to_uniform(m, y) > 1e-4) & (to_uniform(m, y) < 1 - 1e-4), axis=1)
    close((s + lj)[inner], 0 * s[inner], "the samples do not have the reported density", rtol=0, atol=0.02, case=c, lj=lj, s=s)
    dep = any(cop.n_params for e in edges_of(m) for _, _, cop in e)
    note("rotated pair" if asym(m) else "symmetric pairs", "truncated" if c["depth"] and c["depth"] < c["k"] - 1 else "complete")
    return dep and inner.any()


@st.composite
def cond_cases(draw):
    k = draw(st.integers(3, 6))
    cen = draw(gen.subset(range(k), p=0.35))[: k - 1] or [draw(st.integers(0, k - 1))]
    c = draw(vines(central=cen))
    c["k"] = k
    c["part"] = draw(st.booleans())
    return c


@law(cond_cases(), quick=90, thorough=800, rule="the vine has dependent pairs and the draws could be replayed")
def conditional_sampler(c):
    c = dict(c, central=[i for i in c["central"] if i < c["k"]])
    m, x = fitted(c)
    k = c["k"]
    g = gen.rng_of(c["seed"] + 4)
    on = list(c["central"])
    if c["part"] and len(on) > 1 and (c["depth"] or 9) >= k - 1:
        on = [on[int(g.integers(len(on)))]]
    n = 5
    row = x[int(g.integers(len(x)))]
    cond = {(f"A{i}" if c["names"] else i): np.full(n, row[i]) for i in g.permutation(on).tolist()}
    free = np.array([i for i in range(k) if i not in on])
    lj, y = log_jacobian(m, g.uniform(0.06, 0.94, size=(len(free), n)), cond, free)
    if lj is None:
        note("draws not replayable")
        return False
    check(np.array_equal(y[:, on], np.tile(row[on], (n, 1))), "conditioning values changed", case=c)
    s = quiet(lambda: m.score_samples(wrap(c, y)))
    inner = np.all((to_uniform(m, y) > 1e-4) & (to_uniform(m, y) < 1 - 1e-4), axis=1)
    tot = (s + lj)[inner]
    if len(tot) < 2:
        return False
    close(tot, np.full(len(tot), np.median(tot)), "the samples do not have the conditional density", rtol=0, atol=0.03, case=c, on=on, tot=s + lj)
    if len(on) == 1 and c["depth"] is None:
        # density of one conditioned asset is its marginal
        want = quiet(lambda: m.marginal_distributions_[on[0]].score_samples(row[[on[0]]][:, None]))[0] if c["marg"] else 0.0
        close(tot, np.full(len(tot), want), "conditional density times marginal is not the joint density", rtol=0, atol=0.05, case=c, on=on)
        note("marginal")
    note(f"{len(on)} conditioned", "rotated pair" if asym(m) else "symmetric pairs")
    return any(cop.n_params for e in edges_of(m) for _, _, cop in e)


def ks(u):
    u = np.sort(u)
    n = len(u)
    return max(np.max(np.arange(1, n + 1) / n - u), np.max(u - np.arange(n) / n)) * np.sqrt(n)


@law(st.tuples(vines(max_k=5), gen.choice(["value", "array", "bounds", "lower", "upper", "none"]), st.booleans()), quick=60, thorough=500, rule="conditioning was requested or the vine is dependent")
def requested_values(case):
    c, kind, logt = case
    s = c["seed"] % 100003
    kw = {"random_state": s}
    if logt:
        kw["log_transform"] = True
        c = dict(c, marg=True)
    m, x = fitted(c, **kw)
    k, n = c["k"], 300
    g = gen.rng_of(c["seed"] + 5)
    i = int(g.integers(k))
    key = f"A{i}" if c["names"] and g.random() < 0.7 else i
    if c["names"]:
        key = f"A{i}"
    q = np.sort(g.uniform(0.1, 0.9, 2))
    lo, hi = np.quantile(x[:, i], q)
    cond = {
        "none": None,
        "value": {key: float(lo)},
        "array": {key: np.quantile(x[:, i], g.random(n))},
        "bounds": {key: (float(lo), float(hi))},
        "lower": {key: (float(lo), None)},
        "upper": {key: (None, float(hi))},
    }[kind]
    if lo >= hi:
        return False
    y = quiet(lambda: m.sample(n_samples=n, conditioning=cond))
    check(y.shape == (n, k) and np.isfinite(y).all(), "samples", shape=y.shape)
    col = y[:, i]
    if kind == "value":
        check(np.all(col == lo), "conditioning value not honoured", case=c)
    elif kind == "array":
        check(np.array_equal(col, cond[key]), "conditioning values not honoured", case=c)
    elif kind != "none":
        a = lo if kind != "upper" else -np.inf
        b = hi if kind != "lower" else np.inf
        check(np.all((col >= a) & (col <= b)), "conditioning bounds not honoured", case=c)
        F = (lambda v: m.marginal_distributions_[i].cdf(np.log1p(v) if logt else v)) if c["marg"] else (lambda v: v)
        fa, fb = (0.0 if np.isinf(a) else float(F(a))), (1.0 if np.isinf(b) else float(F(b)))
        check(ks((F(col) - fa) / (fb - fa)) < 3.0, "values between the bounds do not follow the marginal", case=c)
    # the others vary and follow their margins when nothing is conditioned
    if kind == "none":
        U = to_uniform(m, np.log1p(y) if logt else y)
        for j in range(k):
            check(ks(U[:, j]) < 3.0, "margin of the samples", j=j, case=c, ks=ks(U[:, j]))
        for (a, b), _, cop in edges_of(m)[0]:
            want = sst.kendalltau(*(lambda z: z)(quiet(lambda cop=cop: clone_sample(cop))).T).statistic
            got = sst.kendalltau(U[:, a], U[:, b]).statistic
            check(abs(got - want) < 5.6 * np.sqrt(1 / n + 1 / 2000), "dependence of a first-tree pair", pair=(a, b), got=got, want=want, case=c)
    # reproducible, whatever happened in between
    quiet(lambda: m.score_samples(wrap(c, x[:5])))
    quiet(lambda: m.sample(n_samples=3))
    again = quiet(lambda: m.sample(n_samples=n, conditioning=cond))
    check(np.array_equal(y, again), "samples depend on earlier calls", case=c)
    m2, _ = fitted(c, **kw)
    check(np.array_equal(y, quiet(lambda: m2.sample(n_samples=n, conditioning=cond))), "samples of an equal model differ", case=c)
    m3, _ = fitted(c, **{**kw, "random_state": s + 1})
    other = quiet(lambda: m3.sample(n_samples=n, conditioning=cond))
    check(not np.array_equal(y, other), "random state ignored")
    note(kind, "log" if logt else "plain")
    return True


def clone_sample(cop):
    import copy

    z = copy.copy(cop)
    z.random_state = 5
    return z.sample(n_samples=2000)


@law(vines(max_k=5), quick=30, thorough=250, rule="the log transform applies to some assets")
def log_transform(c):
    c = dict(c, marg=True)
    x = dataset(c)
    g = gen.rng_of(c["seed"] + 6)
    x = np.clip(x * (20 if c["bic"] else 1), -0.9, 5)
    mask = g.random(c["k"]) < 0.6
    cols = gen.names(c["k"])
    if c["names"]:
        spec = {n: bool(b) for n, b in zip(cols, mask, strict=True) if b or g.random() < 0.5}
    else:
        spec = mask
    if mask.all() and g.random() < 0.5:
        spec = True
    X = wrap(c, x)
    z = np.where(mask, np.log1p(x), x)
    a = quiet(lambda: model(c, random_state=3, log_transform=spec).fit(X))
    b = quiet(lambda: model(c, random_state=3).fit(wrap(c, z)))
    close(quiet(lambda: a.score_samples(X)), quiet(lambda: b.score_samples(wrap(c, z))), "density of the transformed data", rtol=1e-9, atol=1e-9, case=c)
    s = quiet(lambda: b.sample(n_samples=60))
    t = np.log(3)
    want = np.where(mask, np.where(s <= t, np.expm1(s), np.expm1(t) + s - t), s)
    close(quiet(lambda: a.sample(n_samples=60)), want, "samples of the log-transformed model", rtol=1e-9, atol=1e-12, case=c)
    i = int(g.integers(c["k"]))
    key = cols[i] if c["names"] else i
    lo, hi = (float(v) for v in np.quantile(x[:, i], [0.3, 0.8]))
    to = (lambda v: float(np.log1p(v))) if mask[i] else float
    kinds = {
        "value": (lo, to(lo)),
        "array": (np.quantile(x[:, i], np.linspace(0.05, 0.95, 40)), None),
        "bounds": ((lo, hi), (to(lo), to(hi))),
        "lower": ((lo, None), (to(lo), None)),
        "upper": ((-np.inf, hi), (-np.inf, to(hi))),
    }
    kinds["array"] = (kinds["array"][0], np.array([to(v) for v in kinds["array"][0]]))
    for kind, (p, q) in kinds.items():
        if isinstance(p, tuple) and lo >= hi:
            continue
        s = quiet(lambda q=q: b.sample(n_samples=40, conditioning={key: q}))
        want = np.where(mask, np.where(s <= t, np.expm1(s), np.expm1(t) + s - t), s)
        got = quiet(lambda p=p: a.sample(n_samples=40, conditioning={key: p}))
        free = [j for j in range(c["k"]) if j != i]
        close(got[:, free], want[:, free], f"conditional samples of the log-transformed model ({kind})", rtol=1e-7, atol=1e-9, case=c)
        if kind in ("value", "array"):
            close(got[:, i], np.full(40, lo) if kind == "value" else p, f"requested values ({kind})", rtol=1e-12, atol=1e-15, case=c)
        else:
            close(got[:, i], want[:, i], f"values within the bounds ({kind})", rtol=1e-7, atol=1e-9, case=c)
    return bool(mask.any())


@law(st.tuples(vines(max_k=4), gen.choice(["two assets", "depth", "range", "all", "tuple", "order", "length", "name", "not dict", "text", "method"])), quick=44, thorough=150, rule="every malformed request")
def refusals(case):
    c, bad = case
    c = dict(c, marg=False, names=True, cops=["gaussian"])
    x = dataset(c)
    X = wrap(c, x)
    if bad == "two assets":
        must_raise(lambda: quiet(lambda: model(dict(c, central=[])).fit(X.iloc[:, :2])), ValueError, "two assets accepted")
        return True
    if bad == "depth":
        must_raise(lambda: quiet(lambda: model(dict(c, depth=1)).fit(X)), ValueError, "depth 1 accepted")
        return True
    if bad == "range":
        must_raise(lambda: quiet(lambda: model(c).fit(X + 0.5)), ValueError, "values above 1 accepted without marginals")
        return True
    if bad == "method":
        m = model(c)
        m.dependence_method = DependenceMethod.WASSERSTEIN_DISTANCE
        quiet(lambda: m.fit(X))
        return True
    m = quiet(lambda: model(c).fit(X))
    n = 4
    req = {
        "all": {f"A{i}": 0.5 for i in range(c["k"])},
        "tuple": {"A0": (0.1, 0.2, 0.3)},
        "order": {"A0": (0.5, 0.5)} if c["bic"] else {"A0": (0.7, 0.2)},
        "length": {"A0": np.array([0.2, 0.3, 0.4])},
        "name": {"ZZ": 0.5},
        "not dict": [("A0", 0.5)],
        "text": {"A0": "high"},
    }[bad]
    must_raise(lambda: quiet(lambda: m.sample(n_samples=n, conditioning=req)), ValueError, f"malformed conditioning accepted ({bad})")
    if c["central"] != [0]:
        with warnings.catch_warnings(record=True) as rec:
            warnings.simplefilter("always")
            m.sample(n_samples=2, conditioning={"A0": 0.4})
        check(any("central" in str(r.message) for r in rec) == (0 not in c["central"]), "warning about conditioning assets that are not central", central=c["central"])
    return True
