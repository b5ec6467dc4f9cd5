"""C33 Pre-selection keeps exactly the assets its rule keeps."""

import datetime as dt
import warnings

import numpy as np
import pandas as pd
from hypothesis import strategies as st

from harness import gen
from harness.core import check, law, must_raise, note

ASSUMPTIONS = [
    "correlations, variances and fitness values are not compared where two of them, or one and the threshold, differ by less than 1e-9 (except exact ties by construction, where any consistent choice is accepted)",
    "the average correlation of an asset is taken over all assets; assets without variance are excluded from correlation pruning",
    "an asset whose variance equals the threshold may be kept or dropped, except that a constant asset is always dropped",
]


def table(x, names=None, hour=0):
    index = pd.date_range("2021-01-04", periods=len(x), freq="B") + pd.Timedelta(hours=hour)
    return pd.DataFrame(x, columns=names or gen.names(x.shape[1]), index=index)


def quiet(f):
    with warnings.catch_warnings():
        warnings.simplefilter("ignore")
        return f()


def apply(est, x, case, other=None):
    """Fit, compare every way of reading the selection, return the mask."""
    g = gen.rng_of(case["seed"])
    names = [f"N{i}" for i in g.permutation(50)[: x.shape[1]]]
    X = table(x, names, case.get("hour", 0))
    keep = X.copy()
    m = quiet(lambda: est.fit(X))
    mask = np.asarray(m.to_keep_)
    check(X.equals(keep), "the data was modified")
    check(mask.shape == (x.shape[1],) and mask.dtype == bool, "selection mask", mask=mask)
    check(np.array_equal(m.get_support(), mask) and list(m.get_support(indices=True)) == list(np.flatnonzero(mask)), "get_support")
    check(list(m.get_feature_names_out()) == [n for n, k in zip(names, mask, strict=True) if k], "names of the kept assets")
    out = quiet(lambda: m.transform(X))
    check(np.array_equal(np.asarray(out), x[:, mask], equal_nan=True), "kept columns changed")
    z = g.normal(size=(7, x.shape[1])) if other is None else other
    Z = table(z, names)
    out = quiet(lambda: m.transform(Z))
    check(np.array_equal(np.asarray(out), z[:, mask], equal_nan=True), "transforming other data selects other columns")
    out = quiet(lambda: m.set_output(transform="pandas").transform(Z))
    check(out.equals(Z.loc[:, mask]), "frame output loses names, dates or order")
    if case["arr"] and not isinstance(X.index, str) and type(est).__name__ != "SelectNonExpiring":
        from sklearn.base import clone

        check(np.array_equal(quiet(lambda: clone(est).fit(x)).to_keep_, mask), "arrays and frames differ")
    return mask


# ---------------------------------------------------------------- correlation
@st.composite
def corr_cases(draw):
    return {
        "m": draw(gen.mat(6, 40, 1, 8, kinds=gen.SMOOTH)),
        "mix": draw(gen.choice([0.0, 0.3, 1.0, 3.0])),
        "flip": draw(st.booleans()),
        "dup": draw(gen.choice([0, 0, 1])),
        "threshold": draw(gen.choice([0.95, 0.9, 0.7, 0.5, 0.2, 0.0, -0.3, 1.0, -1.0])),
        "absolute": draw(st.booleans()),
        "arr": draw(st.booleans()),
        "seed": draw(gen.seeds),
    }


@law(corr_cases(), quick=700, thorough=10000, rule="at least one pair is above the threshold")
def correlated(case):
    from skfolio.pre_selection import DropCorrelated

    g = gen.rng_of(case["seed"])
    x = gen.build(case["m"])
    n, k = x.shape
    s = x.std(axis=0)
    if s.min() < 1e-9 or np.abs(x).max() / s.min() > 1e5:
        return False
    x = x / s + case["mix"] * g.normal(size=(n, 1))
    if case["flip"]:
        x = x * g.choice([-1.0, 1.0], k)
    if case["dup"] and k > 1:
        x[:, -1] = x[:, 0]
    mask = apply(DropCorrelated(threshold=case["threshold"], absolute=case["absolute"]), x, case)
    d = x - x.mean(axis=0)
    sd = np.sqrt((d**2).sum(axis=0))
    c = d.T @ d / np.outer(sd, sd)
    c = np.abs(c) if case["absolute"] else c
    off = c - 3 * np.eye(k)
    t = case["threshold"]
    kept = np.flatnonzero(mask)
    check(len(kept) > 0, "every asset was dropped")
    for i in kept:
        for j in kept:
            check(i == j or c[i, j] <= t + 1e-9, "a pair above the threshold was kept", corr=c[i, j])
    for i in np.flatnonzero(~mask):
        check((off[i] > t - 1e-9).any(), "an asset without a pair above the threshold was dropped", asset=i)
    pairs = sorted(((c[i, j], i, j) for i in range(k) for j in range(i + 1, k) if c[i, j] > t), reverse=True)
    vals = np.array([p[0] for p in pairs] + [t])
    allv = c[np.triu_indices(k, 1)]
    mean = c.sum(axis=0) / k
    clear = np.all(np.abs(allv - t) > 1e-9) and (len(pairs) < 2 or np.min(-np.diff([p[0] for p in pairs])) > 1e-10)
    if k > 1 and np.min(np.diff(np.sort(mean))) < 1e-10:
        clear = False
    if clear:
        gone = set()
        for _, i, j in pairs:
            if i not in gone and j not in gone:
                gone.add(i if mean[i] > mean[j] else j)
        check(set(np.flatnonzero(~mask)) == gone, "the pruning rule was not followed", got=np.flatnonzero(~mask), want=sorted(gone), case=case)
        note("rule compared")
    return bool(len(vals) > 1)


# ---------------------------------------------------------------- k extremes
MEAS = ["MEAN", "SHARPE_RATIO", "VARIANCE", "CVAR", "SORTINO_RATIO", "MAX_DRAWDOWN", "KURTOSIS", "VALUE_AT_RISK", "ANNUALIZED_MEAN", "CALMAR_RATIO", "WORST_REALIZATION"]


def member(name):
    from skfolio import measures as me

    for e in (me.PerfMeasure, me.RiskMeasure, me.ExtraRiskMeasure, me.RatioMeasure):
        if name in e.__members__:
            return e[name]
    raise KeyError(name)


def single(x, name):
    """Measure of every asset alone."""
    from skfolio import Portfolio

    e = member(name)
    if name == "MEAN":
        return x.mean(axis=0)
    if name == "VARIANCE":
        return x.var(axis=0, ddof=1)
    if name == "SHARPE_RATIO":
        return x.mean(axis=0) / x.std(axis=0, ddof=1)
    if name == "WORST_REALIZATION":
        return -x.min(axis=0)
    return np.array([getattr(Portfolio(X=x[:, [i]], weights=[1.0]), e.value) for i in range(x.shape[1])])


@st.composite
def k_cases(draw):
    return {
        "m": draw(gen.mat(6, 30, 1, 8, kinds=gen.SMOOTH)),
        "k": draw(gen.choice([1, 2, 3, 4, 6, 10, 50])),
        "measure": draw(gen.choice(MEAS)),
        "highest": draw(st.booleans()),
        "dup": draw(gen.choice([0, 0, 1, 2])),
        "arr": draw(st.booleans()),
        "seed": draw(gen.seeds),
    }


@law(k_cases(), quick=500, thorough=8000, rule="some but not all assets are kept")
def extremes(case):
    from skfolio.pre_selection import SelectKExtremes

    x = gen.build(case["m"])
    n, k = x.shape
    if x.std(axis=0).min() < 1e-7:
        return False
    for i in range(min(case["dup"], k - 1)):
        x[:, i] = x[:, k - 1]
    v = single(x, case["measure"])
    if not np.all(np.isfinite(v)):
        return False
    mask = apply(SelectKExtremes(k=case["k"], measure=member(case["measure"]), highest=case["highest"]), x, case)
    check(mask.sum() == min(case["k"], k), "number of kept assets", got=int(mask.sum()))
    if mask.all():
        return False
    s = v if case["highest"] else -v
    tol = 1e-9 * max(1e-9, np.abs(v).max())
    check(s[mask].min() >= s[~mask].max() - tol, "a better asset was dropped", values=v, mask=mask, case=case)
    note(case["measure"], "highest" if case["highest"] else "lowest")
    return True


# ---------------------------------------------------------------- non dominated
@st.composite
def nd_cases(draw):
    return {
        "m": draw(gen.mat(8, 40, 2, 9, kinds=gen.SMOOTH)),
        "min": draw(gen.choice([None, None, 1, 2, 3, 4, 5, 8, 20])),
        "threshold": draw(gen.choice([-0.5, -0.2, 0.0, 0.2, -1.0, 1.0])),
        "fit": draw(gen.choice([None, None, ["MEAN", "CVAR"], ["SHARPE_RATIO"], ["MEAN", "VARIANCE", "MAX_DRAWDOWN"]])),
        "arr": draw(st.booleans()),
        "seed": draw(gen.seeds),
    }


@law(nd_cases(), quick=500, thorough=8000, rule="some but not all assets are kept")
def non_dominated(case):
    from skfolio import measures as me
    from skfolio.pre_selection import SelectNonDominated

    x = gen.build(case["m"])
    n, k = x.shape
    if x.std(axis=0).min() < 1e-7 or np.abs(x).max() / x.std(axis=0).min() > 1e5:
        return False
    fit = case["fit"]
    mask = apply(SelectNonDominated(min_n_assets=case["min"], threshold=case["threshold"], fitness_measures=None if fit is None else [member(f) for f in fit]), x, case)
    if case["min"] is not None and case["min"] >= k:
        check(mask.all(), "assets dropped although all are asked for")
        return False
    c = np.cov(x.T)
    r = c / np.sqrt(np.outer(np.diag(c), np.diag(c)))
    W = [np.eye(k)[i] for i in range(k)]
    for i in range(k):
        for j in range(i + 1, k):
            if abs(r[i, j] - case["threshold"]) < 1e-9 or r[i, j] > 1 - 1e-6:
                return False
            if r[i, j] < case["threshold"]:
                # least variance combination of the two
                a = (c[j, j] - c[i, j]) / (c[i, i] + c[j, j] - 2 * c[i, j])
                if min(abs(a), abs(1 - a)) < 1e-3:
                    return False
                w = np.zeros(k)
                w[i], w[j] = a, 1 - a
                W.append(w)
    R = x @ np.array(W).T
    F = []
    for f in fit or ["MEAN", "VARIANCE"]:
        v = single(R, f)
        F.append(-v if isinstance(member(f), me.RiskMeasure) else v)
    F = np.array(F).T
    if not np.all(np.isfinite(F)):
        return False
    for col in F.T:
        srt = np.sort(col)
        if np.min(np.diff(srt)) < 1e-10 * max(np.abs(srt).max(), 1e-12):
            return False
    left, chosen, fronts = list(range(len(W))), set(), 0
    while left:
        front = [p for p in left if not any(np.all(F[q] >= F[p]) and np.any(F[q] > F[p]) for q in left if q != p)]
        for p in front:
            chosen |= set(np.flatnonzero(W[p]))
        fronts += 1
        left = [p for p in left if p not in front]
        if case["min"] is None or len(chosen) >= case["min"]:
            break
    check(set(np.flatnonzero(mask)) == chosen, "non-dominated selection", got=np.flatnonzero(mask), want=sorted(chosen), fronts=fronts, case=case)
    note(f"fronts {min(fronts, 4)}", "pairs" if len(W) > k else "singles")
    if case["min"] is not None and len(chosen) == case["min"]:
        note("minimum met exactly")
    return not mask.all()


# ---------------------------------------------------------------- missing values, variance, expiry
@st.composite
def gap_cases(draw):
    return {
        "n": draw(st.integers(2, 12)),
        "k": draw(st.integers(1, 8)),
        "gaps": draw(st.lists(gen.choice(["none", "lead", "trail", "inside", "all", "both", "first", "last"]), min_size=8, max_size=8)),
        "internal": draw(st.booleans()),
        "threshold": draw(gen.choice([1e-8, 0.0, 1e-4, 1e-6])),
        "arr": draw(st.booleans()),
        "seed": draw(gen.seeds),
    }


@law(gap_cases(), quick=500, thorough=6000, rule="an asset has a gap")
def complete(case):
    from skfolio.pre_selection import SelectComplete

    g = gen.rng_of(case["seed"])
    n, k = case["n"], case["k"]
    x = g.normal(size=(n, k))
    for j in range(k):
        kind = case["gaps"][j]
        a = int(g.integers(1, n))
        if kind in ("lead", "both"):
            x[: int(g.integers(1, max(2, n // 2))), j] = np.nan
        if kind in ("trail", "both"):
            x[n - int(g.integers(1, max(2, n // 2))) :, j] = np.nan
        if kind == "inside" and n > 2:
            x[1 : 1 + int(g.integers(1, n - 1)), j] = np.nan
        if kind == "all":
            x[:, j] = np.nan
        if kind == "first":
            x[0, j] = np.nan
        if kind == "last":
            x[-1, j] = np.nan
    other = x[::-1].copy()
    mask = apply(SelectComplete(drop_assets_with_internal_nan=case["internal"]), x, case, other=other)
    for j in range(k):
        col = x[:, j]
        seen = [i for i in range(n) if col[i] == col[i]]
        edge = not seen or seen[0] > 0 or seen[-1] < n - 1
        inside = bool(seen) and len(seen) < seen[-1] - seen[0] + 1
        want = not edge and not (inside and case["internal"])
        check(mask[j] == want, "completeness rule", column=col, got=mask[j], want=want)
    return bool(np.isnan(x).any())


@law(gap_cases(), quick=300, thorough=4000, rule="some but not all assets are kept")
def variance(case):
    from skfolio.pre_selection import DropZeroVariance

    g = gen.rng_of(case["seed"])
    n, k = case["n"] + 1, case["k"]
    x = g.normal(size=(n, k)) * 10.0 ** g.integers(-7, 0, k)
    for j in range(k):
        if case["gaps"][j] in ("all", "lead"):
            x[:, j] = 0.25 * j
    mask = apply(DropZeroVariance(threshold=case["threshold"]), x, case)
    for j in range(k):
        v = sum((t - x[:, j].sum() / n) ** 2 for t in x[:, j]) / n
        if abs(v - case["threshold"]) > 1e-6 * v:
            check(mask[j] == (v > case["threshold"]), "variance rule", var=v, threshold=case["threshold"])
        if np.ptp(x[:, j]) == 0:
            check(not mask[j], "a constant asset was kept")
    return 0 < mask.sum() < k


@law(
    st.fixed_dictionaries({"n": st.integers(2, 20), "k": st.integers(1, 7), "look": gen.choice(["days", "bmonth", "zero", "timedelta", "month"]), "seed": gen.seeds, "nan": st.booleans(), "arr": st.just(False), "hour": gen.choice([0, 9, 17])}),
    quick=300,
    thorough=4000,
    rule="an asset is dropped",
)
def expiring(case):
    from skfolio.pre_selection import SelectNonExpiring

    g = gen.rng_of(case["seed"])
    n, k = case["n"], case["k"]
    x = g.normal(size=(n, k))
    if case["nan"]:
        x[0, 0] = np.nan
    look = {
        "days": pd.DateOffset(days=int(g.integers(0, 40))),
        "zero": dt.timedelta(0),
        "timedelta": dt.timedelta(days=int(g.integers(0, 30)), hours=12),
        "bmonth": pd.offsets.BMonthEnd(1),
        "month": pd.DateOffset(months=1),
    }[case["look"]]
    X0 = table(x, hour=case["hour"])
    end = X0.index[-1]
    cut = end + look
    names = [f"N{i}" for i in gen.rng_of(case["seed"]).permutation(50)[:k]]
    dates = {}
    want = []
    for nm in names:
        r = int(g.integers(8))
        if r == 0:
            want.append(True)
            continue
        d = [None, cut, cut + pd.Timedelta(days=1), cut - pd.Timedelta(days=1), end + pd.Timedelta(days=int(g.integers(-5, 60))), cut + pd.Timedelta(seconds=1), cut + pd.Timedelta(hours=6), cut - pd.Timedelta(hours=6)][r]
        want.append(bool(d > cut))
        dates[nm] = d if g.integers(2) else d.to_pydatetime()
    dates["unrelated"] = end
    mask = apply(SelectNonExpiring(expiration_dates=dates, expiration_lookahead=look), x, case)
    check(list(mask) == want, "expiry rule", got=mask, want=want, dates=dates, cut=cut)
    return not mask.all()


@law(st.fixed_dictionaries({"bad": gen.choice(["threshold", "nd threshold", "k", "variance", "array", "no dates", "no lookahead", "index", "unfitted", "width"]), "seed": gen.seeds}), quick=80, thorough=400, rule="always")
def refusals(case):
    from sklearn.exceptions import NotFittedError

    from skfolio import pre_selection as ps

    g = gen.rng_of(case["seed"])
    x = g.normal(size=(10, 4))
    X = table(x)
    day = pd.DateOffset(days=1)
    acts = {
        "threshold": lambda: ps.DropCorrelated(threshold=1.2).fit(X),
        "nd threshold": lambda: ps.SelectNonDominated(threshold=-1.2).fit(X),
        "k": lambda: ps.SelectKExtremes(k=0).fit(X),
        "variance": lambda: ps.DropZeroVariance(threshold=-1e-3).fit(X),
        "array": lambda: ps.SelectNonExpiring(expiration_dates={}, expiration_lookahead=day).fit(x),
        "no dates": lambda: ps.SelectNonExpiring(expiration_lookahead=day).fit(X),
        "no lookahead": lambda: ps.SelectNonExpiring(expiration_dates={"A0": X.index[-1]}).fit(X),
        "index": lambda: ps.SelectNonExpiring(expiration_dates={}, expiration_lookahead=day).fit(X.reset_index(drop=True)),
        "unfitted": lambda: ps.DropCorrelated().transform(X),
        "width": lambda: ps.SelectComplete().fit(X).transform(x[:, :3]),
    }
    must_raise(lambda: quiet(acts[case["bad"]]), (ValueError, NotFittedError), f"{case['bad']} is accepted")


LAWS = [correlated, extremes, non_dominated, complete, variance, expiring, refusals]
