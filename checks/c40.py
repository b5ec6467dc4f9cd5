"""C40 Charts show the numbers they describe."""

import warnings

import numpy as np
import pandas as pd
import scipy.interpolate as sci
import scipy.stats as sst
from hypothesis import strategies as st
from skfolio import MultiPeriodPortfolio, PerfMeasure, Population, Portfolio, RatioMeasure, RiskMeasure
from skfolio.cluster import HierarchicalClustering
from skfolio.distance import PearsonDistance
from skfolio.distribution import (
    ClaytonCopula,
    Gaussian,
    GaussianCopula,
    GumbelCopula,
    JohnsonSU,
    StudentT,
    VineCopula,
    compute_pseudo_observations,
    empirical_tail_concentration,
    plot_tail_concentration,
)
from skfolio.model_selection import CombinatorialPurgedCV

from harness import gen, pf
from harness.core import check, close, law, must_raise, note

ASSUMPTIONS = [
    "the data held by the figure is judged (points, labels, tables, shapes), not the rendering; titles, colours and formats are judged only where they carry data (front, tag, colour scale, logarithmic axis)",
    "the tables charts are drawn from (rolling measures, compositions, contributions) are those of the portfolio, judged by the other properties",
    "density curves are Gaussian kernel densities of the plotted data with the default bandwidth",
    "series with constant values are left out of density curves, where a kernel density does not exist",
]

MEAS = [RiskMeasure.CVAR, RiskMeasure.STANDARD_DEVIATION, RiskMeasure.MAX_DRAWDOWN, PerfMeasure.MEAN, RatioMeasure.SHARPE_RATIO, RatioMeasure.CALMAR_RATIO, RiskMeasure.SEMI_DEVIATION, RatioMeasure.ANNUALIZED_SHARPE_RATIO]


def quiet(f):
    with warnings.catch_warnings(), np.errstate(all="ignore"):
        warnings.simplefilter("ignore")
        return f()


def arr(v):
    return np.asarray(v, dtype=float)


def lines(fig, kind="scatter"):
    return [t for t in fig.data if t.type.startswith(kind)]


def shown(t):
    """Points of a trace without the missing ones."""
    x, y = list(t.x), arr(t.y)
    keep = ~np.isnan(y)
    return [pd.Timestamp(a) if isinstance(a, (pd.Timestamp, np.datetime64)) or hasattr(a, "year") else a for a, k in zip(x, keep, strict=True) if k], y[keep]


def same_curve(t, s, msg, **kw):
    s = s.dropna()
    x, y = shown(t)
    check(list(x) == list(s.index), msg + ": observations", got=x[:6], want=list(s.index)[:6], **kw)
    close(y, s.to_numpy(), msg, rtol=1e-9, atol=1e-12, **kw)


def bars(fig, df, msg, **kw):
    """Bars of a table with assets in rows and portfolios in columns."""
    t = lines(fig, "bar")
    got = {}
    for b in t:
        check(b.name not in got, msg + ": asset drawn twice", name=b.name)
        got[b.name] = b
    check(set(got) == {str(a) for a in df.index}, msg + ": assets", got=sorted(got), want=sorted(map(str, df.index)), **kw)
    for a in df.index:
        b = got[str(a)]
        check([str(v) for v in b.x] == [str(c) for c in df.columns], msg + ": portfolios", got=list(b.x), want=list(df.columns), **kw)
        close(arr(b.y), df.loc[a].to_numpy(float), msg, rtol=1e-9, atol=1e-12, asset=a, **kw)


def density(t, data, msg):
    x = arr(t.x)
    check(x.min() >= data.min() - 1e-12 and x.max() <= data.max() + 1e-12 and np.all(np.diff(x) > 0), msg + ": range", lo=x.min(), hi=x.max())
    check(x.max() - x.min() >= 0.9 * (np.quantile(data, 0.99) - np.quantile(data, 0.01)), msg + ": range too short")
    close(arr(t.y), sst.gaussian_kde(data)(x), msg, rtol=1e-8, atol=1e-10)


@st.composite
def indices(draw):
    kind = draw(gen.choice([None, None, "slice", "array", "tail", "one"]))
    return {"kind": kind, "a": draw(st.integers(0, 8)), "b": draw(st.integers(1, 10)), "seed": draw(gen.seeds)}


def index_of(i, n):
    if i["kind"] is None:
        return None
    if i["kind"] == "slice":
        return slice(min(i["a"], n - 1), min(i["a"] + i["b"], n))
    if i["kind"] == "tail":
        return slice(-min(i["b"], n), None)
    if i["kind"] == "one":
        return np.array([min(i["a"], n - 1)])
    g = gen.rng_of(i["seed"])
    return np.sort(g.choice(n, size=min(i["b"], n), replace=False))


def cumulated(r, compounded):
    return 1000 * np.cumprod(1 + r) if compounded else np.cumsum(r)


# ---------------------------------------------------------------- one portfolio
@st.composite
def single(draw):
    k = draw(st.integers(2, 5))
    return {
        "k": k,
        "n": draw(gen.choice([12, 25, 60])),
        "w": [draw(pf.weights(k)), draw(pf.weights(k))],
        "multi": draw(st.booleans()),
        "compounded": draw(st.booleans()),
        "log": draw(st.booleans()),
        "measure": draw(st.integers(0, len(MEAS) - 1)),
        "window": draw(st.integers(3, 8)),
        "idx": draw(indices()),
        "seed": draw(gen.seeds),
    }


def returns(c):
    g = gen.rng_of(c["seed"])
    x = g.normal(0.0005, 0.01, (c["n"], c["k"])) + g.normal(0, 0.005, (c["n"], 1))
    return pd.DataFrame(x, columns=gen.names(c["k"]), index=pd.bdate_range("2021-01-04", periods=c["n"]))


def held(w):
    w = np.array(w, float)
    if not w.any():
        w[0] = 1.0
    return w


def portfolio_of(c):
    X = returns(c)
    if not c["multi"]:
        w = held(c["w"][0])
        return Portfolio(X=X, weights=w, compounded=c["compounded"], name="alpha"), pd.Series(X.to_numpy() @ w, X.index)
    cut = c["n"] // 2
    ws = [held(w) for w in c["w"]]
    parts = [Portfolio(X=q, weights=w, name=f"part{i}") for i, (q, w) in enumerate(zip((X.iloc[:cut], X.iloc[cut:]), ws, strict=True))]
    r = np.concatenate([X.to_numpy()[:cut] @ ws[0], X.to_numpy()[cut:] @ ws[1]])
    return MultiPeriodPortfolio(portfolios=parts, compounded=c["compounded"], name="alpha"), pd.Series(r, X.index)


@law(single(), quick=220, thorough=1500, rule="the portfolio holds several assets, or part of the observations is asked for")
def portfolio_charts(c):
    p, r = portfolio_of(c)
    m = MEAS[c["measure"]]
    idx = index_of(c["idx"], c["n"])
    sl = slice(None) if idx is None else idx
    kw = {} if idx is None else {"idx": idx}
    fig = quiet(lambda: p.plot_returns(**kw))
    check(len(fig.data) == 1, "one curve of returns")
    same_curve(fig.data[0], r.iloc[sl], "returns", case=c)
    cum = pd.Series(cumulated(r.to_numpy(), c["compounded"]), r.index)
    if c["log"] and not c["compounded"]:
        must_raise(lambda: p.plot_cumulative_returns(log_scale=True, **kw), ValueError, "logarithmic scale for sums of returns")
    else:
        fig = quiet(lambda: p.plot_cumulative_returns(log_scale=c["log"], **kw))
        check(len(fig.data) == 1, "one cumulative curve")
        same_curve(fig.data[0], cum.iloc[sl], "cumulative returns", case=c)
        check((fig.layout.yaxis.type == "log") == c["log"], "axis of the cumulative returns")
    roll = quiet(lambda: p.rolling_measure(measure=m, window=c["window"]))
    fig = quiet(lambda: p.plot_rolling_measure(measure=m, window=c["window"]))
    same_curve(fig.data[0], roll, "rolling measure", case=c)
    level = [s for s in fig.layout.shapes if s.type == "line"]
    check(len(level) == 1 and level[0].y0 == level[0].y1, "line at the measure of the whole period")
    close(level[0].y0, getattr(p, m.value), "level of the whole period", rtol=1e-9, atol=1e-12)
    note(type(p).__name__, m.value)
    comp = p.composition
    bars(quiet(p.plot_composition), comp, "composition", case=c)
    step = {} if c["window"] < 6 else {"spacing": 0.05}
    bars(quiet(lambda: p.plot_contribution(measure=m, **step)), quiet(lambda: p.contribution(measure=m, to_df=True, **step)), "contribution", case=c)
    fig = quiet(p.plot_returns_distribution)
    density(fig.data[0], r.to_numpy(), "distribution of the returns")
    return np.count_nonzero(c["w"][0]) > 1 or idx is not None


# ---------------------------------------------------------------- populations
@st.composite
def populations(draw):
    k = draw(st.integers(2, 4))
    return {
        "k": k,
        "n": draw(gen.choice([12, 25, 40])),
        "members": draw(
            st.lists(
                st.fixed_dictionaries(
                    {
                        "w": pf.weights(k),
                        "name": gen.choice(["a", "b", "c", "d", "a_1"]),
                        "tag": gen.choice([None, "x", "y", "x"]),
                        "multi": gen.choice([False, False, True]),
                        "part": gen.choice([None, None, "first", "last"]),
                    }
                ),
                min_size=1,
                max_size=8,
            )
        ),
        "compounded": draw(st.booleans()),
        "mixed": draw(gen.choice([False, False, False, True])),
        "log": draw(gen.choice([False, False, True])),
        "ms": draw(st.lists(st.integers(0, len(MEAS) - 1), min_size=4, max_size=4)),
        "window": draw(st.integers(3, 5)),
        "style": draw(gen.choice(["tag", "fronts", "scale", "3d", "3d", "3d fronts", "surface"])),
        "idx": draw(indices()),
        "seed": draw(gen.seeds),
    }


def members(c):
    X = returns(c)
    out, rets = [], []
    for i, e in enumerate(c["members"]):
        q = {None: X, "first": X.iloc[: 2 * c["n"] // 3], "last": X.iloc[c["n"] // 3 :]}[e["part"]]
        w = held(e["w"])
        comp = c["compounded"] != (c["mixed"] and i % 2 == 1)
        if e["multi"]:
            cut = len(q) // 2
            p = MultiPeriodPortfolio(portfolios=[Portfolio(X=v, weights=w, name=f"s{j}") for j, v in enumerate((q.iloc[:cut], q.iloc[cut:]))], name=e["name"], tag=e["tag"], compounded=comp)
        else:
            p = Portfolio(X=q, weights=w, name=e["name"], tag=e["tag"], compounded=comp)
        out.append(p)
        rets.append(pd.Series(q.to_numpy() @ w, q.index))
    return Population(out), out, rets


@law(populations(), quick=220, thorough=1500, rule="at least two members")
def population_charts(c):
    pop, ms, rets = members(c)
    m = MEAS[c["ms"][0]]
    both = len({p.compounded for p in ms}) == 2
    union = sorted(set().union(*[set(r.index) for r in rets]))
    table = pd.concat([pd.Series(cumulated(r.to_numpy(), p.compounded), r.index).reindex(union) for p, r in zip(ms, rets, strict=True)], axis=1)
    idx = index_of(c["idx"], len(union))
    kw = {} if idx is None else {"idx": idx}
    if both or (c["log"] and not c["compounded"]):
        must_raise(lambda: quiet(lambda: pop.plot_cumulative_returns(log_scale=c["log"], **kw)), ValueError, "curves that cannot be compared")
        note("refused")
    else:
        fig = quiet(lambda: pop.plot_cumulative_returns(log_scale=c["log"], **kw))
        check(len(fig.data) == len(ms), "one cumulative curve per member", got=len(fig.data), case=c)
        part = table.iloc[slice(None) if idx is None else idx]
        for j, (t, p) in enumerate(zip(fig.data, ms, strict=True)):
            check(p.name in t.name and (p.tag is None or p.tag in t.name), "name of a curve", got=t.name, name=p.name, tag=p.tag)
            same_curve(t, part.iloc[:, j], "cumulative returns of a member", case=c, j=j)
        check(len({t.name for t in fig.data}) == len(ms), "two curves with the same name", names=[t.name for t in fig.data])
        check((fig.layout.yaxis.type == "log") == c["log"], "axis of the cumulative returns")
    fig = quiet(lambda: pop.plot_rolling_measure(measure=m, window=c["window"]))
    check(len(fig.data) == len(ms), "one rolling curve per member")
    for t, p in zip(fig.data, ms, strict=True):
        same_curve(t, quiet(lambda p=p: p.rolling_measure(measure=m, window=c["window"])), "rolling measure of a member", case=c)
        check(p.name in t.name, "name of a rolling curve", got=t.name, name=p.name)
    step = {} if c["window"] < 5 else {"spacing": 0.05}
    for sub in (True, False):
        bars(quiet(lambda sub=sub: pop.plot_composition(display_sub_ptf_name=sub)), pop.composition(display_sub_ptf_name=sub), "compositions", case=c)
        bars(
            quiet(lambda sub=sub: pop.plot_contribution(measure=m, display_sub_ptf_name=sub, **step)),
            quiet(lambda sub=sub: pop.contribution(measure=m, display_sub_ptf_name=sub, **step)),
            "contributions",
            case=c,
        )
    fig = quiet(pop.plot_returns_distribution)
    check(len(fig.data) == len(ms), "one density per member")
    for t, r, p in zip(fig.data, rets, ms, strict=True):
        check(p.name in t.name, "name of a density", got=t.name, name=p.name)
        density(t, r.to_numpy(), "distribution of the returns of a member")
    return len(ms) > 1


@law(populations(), quick=200, thorough=1200, rule="at least two members, and tags of different sizes when tags are asked for")
def histograms(c):
    pop, ms, _ = members(c)
    pick = [MEAS[i] for i in dict.fromkeys(c["ms"])][:3]
    tags = sorted({p.tag for p in ms if p.tag})
    if c["log"] or not tags:
        tags = None
    fig = quiet(lambda: pop.plot_distribution(pick, **({} if tags is None else {"tag_list": tags})))
    got = {}
    for t in fig.data:
        if t.type == "histogram":
            check(t.name not in got, "histogram drawn twice", name=t.name)
            got[t.name] = np.sort(arr(t.x))
    want = {}
    for m in pick:
        for tag in tags or [None]:
            want[(m, tag)] = np.sort([getattr(p, m.value) for p in ms if tag is None or p.tag == tag])
    check(len(got) == len(want), "number of histograms", got=sorted(got), want=[str(k) for k in want])
    for (m, tag), v in want.items():
        hit = [n for n in got if (m.value in n or str(m) in n) and (tag is None or n.endswith(tag))]
        check(any(got[n].shape == v.shape and np.allclose(got[n], v, rtol=1e-9, atol=1e-12) for n in hit), "values of a histogram", measure=m, tag=tag, hit={n: got[n] for n in hit}, want=v, case=c)
    return len(ms) > 1 and (tags is None or len(tags) > 1)


def groups(fig, dims, key):
    """Points by the value of a marker attribute."""
    out = {}
    for t in fig.data:
        col = getattr(t.marker, key)
        pts = list(zip(*[arr(getattr(t, d)) for d in dims], strict=True))
        for q, name in zip(pts, t.hovertext, strict=True):
            out.setdefault(col, []).append((str(name), *map(float, q)))
    return sorted(sorted(v) for v in out.values())


def near(a, b):
    return len(a) == len(b) and all(len(x) == len(y) and all(p[0] == q[0] and np.allclose(p[1:], q[1:], rtol=1e-9, atol=1e-12) for p, q in zip(x, y, strict=True)) for x, y in zip(a, b, strict=True))


@law(populations(), quick=260, thorough=1500, rule="at least two members")
def measure_charts(c):
    pop, ms, _ = members(c)
    ids = list(dict.fromkeys(c["ms"]))
    while len(ids) < 4:
        ids.append(next(i for i in range(len(MEAS)) if i not in ids))
    x, y, z, h = (MEAS[i] for i in ids)
    style = c["style"]
    dims = ["x", "y"] + (["z"] if style in ("3d", "3d fronts", "surface") else [])
    axes = dict(zip(dims, (x, y, z), strict=False))
    kw = dict(axes)
    val = [[float(getattr(p, axes[d].value)) for d in dims] for p in ms]
    if not np.isfinite(val).all():
        return False
    if style == "surface":
        P = arr(val)
        S = (P - P.mean(axis=0)) / (P.std(axis=0) + 1e-30)
        if len({tuple(np.round(q, 9)) for q in P[:, :2]}) < 5 or np.linalg.svd(S[:, :2] - S[:, :2].mean(axis=0))[1].min() < 0.3:
            return False
        fig = quiet(lambda: pop.plot_measures(**kw, to_surface=True))
        check(len(fig.data) == 1 and fig.data[0].type == "surface", "one surface")
        t = fig.data[0]
        gx, gy, Z = arr(t.x), arr(t.y), arr(t.z)
        close([gx.min(), gx.max(), gy.min(), gy.max()], [P[:, 0].min(), P[:, 0].max(), P[:, 1].min(), P[:, 1].max()], "extent of the surface", rtol=1e-9, atol=1e-12)
        X, Y = np.meshgrid(gx, gy) if gx.ndim == 1 else (gx, gy)
        close(Z, sci.griddata((P[:, 0], P[:, 1]), P[:, 2], (X, Y), method="cubic"), "surface through the members", rtol=1e-6, atol=1e-9, case=c)
        for m in (x, y, z):
            check(str(m) in t.hovertemplate, "measures of the surface", text=t.hovertemplate)
        s = fig.layout.scene
        check([s.xaxis.title.text, s.yaxis.title.text, s.zaxis.title.text] == [str(x), str(y), str(z)], "axes of the surface")
        note("surface")
        return True
    if style.endswith("fronts"):
        kw["show_fronts"] = True
    if style == "scale":
        kw["color_scale"] = h
    if c["log"]:
        kw["hover_measures"] = [h]
    fig = quiet(lambda: pop.plot_measures(**kw))
    pts = sorted((p.name, *map(float, v)) for p, v in zip(ms, val, strict=True))
    got = sorted(q for grp in groups(fig, dims, "symbol") for q in grp)
    check(near([got], [pts]), "points of the chart", got=got, want=pts, case=c)
    lay = fig.layout.scene if "z" in dims else fig.layout
    for d in dims:
        check(lay[f"{d}axis"].title.text == str(axes[d]), "axis of a measure", d=d, got=lay[f"{d}axis"].title.text)

    def split(keys):
        out = {}
        for k_, p, v in zip(keys, ms, val, strict=True):
            out.setdefault(k_, []).append((p.name, *map(float, v)))
        return sorted(sorted(v) for v in out.values())

    tags = [p.tag or "" for p in ms]
    check(near(groups(fig, dims, "symbol"), split(tags)), "symbols do not tell the tags apart", case=c)
    if kw.get("show_fronts"):
        front = {}
        for i, f in enumerate(pop.non_denominated_sort(first_front_only=False)):
            front.update({j: i for j in f})
        if len(set(front.values())) <= 9:
            check(near(groups(fig, dims, "color"), split([front[j] for j in range(len(ms))])), "colours do not tell the fronts apart", case=c)
    elif style == "scale":
        want = sorted((p.name, *map(float, v), float(getattr(p, h.value))) for p, v in zip(ms, val, strict=True))
        got = sorted((str(n), *map(float, q), float(s)) for t in fig.data for n, s, *q in zip(t.hovertext, arr(t.marker.color), *[arr(getattr(t, d)) for d in dims], strict=True))
        check(near([got], [want]), "colour scale", got=got, want=want, case=c)
    else:
        check(near(groups(fig, dims, "color"), split(tags)), "colours do not tell the tags apart", case=c)
    note(style)
    return len(ms) > 1


# ---------------------------------------------------------------- distributions
UNI = {"gaussian": Gaussian, "student": StudentT, "johnson": JohnsonSU}
COP = {"gaussian": GaussianCopula, "clayton": ClaytonCopula, "gumbel": GumbelCopula}


@law(st.tuples(gen.choice(list(UNI)), gen.choice(list(COP)), st.booleans(), st.booleans(), gen.seeds), quick=40, thorough=300, rule="every fitted distribution")
def distribution_charts(case):
    d, cname, with_data, frame, seed = case
    g = gen.rng_of(seed)
    n = int(g.integers(30, 120))
    x = g.standard_t(5, n) * g.uniform(0.005, 0.05) + g.normal() * 0.01
    m = quiet(lambda: UNI[d]().fit(x[:, None]))
    new = g.permutation(x)[: n - 5] * 1.3
    data = pd.DataFrame({"A": new}) if frame else new[:, None]
    fig = quiet(lambda: m.plot_pdf(**({"X": data} if with_data else {})))
    ts = {t.name: t for t in fig.data}
    check(len(ts) == 1 + with_data, "curves of the density chart", names=list(ts))
    own = [t for n_, t in ts.items() if type(m).__name__ in n_]
    check(len(own) == 1, "curve of the model")
    xs = arr(own[0].x).ravel()
    close(arr(own[0].y), np.exp(quiet(lambda: m.score_samples(xs[:, None]))).ravel(), "density of the model", rtol=1e-9)
    lo, hi = (float(np.ravel(quiet(lambda p=p: m.ppf(np.array([[p]]))))[0]) for p in (0.01, 0.99))
    check(xs.min() <= lo and xs.max() >= hi, "range of the density", lo=lo, hi=hi)
    if with_data:
        (emp,) = [t for t in fig.data if t is not own[0]]
        close(arr(emp.y), sst.gaussian_kde(new)(arr(emp.x).ravel()), "density of the data", rtol=1e-8, atol=1e-10)
    fig = quiet(lambda: m.qq_plot(data))
    pts = [t for t in fig.data if "markers" in t.mode]
    check(len(pts) == 1, "points of the Q-Q chart")
    k = len(new)
    close(arr(pts[0].y).ravel(), np.sort(new), "sample quantiles", rtol=1e-12)
    close(arr(pts[0].x).ravel(), np.ravel(quiet(lambda: m.ppf(((np.arange(1, k + 1) - 0.5) / k)[:, None]))), "theoretical quantiles", rtol=1e-9)
    (ref,) = [t for t in fig.data if "lines" in t.mode]
    close(arr(ref.x).ravel(), arr(ref.y).ravel(), "diagonal of the Q-Q chart")
    # copulas
    z = g.normal(size=(80, 2)) + g.normal() * g.normal(size=(80, 1))
    u = compute_pseudo_observations(z)
    cop = quiet(lambda: COP[cname]().fit(u))
    v = compute_pseudo_observations(z[:50])
    fig = quiet(lambda: cop.plot_tail_concentration(**({"X": v} if with_data else {})))
    check(len(fig.data) == 1 + with_data, "curves of the concentration chart")
    t = next(t for t in fig.data if type(cop).__name__ in t.name)
    close(arr(t.y), quiet(lambda: cop.tail_concentration(arr(t.x))), "concentration of the copula", rtol=1e-6, atol=1e-6)
    if with_data:
        (e,) = [q for q in fig.data if q is not t]
        close(arr(e.y), empirical_tail_concentration(v, arr(e.x)), "concentration of the data", rtol=1e-9)
    q = np.sort(g.random(7))
    own = {"one": g.random(7), "two": g.random(7)}
    fig = plot_tail_concentration(own, q)
    check({t.name for t in fig.data} == set(own), "names of the curves")
    for t in fig.data:
        close(arr(t.x), q, "quantiles of a curve")
        close(arr(t.y), own[t.name], "values of a curve")
    for fig in (quiet(cop.plot_pdf_2d), quiet(cop.plot_pdf_3d)):
        t = fig.data[0]
        a, b = arr(t.x), arr(t.y)
        U, V = np.meshgrid(a, b) if a.ndim == 1 else (a, b)
        close(arr(t.z), np.exp(quiet(lambda: cop.score_samples(np.column_stack([U.ravel(), V.ravel()])))).reshape(U.shape), "density of the copula", rtol=1e-8)
        check(U.min() < 0.1 and U.max() > 0.9 and V.min() < 0.1 and V.max() > 0.9, "range of the copula density")
    note(d, cname)
    return True


@law(st.tuples(st.integers(3, 5), st.booleans(), gen.choice(["none", "few", "many"]), st.booleans(), gen.choice(["all", "index", "name"]), gen.seeds), quick=40, thorough=250, rule="every fitted vine")
def vine_charts(case):
    k, frame, obs, cond, pick, seed = case
    g = gen.rng_of(seed)
    x = g.normal(0, 0.01, (90, k)) + g.normal(0, 0.01, (90, 1))
    cols = gen.names(k)
    X = pd.DataFrame(x, columns=cols) if frame else x
    m = quiet(lambda: VineCopula(random_state=4, marginal_candidates=[Gaussian()], copula_candidates=[GaussianCopula()], central_assets=[1]).fit(X))
    n = {"none": 40, "few": 200, "many": 30}[obs]
    kw = {"n_samples": n}
    if obs != "none":
        kw["X"] = X
    if cond:
        kw["conditioning"] = {("A1" if frame else 1): (0.0, 0.03)}
    rows = 90 if obs == "few" else n
    s = quiet(lambda: m.sample(n_samples=rows, conditioning=kw.get("conditioning")))
    fig = quiet(lambda: m.plot_scatter_matrix(**kw))
    ts = {t.name: t for t in fig.data}
    check(len(ts) == 1 + (obs != "none"), "clouds of the scatter matrix", names=list(ts))
    label = cols if frame else [f"x{i}" for i in range(k)]
    for t in fig.data:
        check([q.label for q in t.dimensions] == label, "labels of the scatter matrix", got=[q.label for q in t.dimensions])
    gen_ = np.column_stack([arr(q["values"]) for q in ts["Generated"].dimensions])
    close(gen_, s, "generated cloud", rtol=1e-12)
    if obs != "none":
        h = np.column_stack([arr(q["values"]) for q in ts["Historical"].dimensions])
        known = {tuple(r) for r in x}
        check(len(h) == rows and all(tuple(r) in known for r in h) and len({tuple(r) for r in h}) == rows, "historical cloud")
    sub = list(range(k))
    if pick != "all":
        sub = sorted(g.choice(k, 2, replace=False).tolist(), reverse=bool(seed % 2))
        kw["subset"] = [cols[i] for i in sub] if pick == "name" and frame else sub
    fig = quiet(lambda: m.plot_marginal_distributions(**kw))
    check(len(fig.data) == len(sub) * (1 + (obs != "none")), "curves of the marginals", n=len(fig.data))
    for i, a in enumerate(sub):
        mine = [t for t in fig.data if label[a] in t.name.split()]
        made = [t for t in mine if "Generated" in t.name]
        check(len(mine) == 1 + (obs != "none") and len(made) == 1, "curves of an asset", names=[t.name for t in fig.data])
        density(made[0], s[:, a], "density of the generated sample")
        if obs == "few":
            (e,) = [t for t in mine if t is not made[0]]
            density(e, x[:, a], "density of the data")
    note(obs, pick, "frame" if frame else "array")
    return True


# ---------------------------------------------------------------- folds and clusters
def coloured(cells, rows, msg):
    """Cells with the same value, and only those, share a colour."""
    seen = {(v, str(col)) for vs, cs in zip(rows[1:], list(cells.fill.color)[1:], strict=True) for v, col in zip(vs, cs, strict=True)}
    check(len(seen) == len({v for v, _ in seen}) == len({col for _, col in seen}), msg, seen=seen)


@law(st.tuples(st.integers(3, 6), st.integers(2, 5), st.integers(0, 2), st.integers(0, 2), st.integers(20, 60)), quick=60, thorough=400, rule="the folds leave training observations")
def fold_charts(case):
    folds, tests, purge, embargo, n = case
    if tests >= folds or purge + embargo >= n // folds - 1:
        return False
    cv = CombinatorialPurgedCV(n_folds=folds, n_test_folds=tests, purged_size=purge, embargo_size=embargo)
    X = np.zeros((n, 2))
    parts = list(cv.split(X))
    cells = cv.plot_train_test_folds().data[0].cells
    rows = [list(map(int, v)) for v in cells.values]
    check(rows[0] == list(range(len(parts))), "splits of the table of folds")
    coloured(cells, rows, "colours of the table of folds")
    size = n // folds
    for s, (_, test) in enumerate(parts):
        want = {min(int(t[0]) // size, folds - 1) for t in test}
        got = {f for f in range(folds) if rows[1 + f][s] == 1}
        check(got == want and all(rows[1 + f][s] in (0, 1) for f in range(folds)), "folds of a split", s=s, got=got, want=want)
    cells = cv.plot_train_test_index(X).data[0].cells
    rows = [list(map(int, v)) for v in cells.values]
    check(rows[0] == list(range(n)), "observations of the table")
    check(len(rows) == 1 + len(parts), "splits of the table of observations")
    for s, (train, test) in enumerate(parts):
        want = np.full(n, -1)
        want[np.asarray(train)] = 0
        for t in test:
            want[np.asarray(t)] = 1
        check(rows[1 + s] == want.tolist(), "observations of a split", s=s, got=rows[1 + s], want=want)
    coloured(cells, rows, "colours of the table of observations")
    return True


@law(st.tuples(st.integers(3, 8), st.booleans(), gen.choice([None, 2, 3]), gen.seeds), quick=60, thorough=400, rule="at least four assets")
def cluster_charts(case):
    k, frame, most, seed = case
    g = gen.rng_of(seed)
    f = g.normal(0, 0.01, (60, 2))
    x = f[:, g.integers(0, 2, k)] + g.normal(0, 0.006, (60, k))
    cols = [f"N{i}" for i in g.permutation(k)]
    dist = PearsonDistance().fit(x).distance_.copy()
    np.fill_diagonal(dist, 0.0)
    D = pd.DataFrame(dist, columns=cols, index=cols) if frame else dist
    m = quiet(lambda: HierarchicalClustering(max_clusters=most).fit(D))
    names = cols if frame else [f"x{i}" for i in range(k)]
    heights = np.sort(m.linkage_matrix_[:, 2])
    plain = quiet(lambda: m.plot_dendrogram(heatmap=False))
    check(sorted(plain.layout.xaxis.ticktext) == sorted(names), "assets of the dendrogram", got=list(plain.layout.xaxis.ticktext))
    close(np.sort([arr(t.y).max() for t in plain.data if t.type == "scatter"]), heights, "heights of the dendrogram", rtol=1e-9, atol=1e-12)
    fig = quiet(lambda: m.plot_dendrogram())
    order = list(fig.layout.xaxis.ticktext)
    check(sorted(order) == sorted(names), "assets of the heat map", got=order)
    ids = [names.index(a) for a in order]
    (h,) = [t for t in fig.data if t.type == "heatmap"]
    close(arr(h.z), dist[np.ix_(ids, ids)], "distances of the heat map", rtol=1e-9, atol=1e-12)
    close(arr(h.x), arr(fig.layout.xaxis.tickvals), "position of the assets", rtol=1e-9)
    close(arr(h.y), arr(fig.layout.yaxis.tickvals), "position of the assets", rtol=1e-9)
    check(list(fig.layout.yaxis.ticktext) == order, "assets on the two sides of the heat map", got=list(fig.layout.yaxis.ticktext), want=order)
    for side, axis, v in (("top", "yaxis", "y"), ("side", "xaxis", "x")):
        tree = [t for t in fig.data if t.type == "scatter" and t[axis] in ("y2", "x2")]
        close(np.sort([np.abs(arr(t[v])).max() for t in tree]), heights, f"heights of the {side} dendrogram", rtol=1e-9, atol=1e-12)
    labels = np.asarray(m.labels_)
    pos = {a: v for a, v in zip(order, arr(fig.layout.xaxis.tickvals), strict=True)}
    boxes = [s for s in fig.layout.shapes if s.type == "rect"]
    found = set()
    for s in boxes:
        close([s.x0, s.x1], [s.y0, s.y1], "box of a cluster is not on the diagonal")
        found.add(frozenset(a for a in order if s.x0 < pos[a] < s.x1))
    want = {frozenset(names[i] for i in range(k) if labels[i] == c) for c in set(labels.tolist())}
    check(found == want and len(boxes) == len(want), "boxes of the clusters", got=found, want=want)
    return k > 3
