"""C34 Price-to-return conversion is exact and keeps assets aligned."""

import warnings

import numpy as np
import pandas as pd
from hypothesis import strategies as st

from harness import gen
from harness.core import check, close, law, must_raise, note

ASSUMPTIONS = [
    "prices are positive, dates are unique and increasing, asset and factor names differ; joins are left, right, inner and outer",
    "the share of missing prices of an observation is counted over the assets; shares within 1e-9 of the threshold are not generated except exactly at it",
    "returns are compared to 1e-12 of the gross return",
]


@st.composite
def cases(draw):
    n = draw(st.integers(1, 14))
    return {
        "n": n,
        "k": draw(st.integers(1, 5)),
        "f": draw(gen.choice([0, 0, 1, 2, 4])),
        "miss": draw(gen.choice(["none", "sparse", "dense", "inception", "rows", "column", "delisted"])),
        "fmiss": draw(gen.choice(["none", "sparse", "inception"])),
        "cal": draw(gen.choice(["same", "offset", "holes", "disjoint-ish"])),
        "log": draw(st.booleans()),
        "threshold": draw(gen.choice([1, 1, 1.0, 0.5, 0.2, 0.75, 0.01, None])),
        "join": draw(gen.choice(["outer", "outer", "inner", "left", "right", None])),
        "drop": draw(gen.choice([None, True, False])),
        "fill": draw(gen.choice([None, True, False])),
        "freq": draw(gen.choice(["B", "D", "W", "h"])),
        "scale": draw(gen.choice([1.0, 100.0, 1e-3])),
        "seed": draw(gen.seeds),
    }


def poke(g, p, kind):
    n, k = p.shape
    if kind == "sparse":
        p[g.random((n, k)) < 0.12] = np.nan
    elif kind == "dense":
        p[g.random((n, k)) < 0.5] = np.nan
    elif kind == "inception":
        for j in range(k):
            p[: int(g.integers(0, n + 1)) * int(g.integers(2)), j] = np.nan
    elif kind == "rows":
        p[g.random(n) < 0.3] = np.nan
    elif kind == "column":
        p[:, int(g.integers(k))] = np.nan
    elif kind == "delisted":
        for j in range(k):
            if g.integers(2):
                p[int(g.integers(0, n)) :, j] = np.nan
    return p


def prices(g, idx, names, kind, scale):
    n, k = len(idx), len(names)
    p = scale * np.exp(np.cumsum(g.normal(size=(n, k)) * 0.05, axis=0))
    return pd.DataFrame(poke(g, p, kind), index=idx, columns=names)


def build(case):
    g = gen.rng_of(case["seed"])
    n = case["n"]
    base = pd.date_range("2022-03-01", periods=2 * n + 4, freq=case["freq"])
    xi = base[:n]
    if case["cal"] == "same":
        yi = xi
    elif case["cal"] == "offset":
        yi = base[int(g.integers(0, n)) :][:n]
    elif case["cal"] == "holes":
        xi = base[np.sort(g.permutation(n + 4)[:n])]
        yi = base[np.sort(g.permutation(n + 4)[:n])]
    else:
        xi, yi = base[0 : 2 * n : 2], base[1 : 2 * n + 1 : 2]
    names = [f"A{i}" for i in g.permutation(9)[: case["k"]]]
    X = prices(g, xi, names, case["miss"], case["scale"])
    Y = None
    if case["f"]:
        Y = prices(g, yi, [f"F{i}" for i in g.permutation(9)[: case["f"]]], case["fmiss"], 1.0)
    return X, Y


def ok(v):
    return v == v


def reference(X, Y, log, threshold, join, drop, fill):
    cols = list(X.columns) + ([] if Y is None else list(Y.columns))
    rows = {}
    for src in [X] + ([] if Y is None else [Y]):
        for t, r in src.iterrows():
            rows.setdefault(t, {}).update(r.to_dict())
    dates = list(X.index)
    if Y is not None:
        a, b = set(X.index), set(Y.index)
        if join == "outer":
            dates = sorted(a | b)
        elif join == "inner":
            dates = [t for t in X.index if t in b]
        elif join == "right":
            dates = list(Y.index)
    tab = [[rows[t].get(c, np.nan) for c in cols] for t in dates]
    k = X.shape[1]
    keep = [i for i in range(len(tab)) if threshold is None or sum(not ok(v) for v in tab[i][:k]) <= k * threshold]
    dates, tab = [dates[i] for i in keep], [list(tab[i]) for i in keep]
    if fill:
        for i in range(1, len(tab)):
            tab[i] = [v if ok(v) else p for v, p in zip(tab[i], tab[i - 1], strict=True)]
    if drop:
        seen, first = [False] * len(cols), len(tab)
        for i, r in enumerate(tab):
            seen = [s or ok(v) for s, v in zip(seen, r, strict=True)]
            if all(seen):
                first = i
                break
        dates, tab = dates[first:], tab[first:]
    else:
        keep = [i for i, r in enumerate(tab) if any(ok(v) for v in r)]
        dates, tab = [dates[i] for i in keep], [tab[i] for i in keep]
    live = [c for j, c in enumerate(cols) if any(ok(r[j]) for r in tab)]
    out = []
    for i in range(1, len(tab)):
        row = {c: tab[i][j] / tab[i - 1][j] for j, c in enumerate(cols)}
        out.append([(np.log(row[c]) if log else row[c] - 1) for c in live])
    first = {c: tab[0][j] for j, c in enumerate(cols)} if tab else {}
    return dates[1:], live, np.array(out, float).reshape(max(len(tab) - 1, 0), len(live)), first, (dates, tab, cols)


@law(cases(), quick=1500, thorough=25000, rule="at least one return is computed")
def conversion(case):
    from skfolio.preprocessing import prices_to_returns

    X, Y = build(case)
    X0, Y0 = X.copy(), None if Y is None else Y.copy()
    kw = {"log_returns": case["log"], "nan_threshold": case["threshold"]}
    if case["join"]:
        kw["join"] = case["join"]
    if case["drop"] is not None:
        kw["drop_inceptions_nan"] = case["drop"]
    if case["fill"] is not None:
        kw["fill_nan"] = case["fill"]
    with warnings.catch_warnings():
        warnings.simplefilter("ignore")
        out = prices_to_returns(X, Y, **kw) if Y is not None else prices_to_returns(X, **kw)
    check(X.equals(X0) and (Y is None or Y.equals(Y0)), "the prices were modified")
    drop, fill = case["drop"] is not False, case["fill"] is not False
    dates, live, ref, first, full = reference(X, Y, case["log"], case["threshold"], case["join"] or "outer", drop, fill)
    if Y is None:
        check(isinstance(out, pd.DataFrame), "a single table is returned for a single table")
        parts = [(out, [c for c in live])]
    else:
        check(isinstance(out, tuple) and len(out) == 2, "two tables are returned for two tables")
        parts = [(out[0], [c for c in live if c in X.columns]), (out[1], [c for c in live if c in Y.columns])]
        check(out[0].index.equals(out[1].index), "assets and factors are not aligned")
    for got, cols in parts:
        if len(full[1]) == 0:
            check(len(got) == 0, "returns from nothing")
            continue
        check(list(got.columns) == cols, "columns of the returns", got=list(got.columns), want=cols, case=case)
        check(list(got.index) == list(dates), "dates of the returns", got=list(got.index), want=dates, case=case)
        want = ref[:, [live.index(c) for c in cols]]
        check(np.array_equal(np.isnan(got.to_numpy(float)), np.isnan(want)), "missing returns", got=got.to_numpy(), want=want, case=case)
        close(np.nan_to_num(got.to_numpy(float)), np.nan_to_num(want), "returns", rtol=1e-10, atol=1e-12, case=case)
        if len(got) and not np.isnan(want).any():
            path = np.exp(np.cumsum(got.to_numpy(), axis=0)) if case["log"] else np.cumprod(1 + got.to_numpy(), axis=0)
            start = np.array([first[c] for c in cols])
            end = np.array([full[1][-1][full[2].index(c)] for c in cols])
            close(path[-1] * start, end, "compounding the returns does not give the prices back", rtol=1e-9, atol=0)
            note("compounded")
    note(case["miss"], case["join"] or "default join" if Y is not None else "assets only")
    if Y is not None and len(X.index.symmetric_difference(Y.index)):
        note("different calendars")
    return len(ref) > 0 and len(live) > 0


@law(st.fixed_dictionaries({"bad": gen.choice(["array", "series", "y array", "zero", "negative", "above", "names"]), "seed": gen.seeds}), quick=50, thorough=300, rule="always")
def refusals(case):
    from skfolio.preprocessing import prices_to_returns

    g = gen.rng_of(case["seed"])
    X = prices(g, pd.date_range("2022-03-01", periods=6), ["A", "B"], "none", 1.0)
    acts = {
        "array": lambda: prices_to_returns(X.to_numpy()),
        "series": lambda: prices_to_returns(X["A"]),
        "y array": lambda: prices_to_returns(X, X.to_numpy()),
        "zero": lambda: prices_to_returns(X, nan_threshold=0),
        "negative": lambda: prices_to_returns(X, nan_threshold=-0.1),
        "above": lambda: prices_to_returns(X, nan_threshold=1.01),
        "names": lambda: prices_to_returns(X, X),
    }
    must_raise(acts[case["bad"]], (TypeError, ValueError), f"{case['bad']} is accepted")


LAWS = [conversion, refusals]
