"""C23 Walk-forward splits roll without leakage."""

import datetime as dt

import numpy as np
import pandas as pd
from hypothesis import strategies as st

from harness import gen
from harness.core import check, law, must_raise, note

ASSUMPTIONS = [
    "calendar periods start at the dates of the frequency (shifted by the offset) lying within the index; the last one is complete when another period starts at or before the last observation",
    "a training duration given as an offset starts at the last observation at or before (period start - duration)",
    "dates are midnight and increasing; frequency offsets are whole days and the first shifted period does not start before the first observation",
]

size_s = st.fixed_dictionaries(
    {
        "n": st.integers(2, 60),
        "test": st.integers(1, 12),
        "train": st.integers(1, 25),
        "purge": st.integers(0, 6),
        "expand": st.booleans(),
        "reduce": st.booleans(),
        "form": gen.choice(["array", "frame", "dated", "list y"]),
    }
)


def eq(got, want, what, **kw):
    check(len(got) == len(want), f"{what}: number of splits", got=len(got), want=len(want), **kw)
    for i, ((a, b), (c, d)) in enumerate(zip(got, want, strict=True)):
        check(np.array_equal(b, d), f"{what}: test window {i}", got=list(b), want=list(d), **kw)
        check(np.array_equal(a, c), f"{what}: training window {i}", got=list(a), want=list(c), **kw)


@law(size_s, quick=3000, thorough=60000, rule="at least one split was produced")
def observations(case):
    from skfolio.model_selection import WalkForward

    n, test, train, purge = case["n"], case["test"], case["train"], case["purge"]
    X = np.zeros((n, 2))
    y = None
    if case["form"] == "frame":
        X = pd.DataFrame(X)
    elif case["form"] == "dated":
        X = pd.DataFrame(X, index=pd.bdate_range("2020-01-01", periods=n))
    elif case["form"] == "list y":
        y = list(range(n))
    cv = WalkForward(test_size=test, train_size=train, purged_size=purge, expend_train=case["expand"], reduce_test=case["reduce"])
    if train + purge >= n:
        must_raise(lambda: list(cv.split(X, y)), ValueError, "training and purge longer than the data must be refused")
        return False
    want, first = [], train + purge
    for s in range(first, n, test):
        t = [i for i in range(s, s + test) if i < n]
        if len(t) < test and not case["reduce"]:
            break
        want.append(([i for i in range(s) if i < s - purge and (case["expand"] or i >= s - purge - train)], t))
    got = list(cv.split(X, y))
    eq(got, want, "observations", case=case)
    eq(list(cv.split(X)), want, "second call", case=case)
    check(cv.get_n_splits(X, y) == len(want), "reported number of splits", got=cv.get_n_splits(X), want=len(want), case=case)
    note("reduced last" if want and len(want[-1][1]) < test else "full last", "expanding" if case["expand"] else "rolling")
    return bool(want)


FREQS = {
    "MS": "MS", "ME": "ME", "W-FRI": "W-FRI", "W-MON": "W-MON", "WOM-3FRI": "WOM-3FRI", "QS": "QS", "BMS": "BMS", "SM": pd.offsets.SemiMonthEnd(),
    "MonthBegin": pd.offsets.MonthBegin(), "BME": "BME", "W": pd.offsets.Week(weekday=2),
}  # fmt: skip

cal_s = st.fixed_dictionaries(
    {
        "start": st.integers(0, 900),
        "days": st.integers(60, 500),
        "index": gen.choice(["daily", "business", "holidays", "closures", "sparse"]),
        "seed": gen.seeds,
        "freq": gen.choice(sorted(FREQS)),
        "offset": gen.choice([None, None, 1, 2, 5, 9, -1, -3, "td3", "td-2"]),
        "train": gen.choice([1, 2, 3, 5, "weeks6", "months2", "days45", "td30", "months1"]),
        "test": st.integers(1, 3),
        "purge": gen.choice([0, 0, 1, 2, 4]),
        "previous": st.booleans(),
        "expand": st.booleans(),
        "reduce": st.booleans(),
    }
)


def dates_of(case):
    start = pd.Timestamp("2018-01-01") + pd.Timedelta(days=case["start"])
    d = pd.date_range(start, periods=case["days"], freq="D")
    g = gen.rng_of(case["seed"])
    if case["index"] == "daily":
        return d
    d = d[d.dayofweek < 5]
    keep = np.ones(len(d), bool)
    if case["index"] == "holidays":
        keep = g.random(len(d)) > 0.12
    elif case["index"] == "closures":
        for _ in range(3):
            i = int(g.integers(len(d)))
            keep[i : i + int(g.integers(2, 9))] = False
    elif case["index"] == "sparse":
        keep = g.random(len(d)) > 0.6
    d = d[keep]
    return d


def offset_of(v):
    if v is None:
        return None
    if isinstance(v, str):
        return dt.timedelta(days=int(v[2:]))
    return pd.DateOffset(days=v)


def train_of(v):
    return {"weeks6": pd.offsets.Week(6), "months2": pd.DateOffset(months=2), "days45": pd.DateOffset(days=45), "td30": dt.timedelta(days=30), "months1": pd.DateOffset(months=1)}.get(v, v)


@law(cal_s, quick=1600, thorough=30000, rule="at least two splits were produced")
def calendar(case):
    from skfolio.model_selection import WalkForward

    dates = dates_of(case)
    if len(dates) < 20:
        return False
    freq, off, train = FREQS[case["freq"]], offset_of(case["offset"]), train_of(case["train"])
    step = pd.Timedelta(days=60)
    anchors = pd.date_range(dates[0] - 3 * step, dates[-1] + 3 * step, freq=freq)
    shifted = [a + off if off is not None else a for a in anchors]
    if off is not None and dates[0] - off > dates[0] and any(s < dates[0] <= a for a, s in zip(anchors, shifted, strict=True)):
        note("ambiguous first period")
        return False
    starts = [s for s in shifted if dates[0] <= s <= dates[-1]]
    pos = {d: i for i, d in enumerate(dates)}

    def locate(d):
        if case["previous"]:
            return pos[max(q for q in dates if q <= d)]
        return pos[min(q for q in dates if q >= d)]

    cuts = [locate(s) for s in starts]
    n, m = len(dates), len(cuts)
    want = []
    if isinstance(train, int):
        first = train
    else:
        first = next((i for i, s in enumerate(starts) if s - train >= dates[0]), m)
    for i in range(first, m, case["test"]):
        j = i + case["test"]
        if j >= m and not case["reduce"]:
            break
        end = cuts[j] if j < m else n
        if case["expand"]:
            begin = 0
        elif isinstance(train, int):
            begin = cuts[i - train]
        else:
            begin = pos[max(q for q in dates if q <= starts[i] - train)]
        want.append((list(range(begin, cuts[i] - case["purge"])), list(range(cuts[i], end))))
    cv = WalkForward(
        test_size=case["test"], train_size=train, freq=freq, freq_offset=off, previous=case["previous"],
        expend_train=case["expand"], reduce_test=case["reduce"], purged_size=case["purge"],
    )  # fmt: skip
    X = pd.DataFrame(np.zeros((n, 2)), index=dates)
    got = list(cv.split(X))
    eq(got, want, "calendar", case=case, starts=[str(s.date()) for s in starts][:6], first=str(dates[0].date()), last=str(dates[-1].date()))
    check(cv.get_n_splits(X) == len(want), "reported number of splits", got=cv.get_n_splits(X), want=len(want))
    tests = np.concatenate([t for _, t in got]) if got else np.array([])
    check(np.all(np.diff(tests) == 1), "test windows overlap or leave a hole")
    note("offset train" if not isinstance(train, int) else "period train", case["index"], f"previous={case['previous']}", f"offset={case['offset']}")
    return len(want) > 1


@law(st.fixed_dictionaries({"kind": gen.choice(["array", "no dates", "float test", "offset without freq"]), "n": st.integers(20, 40)}), quick=8, thorough=40, rule="always")
def refusals(case):
    from skfolio.model_selection import WalkForward

    n = case["n"]
    dated = pd.DataFrame(np.zeros((n, 2)), index=pd.bdate_range("2020-01-01", periods=n))
    cv, X = {
        "array": (WalkForward(test_size=1, train_size=2, freq="W-FRI"), np.zeros((n, 2))),
        "no dates": (WalkForward(test_size=1, train_size=2, freq="W-FRI"), pd.DataFrame(np.zeros((n, 2)))),
        "float test": (WalkForward(test_size=1.5, train_size=2), dated),
        "offset without freq": (WalkForward(test_size=1, train_size=pd.DateOffset(months=1)), dated),
    }[case["kind"]]
    must_raise(lambda: list(cv.split(X)), ValueError, "must be refused: " + case["kind"])


LAWS = [observations, calendar, refusals]
