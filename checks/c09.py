"""C09 Pareto fronts are exactly the non-dominated layers."""

import numpy as np
from hypothesis import strategies as st

from harness import gen, pf
from harness.core import check, law, must_raise, note

ASSUMPTIONS = ["at most 24 points and 5 objectives"]


def _dom(a, b):
    return all(x >= y for x, y in zip(a, b, strict=True)) and any(x > y for x, y in zip(a, b, strict=True))


def _layers(f):
    left = list(range(len(f)))
    out = []
    while left:
        front = [i for i in left if not any(_dom(f[j], f[i]) for j in left)]
        out.append(front)
        left = [i for i in left if i not in front]
    return out


@st.composite
def _matrix(draw):
    n, d = draw(st.integers(0, 24)), draw(st.integers(1, 5))
    span = draw(gen.choice([1, 2, 3, 6, 1000]))
    rows = [[draw(st.integers(-span, span)) / 4 for _ in range(d)] for _ in range(n)]
    if n > 2 and draw(st.booleans()):
        rows[-1] = list(rows[0])
    return rows


@law(_matrix(), quick=4000, rule="at least two fronts or a tie")
def fronts(case):
    from skfolio.utils.sorting import dominate, non_denominated_sort

    f = np.array(case, dtype=float)
    exp = _layers(case)
    got = non_denominated_sort(f, first_front_only=False)
    check([sorted(g) for g in got] == [sorted(e) for e in exp], "fronts", got=got, exp=exp)
    first = non_denominated_sort(f, first_front_only=True)
    check([sorted(g) for g in first] == [sorted(e) for e in exp[:1]], "first front", got=first, exp=exp[:1])
    for i in range(min(len(f), 8)):
        for j in range(min(len(f), 8)):
            check(bool(dominate(f[i], f[j])) == _dom(case[i], case[j]), "dominance", a=case[i], b=case[j])
    if len({tuple(r) for r in case}) < len(case):
        note("duplicates")
    if len(exp) > 2:
        note("three or more fronts")
    return len(exp) >= 2 or len({tuple(r) for r in case}) < len(case)


@st.composite
def _pop(draw):
    m = draw(gen.mat(5, 10, 2, 3))
    k = m["k"]
    members = draw(st.lists(st.lists(gen.grid(-0.5, 1, 0.25), min_size=k, max_size=k), min_size=1, max_size=9))
    if len(members) > 1 and draw(st.booleans()):
        members.append(list(members[0]))
    return {
        "m": m,
        "w": members,
        "fit": draw(st.lists(gen.choice(pf.NAMES), min_size=1, max_size=4, unique=True)),
        "first": draw(st.booleans()),
        "idx": draw(st.integers(0, 15)),
    }


@law(_pop(), quick=2000, rule="at least two distinct portfolios")
def portfolios(case):
    from skfolio import ExtraRiskMeasure, PerfMeasure, Population, Portfolio, RatioMeasure, RiskMeasure

    X = gen.frame(case["m"])
    fit = [pf.by_value()[n] for n in case["fit"]]
    ps = [Portfolio(X=X, weights=w, fitness_measures=fit) for w in case["w"]]
    rows = []
    for p in ps:
        row = []
        for m in fit:
            v = getattr(p, m.value)
            sign = 1 if isinstance(m, PerfMeasure | RatioMeasure) else -1
            check(isinstance(m, PerfMeasure | RatioMeasure | RiskMeasure | ExtraRiskMeasure), "kind of measure")
            row.append(sign * v)
        rows.append(row)
        check(np.array_equal(p.fitness, np.array(row), equal_nan=True), "fitness signs", got=p.fitness, exp=row)
    if np.isnan(np.array(rows)).any():
        return False
    pop = Population(ps)
    exp = _layers(rows)
    if case["first"]:
        exp = exp[:1]
    got = pop.non_denominated_sort(first_front_only=case["first"])
    check([sorted(g) for g in got] == [sorted(e) for e in exp], "fronts of the population", got=got, exp=exp)
    idx = [i for i in range(len(fit)) if case["idx"] >> i & 1] or [0]
    for i, a in enumerate(ps):
        for j, b in enumerate(ps):
            d, e = _dom(rows[i], rows[j]), rows[i] == rows[j]
            check(bool(a.dominates(b)) == d, "dominates")
            check((a > b) == d and (b < a) == d, "greater than")
            check((a == b) == e and (a != b) == (not e), "equality")
            check((a >= b) == (d or e) and (b <= a) == (d or e), "greater or equal")
            sub = _dom([rows[i][t] for t in idx], [rows[j][t] for t in idx])
            check(bool(a.dominates(b, idx=np.array(idx))) == sub, "dominates on some measures")
    for f in (lambda: ps[0] > 1, lambda: ps[0] >= "x", lambda: ps[0] < 1):
        must_raise(f, TypeError, "comparison with something else")
    check(ps[0] != 3, "a number is not a portfolio")
    if len(ps) > 1 and len(fit) > 1:
        ps[1].fitness_measures = fit[::-1]
        must_raise(lambda: pop.non_denominated_sort(), ValueError, "mixed fitness measures")
    note(f"{len(fit)} objectives")
    return len({tuple(r) for r in rows}) > 1
