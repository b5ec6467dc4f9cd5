"""C15 Sweeps return one consistent portfolio per requested point."""

import warnings

import numpy as np
from hypothesis import strategies as st

from harness import gen, opt
from harness.core import check, close, law, must_raise, note

ASSUMPTIONS = [
    "an entry counts as unattainable only when it is far outside the attainable range",
    "rows are compared by objective and limits (2e-3 relative plus 5e-6), and by weights when the objective is a variance",
    "the frontier starts at 1.01 times the return of the minimum-risk portfolio, or just above zero when that return is negative",
]
PLAIN = ["variance", "semi_variance", "cvar", "standard_deviation", "mean_absolute_deviation", "cdar", "max_drawdown", "gini_mean_difference"]


def near(a, b, what, f=1, **kw):
    t = (5e-6 + 2e-3 * max(abs(a), abs(b))) * f
    check(abs(a - b) <= t, what, got=a, exp=b, tol=t, **kw)


@law(st.fixed_dictionaries({"p": opt.problem(risks=PLAIN, objectives=["min_risk", "max_return", "max_utility"], limits=False),
                            "lists": gen.choice(["return", "risk", "both", "mixed"]), "limit": gen.choice(PLAIN),
                            "levels": st.lists(st.integers(0, 40), min_size=2, max_size=4),
                            "uneven": st.booleans()}),
     quick=500, rule="two entries give different weights")  # fmt: skip
def lists(case):
    if "mean_absolute_deviation" == case["limit"]:
        case["p"]["mar"] = None
    p = opt.Problem(case["p"])
    lv = [v / 40 for v in case["levels"]]
    name = case["limit"]
    # limits of the portfolios between the least risky and the most rewarding one
    a, b = p.propose(p.w0, obj="min_risk", risk=name), p.propose(p.w0, obj="max_return")
    if a is None or b is None:
        return False
    mix = [a + v * (b - a) for v in lv]
    rets = [float(p.er(q) - 5e-6) for q in mix]
    risks = [float(p.risk(name, q) * 1.005 + 1e-7) for q in mix]
    if min(risks) <= 0:
        return False
    extra = {}
    if case["lists"] in ("return", "both", "mixed"):
        extra["min_return"] = rets
    if case["lists"] in ("risk", "both"):
        extra[f"max_{name}"] = risks
    if case["lists"] == "mixed":
        extra[f"max_{name}"] = max(risks)
    if case["uneven"]:
        bad = dict(extra, min_return=rets, **{f"max_{name}": [*risks, risks[0]]})
        must_raise(lambda: p.model(**bad).fit(p.X, p.y), ValueError, "lists of unequal length")
    model, acc = p.fit(**extra)
    if model is None or not acc:
        note("solver failure" if model is None else "inaccurate")
        return False
    w = np.asarray(model.weights_)
    check(w.shape == (len(lv), p.k), "one row per entry", shape=w.shape)
    check(isinstance(model.problem_values_, list) and len(model.problem_values_) == len(lv), "one set of values per entry")
    for i in range(len(lv)):
        one = {k: (v[i] if isinstance(v, list) else v) for k, v in extra.items()}
        single, a1 = p.fit(**one)
        if single is None or not a1:
            return False
        s = np.asarray(single.weights_)
        near(p.value(w[i]), p.value(s), f"objective of row {i}", args=p.kw | one)
        check(p.worst_gap(w[i])[1] < 1e-3, f"constraints of row {i}", gap=p.worst_gap(w[i]))
        if "min_return" in one:
            check(p.er(w[i]) >= one["min_return"] - 2e-6, f"return limit of row {i}", got=p.er(w[i]), limit=one["min_return"])
        if f"max_{name}" in one:
            check(p.risk(name, w[i]) <= one[f"max_{name}"] * 1.002 + 1e-7, f"risk limit of row {i}", got=p.risk(name, w[i]), limit=one[f"max_{name}"])
        v = model.problem_values_[i]
        near(float(v["expected_return"]), p.er(w[i]), f"reported return of row {i}")
        if case["p"]["obj"] != "max_return":
            near(float(v["risk"]), p.risk(case["p"]["risk"], w[i]), f"reported risk of row {i}")
        near(float(v["objective"]), p.value(w[i]) * (1 if case["p"]["obj"] == "min_risk" else -1), f"reported objective of row {i}")
        near(float(v["regularization"]), p.reg(w[i]), f"reported regularization of row {i}")
        if case["p"]["risk"] in ("variance",) and case["p"]["obj"] == "min_risk" and case["p"]["m"]["n"] > 2 * p.k:
            close(w[i], s, f"weights of row {i}", 1e-2, 2e-2)
    pop = model.predict(p.X)
    check(len(pop) == len(lv) and all(np.array_equal(q.weights, r) for q, r in zip(pop, w, strict=True)), "population in the same order")
    check(len({q.name for q in pop}) == len(lv), "distinct names")
    note(case["lists"])
    return bool(np.abs(w - w[0]).max() > 1e-3)


@law(st.fixed_dictionaries({"p": opt.problem(risks=PLAIN, objectives=["min_risk"], limits=False), "size": st.integers(2, 7)}),
     quick=500, rule="the frontier spans at least 10% of its return range")  # fmt: skip
def frontier(case):
    p = opt.Problem(case["p"])
    n = case["size"]
    best = p.propose(p.w0, obj="max_return")
    if best is None:
        return False
    top = p.er(best)
    name = case["p"]["risk"]
    if top < -1e-5:
        must_raise(lambda: p.model(efficient_frontier_size=n).fit(p.X, p.y), ValueError, "no positive return attainable")
        note("negative")
        return False
    low = p.propose(p.w0)
    if low is None or top < 1e-4 or p.risk(name, low) < 1e-4 * (1e-2 if name in opt.QUAD else 1):
        return False
    model, acc = p.fit(efficient_frontier_size=n)
    if model is None or not acc:
        note("solver failure" if model is None else "inaccurate")
        return False
    w = np.asarray(model.weights_)
    check(w.shape == (n, p.k), "one row per point", shape=w.shape)
    start = max(p.er(low), 0.0) * 1.01
    if start >= top * 0.98:
        note("flat")
        return False
    ers = np.array([p.er(v) for v in w])
    # with a penalty, the frontier trades the return for the penalized risk
    rks = np.array([p.risk(name, v) + p.reg(v) for v in w])
    for v in w:
        check(p.worst_gap(v)[1] < 1e-3, "constraints on the frontier", gap=p.worst_gap(v))
    t = 2e-3 * rks.max() + 1e-7
    check(np.all(np.diff(rks) >= -t), "risks are non-decreasing", got=rks)
    check(np.all(np.diff(ers) >= -2e-3 * abs(top) - 2e-6), "returns are non-decreasing", got=ers)
    near(ers[-1], top, "the last point has the largest return", f=0.1)
    # the first point is the minimum-risk portfolio among those with the first target
    least = p.risk(name, low) + p.reg(low)
    check(rks[0] <= least + t or p.er(low) <= start, "the first point has the minimum risk", got=rks[0], exp=least)
    # targets are evenly spread over the range of returns
    lo_ret = ers[0]
    for i in range(1, n):
        target = start + (top - start) * i / (n - 1)
        check(ers[i] >= target - 2e-3 * (abs(target)) - 5e-6, f"point {i} reaches its return", got=ers[i], exp=target)
    # no portfolio has a larger return with less risk
    for i, v in enumerate(w):
        q = opt.Problem(dict(case["p"]))
        q.kw["min_return"] = float(ers[i] + 1e-3 * (top - start) + 1e-7)
        c = q.propose(v)
        if c is not None and q.worst_gap(c)[1] < 1e-7:
            check(rks[i] <= q.risk(name, c) + q.reg(c) + 2e-3 * rks[i] + 2e-6 * (1e-2 if name in opt.QUAD else 1), f"point {i} is not dominated",
                  got=rks[i], exp=q.risk(name, c))  # fmt: skip
    with warnings.catch_warnings():
        warnings.simplefilter("ignore")
        pop = model.predict(p.X)
    check(len(pop) == n and all(np.array_equal(q.weights, r) for q, r in zip(pop, w, strict=True)), "population in the same order")
    note(name)
    return bool(ers[-1] - lo_ret > 0.1 * (top - start))


@law(st.fixed_dictionaries({"m": gen.mat(12, 30, 2, 4, kinds=gen.SMOOTH), "risk": gen.choice(["variance", "cvar", "max_drawdown"]),
                            "entries": st.lists(gen.choice([None, 0.0, 0.25, 0.5, 0.75, 0.9]), min_size=2, max_size=5), "kind": gen.choice(["return", "risk"])}),
     quick=160, rule="some entries are attainable and some are not")  # fmt: skip
def failures(case):
    """An unattainable entry is skipped (or raises), the others keep their own result and order."""
    import cvxpy as cp

    from skfolio import RiskMeasure
    from skfolio.optimization import MeanRisk, ObjectiveFunction

    X = gen.frame(case["m"])
    x = X.to_numpy()
    if x.std(axis=0).min() < 1e-4:
        return False
    rm = RiskMeasure(case["risk"])
    if case["kind"] == "return":
        lo, hi = x.mean(axis=0).min(), x.mean(axis=0).max()
        if hi - lo < 1e-5:
            return False
        kw = {"min_return": [hi + 1.0 + abs(hi) if e is None else float(lo + e * (hi - lo)) for e in case["entries"]]}
        base = dict(risk_measure=rm)
    else:
        # a limit far below the smallest attainable risk cannot be met
        least = MeanRisk(risk_measure=rm).fit(X).problem_values_["risk"]
        if least < 1e-4 * (1e-2 if case["risk"] == "variance" else 1):
            return False
        kw = {f"max_{case['risk']}": [least * 0.2 if e is None else float(least * (1.2 + e)) for e in case["entries"]]}
        base = dict(risk_measure=rm, objective_function=ObjectiveFunction.MAXIMIZE_RETURN)
    key = next(iter(kw))
    singles = []
    with warnings.catch_warnings(record=True) as rec:
        warnings.simplefilter("always")
        for e, v in zip(case["entries"], kw[key], strict=True):
            if e is None:
                try:
                    MeanRisk(**base, **{key: v}).fit(X)
                except cp.SolverError:
                    continue
                # the solver stopped without an answer and says so
                check(any("inaccurate" in str(r.message) for r in rec), "an unattainable limit raises", limit=v)
            else:
                singles.append(MeanRisk(**base, **{key: v}).fit(X))
        m = MeanRisk(**base, **kw, raise_on_failure=False).fit(X)
        if any("inaccurate" in str(r.message) for r in rec):
            note("inaccurate")
            return False
        if len(singles) < len(case["entries"]):
            must_raise(lambda: MeanRisk(**base, **kw).fit(X), cp.SolverError, "an unattainable entry raises")
    w = np.asarray(m.weights_)
    check(len(w) == len(singles) == len(m.problem_values_), "one row per solvable entry", rows=len(w), solvable=len(singles), entries=case["entries"])
    for i, s in enumerate(singles):
        for v in ("expected_return", "risk"):
            near(float(m.problem_values_[i][v]), float(s.problem_values_[v]), f"{v} of the row of solvable entry {i}", f=3, entries=case["entries"])
        near(float(x.mean(axis=0) @ w[i]), float(x.mean(axis=0) @ s.weights_), f"return of the weights of solvable entry {i}", f=3)
    note(case["kind"])
    return 0 < len(singles) < len(case["entries"])


@law(st.fixed_dictionaries({"m": gen.mat(12, 20, 2, 3, kinds=gen.SMOOTH), "size": st.integers(-1, 1), "obj": st.integers(1, 3)}), quick=60, rule="every case")
def refusals(case):
    from skfolio.optimization import MeanRisk, ObjectiveFunction

    X = gen.frame(case["m"])
    must_raise(lambda: MeanRisk(efficient_frontier_size=case["size"]).fit(X), ValueError, "frontier of fewer than two points")
    obj = [None, ObjectiveFunction.MAXIMIZE_RETURN, ObjectiveFunction.MAXIMIZE_UTILITY, ObjectiveFunction.MAXIMIZE_RATIO][case["obj"]]
    must_raise(lambda: MeanRisk(objective_function=obj, efficient_frontier_size=4).fit(X), ValueError, "frontier of another objective")
    return True
