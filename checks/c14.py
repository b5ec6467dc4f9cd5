"""C14 Reported problem values match the returned portfolio."""

import numpy as np
from hypothesis import strategies as st

from harness import gen, opt
from harness.core import check, law, note

ASSUMPTIONS = [
    "tolerance 5e-4 relative plus 2e-6 absolute on values (20 times more when the solver warns of inaccuracy)",
    "when returns are maximized the solver does not push the risk, so the reported risk is only an upper bound",
    "the optimizer's drawdowns start from the initial capital, the portfolio's from the first observation",
]


def near(a, b, acc, what, **kw):
    t = (2e-6 + 5e-4 * max(abs(a), abs(b))) * (1 if acc else 20)
    check(abs(a - b) <= t, what, got=a, exp=b, tol=t, **kw)


@law(opt.problem(), quick=1800, rule="costs, fees, regularization or a ratio objective is present")
def values(case):
    p = opt.Problem(case)
    if not p.well_posed():
        return False
    name = case["risk"]
    model, acc = p.fit(portfolio_params={**{f"{t}_beta": opt.beta_of(case, t) for t in opt.TAILS},
                                         "min_acceptable_return": case["mar"], "risk_free_rate": case["rf"]})  # fmt: skip
    if model is None:
        note("solver failure")
        return False
    w = np.asarray(model.weights_)
    v = model.problem_values_
    check(isinstance(v, dict), "one set of values")
    er, rk, reg = p.er(w), p.risk(name, w), p.reg(w)
    near(float(v["expected_return"]), er, acc, "reported expected return", args=p.kw)
    rep = float(v["risk"])
    quad = name in opt.QUAD
    tight = case["obj"] != "max_return"
    if tight:
        near(rep, rk, acc, f"reported {name}", args=p.kw)
    else:
        check(rep >= rk - (2e-6 + 5e-4 * abs(rk)) * (1 if acc else 20), f"reported {name} is below the measured one", got=rep, exp=rk)
    near(float(v["regularization"]), reg, acc, "reported regularization")
    o, f = float(v["objective"]), float(v["factor"])
    match case["obj"]:
        case "min_risk":
            near(o, rk + reg, acc, "reported objective", args=p.kw)
            check(f == 1, "factor")
        case "max_return":
            near(o, er - reg, acc, "reported objective", args=p.kw)
        case "max_utility":
            near(o, er - case["ra"] * rk - reg, acc, "reported objective", args=p.kw)
        case "max_ratio":
            check(f > 0, "homogenization factor", got=f)
            exp = rk * (f * f if quad else f)
            near(o / max(1, abs(exp)), exp / max(1, abs(exp)), acc, "reported objective", args=p.kw)
            note("ratio")
    # the portfolio predicted on the training data shows the same figures
    ptf = model.predict(p.X)
    near(ptf.mean, er, acc, "expected return of the predicted portfolio")
    costly = bool(np.any(p.tc))
    if name not in ("max_drawdown", "average_drawdown", "cdar", "edar", "ulcer_index"):
        skip = name == "evar" and costly
        # an explicit minimum acceptable return is compared to net returns by the portfolio
        if not skip:
            near(getattr(ptf, name), rk, acc, f"{name} of the predicted portfolio", args=p.kw)
    elif p.net(w)[0] >= 1e-9 and name != "edar":
        near(getattr(ptf, name), rk, acc, f"{name} of the predicted portfolio")
    check(np.array_equal(ptf.weights, w), "weights of the predicted portfolio")
    note(name)
    return case["obj"] == "max_ratio" or bool(np.any(p.tc) or np.any(p.mf) or reg)


@law(st.fixed_dictionaries({"p": opt.problem(limits=True), "so": gen.choice([None, 0.1, 1.0, 10.0, 100.0]),
                            "sc": gen.choice([None, 0.1, 1.0, 10.0, 100.0])}),
     quick=700, rule="a scale differs from the default")  # fmt: skip
def scales(case):
    p = opt.Problem(case["p"])
    if not p.well_posed():
        return False
    m1, a1 = p.fit()
    m2, a2 = p.fit(scale_objective=case["so"], scale_constraints=case["sc"])
    if m1 is None or m2 is None or not a1 or not a2:
        note("solver failure" if m1 is None or m2 is None else "inaccurate")
        return False
    w1, w2 = np.asarray(m1.weights_), np.asarray(m2.weights_)
    if max(p.worst_gap(w1)[1], p.worst_gap(w2)[1]) > 2e-5:
        note("loosely solved")
        return False
    o1, o2 = p.value(w1), p.value(w2)
    t = 5e-6 + 1e-3 * max(abs(o1), abs(o2))
    check(abs(o1 - o2) <= t, "the scale changes the optimum", default=o1, scaled=o2, args=p.kw)
    if case["p"]["obj"] != "max_return":
        near(float(m2.problem_values_["risk"]), p.risk(case["p"]["risk"], w2), True, "reported risk with a scale")
    near(float(m2.problem_values_["expected_return"]), p.er(w2), True, "reported expected return with a scale")
    if case["p"]["obj"] == "min_risk":
        near(float(m2.problem_values_["objective"]), p.value(w2), True, "reported objective with a scale")
    return case["so"] is not None or case["sc"] is not None
