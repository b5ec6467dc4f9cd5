"""C06 Portfolio arithmetic is arithmetic on weights."""

import numpy as np
from hypothesis import strategies as st

from harness import gen, pf
from harness.core import Violation, check, close, law, must_raise, note

ASSUMPTIONS = ["expression trees of depth at most 4 over at most 3 compatible portfolios of at most 4 assets"]

NUM = gen.choice([2, 0.5, -1, 3, 0.1, -0.25, 1, 7, 0.3])


def _tree(depth):
    leaf = st.integers(0, 2).map(lambda i: ["p", i])
    if depth == 0:
        return leaf
    sub = _tree(depth - 1)
    return st.one_of(
        leaf,
        st.tuples(gen.choice(["+", "-"]), sub, sub).map(list),
        st.tuples(gen.choice(["neg", "abs"]), sub).map(list),
        st.tuples(gen.choice(["*", "r*", "/", "//"]), sub, NUM).map(list),
        st.tuples(st.just("round"), sub, st.integers(0, 3)).map(list),
    )


def _eval(t, leaves):
    match t[0]:
        case "p":
            return leaves[t[1]]
        case "+":
            return _eval(t[1], leaves) + _eval(t[2], leaves)
        case "-":
            return _eval(t[1], leaves) - _eval(t[2], leaves)
        case "neg":
            return -_eval(t[1], leaves)
        case "abs":
            return abs(_eval(t[1], leaves))
        case "*":
            return _eval(t[1], leaves) * t[2]
        case "r*":
            return t[2] * _eval(t[1], leaves)
        case "/":
            return _eval(t[1], leaves) / t[2]
        case "//":
            return _eval(t[1], leaves) // t[2]
        case "round":
            x = _eval(t[1], leaves)
            return np.round(x, t[2]) if isinstance(x, np.ndarray) else round(x, t[2])


@st.composite
def _case(draw):
    p = draw(pf.portfolio(min_n=3, max_n=8, min_k=1, max_k=4))
    k = p["m"]["k"]
    if p["tc"]["form"] == "none" and draw(st.booleans()):
        p["tc"] = {"form": "scalar", "v": 0.001}
    return {
        "p": p,
        "more": [draw(pf.weights(k)) for _ in range(2)],
        "tree": draw(st.one_of(_tree(2), _tree(3))),
        "fit": draw(st.booleans()),
        "multi": draw(st.booleans()),
        "mul": draw(st.lists(NUM, min_size=2, max_size=2)),
    }


CARRIED = ["compounded", "risk_free_rate", "annualized_factor", "min_acceptable_return", "value_at_risk_beta",
           "cvar_beta", "evar_beta", "drawdown_at_risk_beta", "cdar_beta", "edar_beta",
           "entropic_risk_measure_theta", "entropic_risk_measure_beta", "fitness_measures"]  # fmt: skip


def _leaves(case, X, extra):
    out = [pf.build(case["p"], X, name="n0", tag="t0", **extra)]
    for i, w in enumerate(case["more"]):
        c = {**case["p"], "w": {"form": "array", "v": w}}
        out.append(pf.build(c, X, name=f"n{i + 1}", tag=f"t{i + 1}", **extra))
    return out


def _snapshot(p):
    return (p.weights.tobytes(), p.previous_weights.tobytes(), np.asarray(p.transaction_costs).tobytes(),
            np.asarray(p.management_fees).tobytes(), p.returns.tobytes(), p.name, p.tag,
            tuple(str(getattr(p, a)) for a in CARRIED))  # fmt: skip


@law(_case(), quick=3000, rule="the expression has at least one operator and a non-zero operand")
def expressions(case):
    from skfolio import PerfMeasure, RiskMeasure

    X = pf.data(case["p"])
    extra = {"fitness_measures": [PerfMeasure.MEAN, RiskMeasure.CVAR]} if case["fit"] else {}
    leaves = _leaves(case, X, extra)
    before = [_snapshot(p) for p in leaves]
    x_before = np.array(X, copy=True)
    got = _eval(case["tree"], leaves)
    w = _eval(case["tree"], [p.weights.copy() for p in leaves])
    check(type(got).__name__ == "Portfolio", "the result is a portfolio")
    check(np.array_equal(got.weights, w), "weights of the expression", got=got.weights, exp=w)
    # every figure equals that of a portfolio built directly with those weights
    direct = pf.build({**case["p"], "w": {"form": "array", "v": w.tolist()}}, X, **extra)
    close(got.returns, direct.returns, "returns of the expression", 1e-12, 1e-15)
    close(got.total_cost, direct.total_cost, "cost of the expression", 1e-12, 1e-15)
    close(got.total_fee, direct.total_fee, "fee of the expression", 1e-12, 1e-15)
    check(list(got.assets) == list(direct.assets), "assets")
    check(np.array_equal(got.observations, direct.observations), "observations")
    for a in CARRIED:
        check(getattr(got, a) == getattr(direct, a), f"parameter {a} is carried over",
              got=getattr(got, a), exp=getattr(direct, a))  # fmt: skip
    for n in ("mean", "cvar", "cdar", "annualized_mean", "semi_deviation"):
        a, b = getattr(got, n), getattr(direct, n)
        check(a == b or np.isclose(a, b, rtol=1e-9, atol=1e-14), f"{n} of the expression", got=a, exp=b)
    check([_snapshot(p) for p in leaves] == before, "an operand changed")
    check(np.array_equal(np.asarray(X), x_before), "the data changed")
    note(case["tree"][0])
    return case["tree"][0] != "p" and bool(np.any(w))


@law(_case(), quick=800, rule="three portfolios with different weights")
def vector_space(case):
    X = pf.data(case["p"])
    a, b, c = _leaves(case, X, {})
    s, t = case["mul"]

    def same(x, y, what):
        close(x.weights, y.weights, what + " (weights)", 1e-9, 1e-12)
        close(x.returns, y.returns, what + " (returns)", 1e-9, 1e-12)

    same(a + b, b + a, "commutativity")
    same((a + b) + c, a + (b + c), "associativity")
    same(s * (a + b), s * a + s * b, "distributivity over portfolios")
    same((s + t) * a, s * a + t * a, "distributivity over numbers")
    same(a - b, a + (-b), "subtraction")
    same(a - b + b, a, "inverse")
    same(-(-a), a, "double negation")
    same(a * s / s, a, "scaling back")
    same(abs(-a), abs(a), "absolute value")
    check(not np.any((a - a).weights), "a - a is empty")
    return bool(np.any(a.weights != b.weights))


DIFF = ["data", "shape", "tc", "mf", "pw", "cvar_beta", "compounded", "risk_free_rate", "fitness", "type"]


@law(
    st.fixed_dictionaries({"c": _case(), "diff": gen.choice(DIFF), "op": gen.choice(["+", "-"]), "swap": st.booleans()}),
    quick=1200,
    rule="every case (operands differ in one respect)",
)
def refusals(case):
    from skfolio import PerfMeasure, RiskMeasure

    c = case["c"]["p"]
    k = c["m"]["k"]
    c["params"] = {}
    X = pf.data(c)
    a = pf.build(c, X)
    d = case["diff"]
    extra, q, X2 = {}, dict(c), X
    match d:
        case "data":
            x2 = np.array(X, dtype=float)
            x2[-1, -1] += 0.01
            X2 = type(X)(x2, index=X.index, columns=X.columns) if hasattr(X, "columns") else x2
        case "shape":
            X2 = X[1:] if not hasattr(X, "columns") else X.iloc[1:]
        case "tc" | "mf":
            v = pf.dense(c[d], k)
            v[-1] += 0.0005
            q[d] = {"form": "array", "v": v.tolist()}
        case "pw":
            v = pf.dense(c[d], k)
            v[-1] += 0.1
            q[d] = {"form": "array", "v": v.tolist()}
        case "cvar_beta":
            extra = {"cvar_beta": 0.8}
        case "compounded":
            extra = {"compounded": True}
        case "risk_free_rate":
            extra = {"risk_free_rate": 0.001}
        case "fitness":
            extra = {"fitness_measures": [PerfMeasure.MEAN, RiskMeasure.CDAR]}
    b = 3.0 if d == "type" else pf.build(q, X2, **extra)
    if case["swap"] and d != "type":
        a, b = b, a
    try:
        out = a + b if case["op"] == "+" else a - b
    except (ValueError, TypeError):
        pass
    else:
        raise Violation(f"portfolios with different {d} were combined: {out!r}")
    for bad in ("2", None, [1.0], a):
        for f in (lambda: a * bad, lambda: a / bad, lambda: a // bad):
            must_raise(f, TypeError, "scaling by something that is not a number")
    note(d)


@law(_case(), quick=800, rule="two periods")
def multi_period(case):
    from skfolio import MultiPeriodPortfolio

    X = gen.frame(case["p"]["m"])
    cut = len(X) // 2
    par = case["p"]["params"]
    parts = [X.iloc[:cut], X.iloc[cut:]]
    leaves = []
    for i in range(3):
        w = case["p"]["w"] if i == 0 else {"form": "array", "v": case["more"][i - 1]}
        sub = [pf.build({**case["p"], "w": w}, q, name=f"s{j}") for j, q in enumerate(parts)]
        leaves.append(MultiPeriodPortfolio(portfolios=sub, name=f"m{i}", tag=f"t{i}", **par))
    got = _eval(case["tree"], leaves)
    check(type(got).__name__ == "MultiPeriodPortfolio" and len(got) == 2, "the result is multi-period")
    w = _eval(case["tree"], [leaf[0].weights.copy() for leaf in leaves])
    rets = []
    for j, q in enumerate(parts):
        d = pf.build({**case["p"], "w": {"form": "array", "v": w.tolist()}}, q)
        check(np.array_equal(got[j].weights, w), "weights of the held portfolio")
        close(got[j].returns, d.returns, "returns of the held portfolio", 1e-12, 1e-15)
        rets.append(d.returns)
    close(got.returns, np.concatenate(rets), "returns of the result", 1e-12, 1e-15)
    for a in CARRIED:
        check(getattr(got, a) == getattr(leaves[0], a), f"parameter {a} is carried over")
    # one factor per period
    by = leaves[0] * case["mul"]
    for j in range(2):
        check(np.array_equal(by[j].weights, case["mul"][j] * leaves[0][j].weights), "factor per period")
    if all(case["mul"]):
        for what, f, g in (("quotient", lambda a, b: a / b, np.true_divide), ("floor quotient", lambda a, b: a // b, np.floor_divide)):
            by = f(leaves[0], case["mul"])
            for j in range(2):
                check(np.array_equal(by[j].weights, g(leaves[0][j].weights, case["mul"][j])), f"{what} per period")
            must_raise(lambda f=f: f(leaves[0], [1.0]), ValueError, "one divisor for two periods")
    must_raise(lambda: leaves[0] + MultiPeriodPortfolio(portfolios=[leaves[1][0]], **par), (TypeError, ValueError),
               "different lengths")  # fmt: skip
    must_raise(lambda: leaves[0] + 1, TypeError, "not a portfolio")
    must_raise(lambda: leaves[0] * [1.0], ValueError, "one factor for two periods")
    return case["tree"][0] != "p"
