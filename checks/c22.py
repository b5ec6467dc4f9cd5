"""C22 Predicted portfolios carry the model's own settings and the new data."""

import copy

import numpy as np
import pandas as pd
from hypothesis import strategies as st

from harness import gen, pf
from harness.core import check, close, law, must_raise, note

ASSUMPTIONS = [
    "the new data has the training assets in the training order (the library does not compare names at prediction)",
    "settings spelled as dictionaries need named columns in the new data too",
]
MODELS = ["mean_risk", "mean_risk", "sweep", "frontier", "budget", "diversification", "drcvar", "hrp", "herc", "equal", "inverse", "random"]
OWN = {  # settings that the model class has
    "mean_risk": ("tc", "mf", "pw", "rf"), "sweep": ("tc", "mf", "pw", "rf"), "frontier": ("tc", "mf", "pw", "rf"),
    "budget": ("tc", "mf", "pw", "rf"), "diversification": ("tc", "mf", "pw", "rf"), "drcvar": ("rf",),
    "hrp": ("tc", "mf", "pw"), "herc": ("tc", "mf", "pw"), "equal": (), "inverse": (), "random": (),
}  # fmt: skip
LONG = {"tc": "transaction_costs", "mf": "management_fees", "pw": "previous_weights", "rf": "risk_free_rate"}


@st.composite
def case_s(draw):
    m = draw(gen.mat(12, 30, 2, 5, kinds=gen.SMOOTH))
    k = m["k"]
    c = {
        "m": m,
        "n2": draw(st.integers(2, 25)),
        "seed": draw(gen.seeds),
        "model": draw(gen.choice(MODELS)),
        "own": {
            "tc": draw(pf.assetwise(k, 0, 0.01, none=False)),
            "mf": draw(pf.assetwise(k, 0, 0.001, 0.0001, none=False)),
            "pw": draw(pf.assetwise(k, 0, 1, 0.1)),
            "rf": draw(gen.choice([0.0, 0.0005, -0.001])),
        },
        "set": draw(gen.subset(["tc", "mf", "pw", "rf"], 0.6)),
        "over": draw(gen.subset(["tc", "mf", "pw", "rf", "name", "tag"], 0.3)),
        "over_v": {
            "tc": draw(pf.assetwise(k, 0, 0.01, none=False)),
            "mf": draw(pf.assetwise(k, 0, 0.001, 0.0001, none=False)),
            "pw": draw(pf.assetwise(k, -1, 1, 0.1)),
            "rf": draw(gen.choice([0.0, 0.002, -0.003])),
        },
        "params": draw(pf.params()),
        "params_none": draw(st.booleans()),
        "df": draw(st.booleans()),
        "extra": draw(gen.choice(pf.NAMES)),
        "how": draw(gen.choice(["predict", "predict", "predict twice", "fit_predict"])),
    }
    c["params"].pop("risk_free_rate", None)
    return c


def make(case, kw):
    from skfolio import RiskMeasure
    from skfolio import optimization as so

    match case["model"]:
        case "mean_risk":
            return so.MeanRisk(**kw)
        case "sweep":
            return so.MeanRisk(min_return=[-0.02, -0.03, -0.04], **kw)
        case "frontier":
            return so.MeanRisk(efficient_frontier_size=3, risk_measure=RiskMeasure.VARIANCE, **kw)
        case "budget":
            return so.RiskBudgeting(**kw)
        case "diversification":
            return so.MaximumDiversification(**kw)
        case "drcvar":
            return so.DistributionallyRobustCVaR(**kw)
        case "hrp":
            return so.HierarchicalRiskParity(**kw)
        case "herc":
            return so.HierarchicalEqualRiskContribution(**kw)
        case "equal":
            return so.EqualWeighted(**kw)
        case "inverse":
            return so.InverseVolatility(**kw)
        case "random":
            return so.Random(**kw)


def snapshot(m):
    return {k: copy.deepcopy(v) for k, v in vars(m).items() if k == "weights_" or not k.endswith("_") and not k.startswith("_")}


def same(a, b):
    if isinstance(a, dict) and isinstance(b, dict):
        return a.keys() == b.keys() and all(same(a[k], b[k]) for k in a)
    if isinstance(a, np.ndarray) or isinstance(b, np.ndarray):
        return np.array_equal(a, b)
    return a == b or a is b or type(a) is type(b) and not isinstance(a, (int, float, str))


@law(case_s(), quick=1200, thorough=12000, rule="the model has settings of its own or portfolio parameters are given")
def predict(case):
    import cvxpy as cp

    from skfolio import Population, Portfolio

    X = gen.frame(case["m"])
    k = case["m"]["k"]
    cols = list(X.columns)
    own = {n: case["own"][n] for n in OWN[case["model"]] if n in case["set"]}
    over = [n for n in case["over"]]
    if case["params_none"]:
        over = []
    named = any(isinstance(v, dict) and v["form"] in ("dict", "partial") for v in [*own.values(), *(case["over_v"][n] for n in over if n in LONG)])
    df = case["df"] or named
    if "pw" in own and case["model"] in ("hrp", "herc", "budget", "diversification"):
        own = {n: v for n, v in own.items() if n not in ("tc",)}  # keeps the risk homogeneous/positive
    put = lambda n, v: v if n == "rf" else pf.spell(v, cols)  # noqa: E731
    kw = {LONG[n]: put(n, v) for n, v in own.items()}
    pp = {}
    if not case["params_none"]:
        pp = {LONG[n]: put(n, case["over_v"][n]) for n in over if n in LONG}
        pp.update({n: f"my {n}" for n in over if n not in LONG})
        pp.update(case["params"])
        kw["portfolio_params"] = pp
    m = make(case, kw)
    x2 = gen.build({**case["m"], "n": case["n2"], "seed": case["seed"]})
    X2 = pd.DataFrame(x2, columns=cols, index=pd.date_range("2031-03-05", periods=len(x2), freq="D"))
    fitX, newX = (X, X2) if df else (X.to_numpy(), X2.to_numpy())
    before_pp = copy.deepcopy(pp)
    np.random.seed(case["seed"] % 2**32)
    try:
        if case["how"] == "fit_predict":
            newX, x2, X2 = fitX, X.to_numpy(), X
            out = m.fit_predict(fitX)
            w = m.weights_.copy()
        else:
            m.fit(fitX)
            w = m.weights_.copy()
            snap = snapshot(m)
            first = m.predict(newX)
            out = m.predict(newX) if case["how"] == "predict twice" else first
            now = snapshot(m)
            check(snap.keys() == now.keys() and all(same(snap[q], now[q]) for q in snap), "predicting changed the model",
                  changed=[q for q in snap if q not in now or not same(snap[q], now[q])])  # fmt: skip
    except cp.SolverError:
        note("solver failure")
        return False
    except ValueError as e:
        if case["model"] == "frontier" and "expected return" in str(e).lower():
            note("frontier refused")
            return False
        raise
    check(same(pp, before_pp), "the portfolio parameters of the caller were changed", before=before_pp, after=pp)
    check(np.array_equal(m.weights_, w), "the weights changed while predicting")
    name = pp.get("name", type(m).__name__)
    if w.ndim == 2:
        check(isinstance(out, Population) and len(out) == len(w), "not one portfolio per row of weights", n=len(w))
        ptfs = list(out)
        for i, p in enumerate(ptfs):
            check(p.name == f"ptf{i} - {name}", "name of a portfolio of a sweep", got=p.name, want=name)
        note("several rows")
    else:
        check(type(out) is Portfolio, "a single row of weights must give a portfolio", got=type(out))
        check(out.name == name, "name of the portfolio", got=out.name, want=name)
        ptfs, w = [out], w[None, :]
    eff = {n: case["own"][n] for n in own}
    eff.update({n: case["over_v"][n] for n in over if n in LONG})
    none = {"form": "none"}
    tc, mf, pw = (pf.dense(eff.get(n, none), k) for n in ("tc", "mf", "pw"))
    rf = eff.get("rf", 0.0)
    for p, row in zip(ptfs, w, strict=True):
        close(p.weights, row, "weights of the portfolio", rtol=0, atol=0)
        want = x2 @ row - np.sum(tc * np.abs(row - pw)) - np.sum(mf * row)
        close(p.returns, want, "returns are not the weights applied to the new data net of the model's costs", rtol=1e-9, atol=1e-12)
        if df:
            check(list(p.assets) == cols and list(p.observations) == list(X2.index), "assets or dates are not those of the data")
        check(p.tag == pp.get("tag"), "tag", got=p.tag)
        check(p.risk_free_rate == rf, "risk-free rate", got=p.risk_free_rate, want=rf)
        for q, v in case["params"].items():
            if not case["params_none"]:
                check(getattr(p, q) == v, "a portfolio parameter given to the model is not on the portfolio", which=q, got=getattr(p, q))
        params = {**(case["params"] if not case["params_none"] else {}), "risk_free_rate": rf}
        if len(want) > 4:
            ok = pf.measure_ok(case["extra"], p.get_measure(pf.by_value()[case["extra"]]), want, params)
            check(ok is not False, "a measure of the predicted portfolio", which=case["extra"])
    return bool(own) or bool(pp)


bad_s = st.fixed_dictionaries({"m": gen.mat(12, 25, 2, 5, kinds=gen.SMOOTH), "model": gen.choice([x for x in MODELS if x != "frontier"]),
                               "by": gen.choice([-1, 1, 2]), "df": st.booleans(), "unfitted": st.booleans()})  # fmt: skip


@law(bad_s, quick=200, thorough=2000, rule="always")
def refused(case):
    X = gen.frame(case["m"])
    m = make(case, {})
    f = (lambda v: v) if case["df"] else (lambda v: v.to_numpy())
    if case["unfitted"]:
        must_raise(lambda: m.predict(f(X)), Exception, "an unfitted model predicts")
        return
    m.fit(f(X))
    k = X.shape[1]
    if case["by"] < 0:
        Z = X.iloc[:, : k - 1]
    else:
        Z = pd.concat([X, X.iloc[:, : case["by"]].add_suffix("bis")], axis=1)
    must_raise(lambda: m.predict(f(Z)), Exception, "data with another number of assets is accepted")


LAWS = [predict, refused]
