"""C11 Results do not depend on how inputs are spelled or ordered."""

import warnings

import numpy as np
import pandas as pd
from hypothesis import strategies as st

from harness import gen
from harness.core import check, close, law, must_raise, note

ASSUMPTIONS = [
    "different spellings describe the same numbers, so weights agree to 1e-6 (5e-3 between a scalar and an array, which the solver sees as different formulations)",
    "column permutation is tested where the optimum is unique (variance-type objectives, allocation rules): tolerance 2e-3 on weights",
    "hierarchical risk parity bisects an ordered leaf list, so it is not compared under permutation",
]
CONVEX = ["min_variance", "utility", "ratio", "budget", "diversification", "robust"]
TREE = ["hrp", "herc"]
PARAMS = ["min_weights", "max_weights", "transaction_costs", "management_fees", "previous_weights"]


def make(kind, kw):
    from skfolio import RiskMeasure
    from skfolio import optimization as o

    kw = dict(kw)
    if kind in ("diversification", "robust"):
        for a in ("transaction_costs", "management_fees", "previous_weights"):
            kw.pop(a, None)
    match kind:
        case "min_variance":
            return o.MeanRisk(**kw)
        case "utility":
            return o.MeanRisk(objective_function=o.ObjectiveFunction.MAXIMIZE_UTILITY, risk_aversion=20, **kw)
        case "ratio":
            return o.MeanRisk(objective_function=o.ObjectiveFunction.MAXIMIZE_RATIO, **kw)
        case "budget":
            return o.RiskBudgeting(**kw)
        case "diversification":
            return o.MaximumDiversification(**kw)
        case "robust":
            return o.DistributionallyRobustCVaR(wasserstein_ball_radius=0.01, cvar_beta=0.8, **kw)
        case "hrp":
            return o.HierarchicalRiskParity(risk_measure=RiskMeasure.CVAR, **kw)
        case "herc":
            return o.HierarchicalEqualRiskContribution(risk_measure=RiskMeasure.CVAR, **kw)
        case "equal":
            return o.EqualWeighted()
        case "invvol":
            return o.InverseVolatility()


def values(case, k, rng):
    """Asset-wise parameters, feasible together."""
    out = {}
    for p in case["params"]:
        const = case["const"]
        match p:
            case "min_weights":
                v = np.round(rng.uniform(0, 0.7 / k, k), 3)
            case "max_weights":
                v = np.round(np.minimum(1, rng.uniform(1.4 / k, 2.5 / k, k)), 3)
            case "transaction_costs" | "management_fees":
                v = np.round(rng.uniform(0, 0.002, k), 5)
            case "previous_weights":
                v = np.round(rng.dirichlet(np.ones(k)), 3)
        out[p] = np.full(k, v[0]) if const else v
    z = case.get("zero")
    if z is not None and "max_weights" in out and not const and k > 2 and case["kind"] != "budget":
        # one asset is excluded altogether, the others keep room for the whole budget
        out["max_weights"] = np.minimum(1, out["max_weights"] * 1.5)
        out["max_weights"][z % k] = 0.0
        if "min_weights" in out:
            out["min_weights"][z % k] = 0.0
        note("excluded asset")
    if case.get("rb"):
        out["risk_budget"] = np.round(rng.uniform(0.2, 1, k), 3)
    return out


DEFAULT = {"min_weights": 0.0, "max_weights": 1.0, "transaction_costs": 0.0, "management_fees": 0.0, "previous_weights": 0.0}


def spell(v, form, cols, name):
    match form:
        case "array":
            return v.copy()
        case "list":
            return v.tolist()
        case "dict":
            return dict(zip(cols, v.tolist(), strict=True))
        case "reversed":
            return dict(reversed(list(zip(cols, v.tolist(), strict=True))))
        case "series":
            return pd.Series(v).to_numpy()
        case "scalar":
            return float(v[0])
        case "sparse":
            return {c: float(x) for c, x in zip(cols, v, strict=True) if x != DEFAULT[name]}


def fit(model, X):
    with warnings.catch_warnings():
        warnings.simplefilter("ignore")
        return np.asarray(model.fit(X).weights_)


case_s = st.fixed_dictionaries(
    {
        "m": gen.mat(20, 40, 2, 5, kinds=gen.SMOOTH),
        "kind": gen.choice(CONVEX + TREE),
        "params": gen.subset(PARAMS, 0.5),
        "seed": gen.seeds,
        "const": gen.choice([False, False, True]),
        "form": gen.choice(["list", "dict", "reversed", "sparse", "scalar"]),
        "array_X": st.booleans(),
        "zero": gen.choice([None, 0, 1, 2]),
    }
)


@law(case_s, quick=700, rule="an asset-wise parameter is spelled in two ways")
def spelling(case):
    k = case["m"]["k"]
    X = gen.frame(case["m"]) + (0.0 if case["kind"] in TREE else 0.003)
    cols = list(X.columns)
    rng = gen.rng_of(case["seed"])
    case = dict(case, rb=case["kind"] == "budget")
    kw = values(case, k, rng)
    form = case["form"]
    if form == "scalar" and (not case["const"] or case["kind"] == "robust"):
        form = "dict"
    if form == "sparse":
        # zero (or the default) on some assets
        for p in kw:
            if p in DEFAULT:
                drop = rng.uniform(size=k) < 0.5
                kw[p] = np.where(drop, DEFAULT[p], kw[p])
    import cvxpy as cp

    try:
        a = fit(make(case["kind"], kw), X)
    except cp.SolverError:
        note("solver failure")
        return False
    alt = {p: spell(v, form if p in DEFAULT else ("dict" if form in ("sparse", "scalar") else form), cols, p) for p, v in kw.items()}
    b = fit(make(case["kind"], alt), X)
    # a scalar is another formulation of the same problem
    t = 5e-3 if form == "scalar" else 1e-6
    close(a, b, f"{case['kind']} with {form}", t, t, args=alt)
    if case["array_X"]:
        c = fit(make(case["kind"], kw), X.to_numpy())
        close(a, c, f"{case['kind']} on an array", 1e-6, 1e-6, args=kw)
        note("array X")
    # prediction accepts the same spelling
    pa = make(case["kind"], kw)
    pa.fit(X)
    pb = make(case["kind"], alt)
    pb.fit(X)
    close(pa.predict(X).returns, pb.predict(X).returns, "predicted returns", t, t * 0.05)
    note(case["kind"])
    note(form)
    return bool(kw)


@law(st.fixed_dictionaries({"m": gen.mat(24, 40, 3, 6, kinds=gen.SMOOTH), "kind": gen.choice(["min_variance", "utility", "ratio", "budget", "diversification", "herc", "equal", "invvol"]),
                            "params": gen.subset(PARAMS, 0.4), "seed": gen.seeds, "const": st.just(False), "dict": st.booleans(),
                            "lin": st.booleans()}),
     quick=600, rule="the permutation is not the identity")  # fmt: skip
def permutation(case):
    import cvxpy as cp

    k = case["m"]["k"]
    X = gen.frame(case["m"]) + (0.0 if case["kind"] in TREE else 0.003)
    cols = list(X.columns)
    rng = gen.rng_of(case["seed"])
    case = dict(case, rb=case["kind"] == "budget")
    kw = values(case, k, rng)
    perm = rng.permutation(k)
    Y = X.iloc[:, perm]
    if np.linalg.cond(X.cov()) > 1e4:
        return False
    extra = {}
    if case["lin"] and case["kind"] in CONVEX:
        extra["linear_constraints"] = [f"{cols[0]} <= 0.7 * {cols[1]} + 0.3", "G >= 0.25"]
        extra["groups"] = {c: ["G" if i % 2 else "H"] for i, c in enumerate(cols)}
    one = {p: dict(zip(cols, v.tolist(), strict=True)) for p, v in kw.items()} if case["dict"] else kw
    two = one if case["dict"] else {p: v[perm] for p, v in kw.items()}
    try:
        a = fit(make(case["kind"], one | extra), X)
        b = fit(make(case["kind"], two | extra), Y)
    except cp.SolverError:
        note("solver failure")
        return False
    close(a[perm], b, f"{case['kind']} after permuting the assets", 2e-3, 2e-3, args=one | extra, perm=perm)
    note(case["kind"])
    return not np.array_equal(perm, np.arange(k))


@law(st.fixed_dictionaries({"m": gen.mat(20, 30, 3, 6, kinds=gen.SMOOTH), "g": st.lists(st.integers(0, 2), min_size=6, max_size=6),
                            "bound": st.integers(1, 9), "op": gen.choice([">=", "<="]), "extra": st.booleans(), "kind": gen.choice(CONVEX)}),
     quick=300, rule="the group has members and the constraint binds or excludes the unconstrained optimum")  # fmt: skip
def groups(case):
    import cvxpy as cp

    k = case["m"]["k"]
    X = gen.frame(case["m"]) + (0.0 if case["kind"] in TREE else 0.003)
    cols = list(X.columns)
    g = [f"g{v}" for v in case["g"][:k]]
    first = g[0]
    eq = [f"{first} {case['op']} {case['bound'] / 10}"]
    if all(v == first for v in g):
        return False
    table = [cols, g] if case["extra"] else [g]
    spelled = [np.array(table), table, {c: [v] for c, v in zip(cols, g, strict=True)}, {c: v for c, v in zip(cols, g, strict=True)}]
    out = []
    for s in spelled:
        try:
            out.append(fit(make(case["kind"], {"groups": s, "linear_constraints": eq}), X))
        except cp.SolverError:
            note("solver failure")
            return False
    for w in out[1:]:
        close(out[0], w, f"groups as a {type(s).__name__}", 1e-6, 1e-6)
    mem = np.array([v == first for v in g])
    tot = out[0][mem].sum()
    b = case["bound"] / 10
    check(tot >= b - 1e-4 if case["op"] == ">=" else tot <= b + 1e-4, "the group constraint holds", total=tot, eq=eq)
    free = fit(make(case["kind"], {}), X)
    note(case["kind"])
    return bool(np.abs(free - out[0]).max() > 1e-4)


@law(st.fixed_dictionaries({"m": gen.mat(20, 30, 2, 5, kinds=gen.SMOOTH), "kind": gen.choice(CONVEX + TREE), "param": gen.choice(PARAMS + ["risk_budget"]),
                            "how": gen.choice(["long", "short", "matrix", "nan", "dict_array", "dict_nan"])}),
     quick=300, rule="every case")  # fmt: skip
def refusals(case):
    k = case["m"]["k"]
    X = gen.frame(case["m"]) + (0.0 if case["kind"] in TREE else 0.003)
    cols = list(X.columns)
    p, kind = case["param"], case["kind"]
    if p == "risk_budget":
        kind = "budget"
    if p not in ("min_weights", "max_weights") and kind in ("diversification", "robust"):
        kind = "min_variance"
    base = {"min_weights": 0.01, "max_weights": 0.9, "transaction_costs": 0.001, "management_fees": 0.001, "previous_weights": 0.1, "risk_budget": 0.5}[p]
    v = np.full(k, base)
    bad, XX = v, X
    match case["how"]:
        case "long":
            bad = np.append(v, base)
        case "short":
            bad = v[:-1]
        case "matrix":
            bad = np.vstack([v, v])
        case "nan":
            bad = v.copy()
            bad[-1] = np.nan
        case "dict_array":
            bad, XX = dict(zip(cols, v.tolist(), strict=True)), X.to_numpy()
        case "dict_nan":
            bad = dict(zip(cols, v.tolist(), strict=True))
            bad[cols[0]] = np.nan
    kw = {p: bad}
    if p == "previous_weights":
        kw["transaction_costs"] = 0.001
    must_raise(lambda: fit(make(kind, kw), XX), ValueError, f"{kind}: {p} given as {case['how']}")
    note(kind)
    return True
