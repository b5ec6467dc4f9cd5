"""C12 Convex optimizers return weights satisfying every constraint."""

import warnings

import numpy as np
from hypothesis import strategies as st

from harness import gen, opt
from harness.core import Violation, check, law, note

ASSUMPTIONS = [
    "tolerances: 2e-5 on weights and linear forms, 2e-4 relative (2e-3 for variances) on risk, return and tracking limits (20 times looser when the solver itself warns of inaccuracy)",
    "EVaR is judged without transaction costs (documented relaxation)",
]

TOL = {True: (2e-5, 2e-4), False: (4e-4, 4e-3)}


def _tightens(p, gap):
    """A small excess over a risk limit is the solver's when the excess vanishes as
    the documented constraint scale is raised (feasible sets without interior)."""
    for scale in (10.0, 100.0, 1000.0):
        m, _ = p.fit(scale_constraints=scale)
        if m is not None and p.worst_gap(np.asarray(m.weights_))[1] < gap / 2:
            return True
    return False


def judge(p, w, accurate):
    check(w.shape == (p.k,) and np.all(np.isfinite(w)), "weights are finite")
    for label, gap in p.gaps(w).items():
        tw, tr = TOL[bool(accurate)]
        rel = label.startswith("max_") and label[4:] in opt.RISKS or label in ("max_tracking_error", "min_return")
        if label in ("max_variance", "max_semi_variance"):
            tr *= 10  # of the order of 1e-5: the solver's absolute tolerance shows
        if gap > (tr if rel else tw):
            if rel and gap < 0.02 and _tightens(p, gap):
                note("loosely solved at the default scale")
                continue
            raise Violation(f"constraint {label} exceeded by {gap:.3g}; weights {w.tolist()} args {p.kw}")


def _slacks(v):
    if isinstance(v, list):
        return [x for e in v for x in _slacks(e)]
    return [v] if isinstance(v, float) else []


def _refused(p, case):
    """A refusal counts only if the problem has room (no limit is placed exactly at
    the witness), needs no exponential cone, and no change of tolerance or scale makes
    the solver succeed: otherwise it is the solver that failed."""
    used = {case["risk"], *[r for r, _ in case["cons"].get("risk_limit", [])]}
    if used & opt.EXP or min([1.0, *_slacks(list(case["cons"].values()))]) < 0.02:
        return False
    if any(v[0] == "==" for k, v in case["cons"].items() if k == "groups"):
        return False
    for extra in ({"solver_params": {}}, {"scale_constraints": 1.0, "scale_objective": 1.0}, {"scale_constraints": 50.0},
                  {"scale_objective": 100.0, "solver_params": {}}):  # fmt: skip
        if p.fit(**extra)[0] is not None:
            return False
    q = p.propose(p.w0)
    return q is not None and p.worst_gap(q)[1] < 1e-6


@law(opt.problem(), quick=3000, rule="at least one constraint besides the default bounds is within 1% of binding")
def feasible(case):
    p = opt.Problem(case)
    if not p.well_posed():
        note("ill-posed ratio")
        return False
    model, acc = p.fit()
    if model is None:
        note("solver failure")
        check(not _refused(p, case), "a feasible problem was refused", err=acc, witness=p.w0, args=p.kw)
        return False
    judge(p, np.asarray(model.weights_), acc)
    for kk in case["cons"]:
        note(kk)
    note(case["obj"])
    g = p.gaps(np.asarray(model.weights_))
    binding = [a for a, v in g.items() if a not in ("budget", "min_weights") and v > -1e-2]
    return bool(binding)


@law(opt.problem(mip=True, max_k=4, risks=["variance", "standard_deviation", "cvar", "mean_absolute_deviation", "worst_realization"],
                 max_n=16, limits=False), quick=160, rule="every solved mixed-integer problem")  # fmt: skip
def mixed_integer(case):
    case["cons"].pop("turnover", None)
    case["cons"].pop("lhs", None)
    p = opt.Problem(case)
    model, acc = p.fit()
    if model is None:
        note("solver failure")
        return False
    judge(p, np.asarray(model.weights_), acc)
    for kk in case["mip"]:
        note(kk)
    note(case["obj"])
    return True


@law(st.fixed_dictionaries({"m": gen.mat(12, 20, 3, 6, kinds=gen.SMOOTH), "seed": gen.seeds, "obj": gen.choice(["max_return", "max_utility", "max_return", "max_ratio"]),
                            "groups": st.booleans(), "card": st.integers(0, 4), "tl": gen.choice([0.05, 0.2, 0.35, 0.0]), "ts": gen.choice([0.0, -0.05, -0.2]),
                            "lo": gen.choice([-0.3, -0.6]), "per_asset": st.booleans()}),
     quick=240, rule="the solution holds long and short positions and a count limit is attained")  # fmt: skip
def signed_integer(case):
    """Count limits and thresholds with positions of both signs, against all sign patterns."""
    import itertools

    from skfolio import RiskMeasure
    from skfolio.optimization import MeanRisk, ObjectiveFunction

    X = gen.frame(case["m"])
    k = X.shape[1]
    cols = list(X.columns)
    rng = gen.rng_of(case["seed"])
    X = X - X.mean() + rng.permutation(np.linspace(-0.004, 0.008, k))
    mu = X.to_numpy().mean(axis=0)
    lo, hi = np.full(k, case["lo"]), np.full(k, 1.0)
    tl, ts = np.full(k, case["tl"]), np.full(k, case["ts"])
    kw = {"threshold_long": case["tl"], "threshold_short": case["ts"]}
    if case["per_asset"]:
        tl = np.round(tl * rng.uniform(0.5, 1, k), 3)
        kw["threshold_long"] = dict(zip(cols, tl.tolist(), strict=True))
    groups = np.array([f"G{i}" for i in rng.integers(0, 2, k)])
    limits = {}
    if case["groups"] or not case["card"]:
        limits = {g: int(rng.integers(1, 3)) for g in sorted(set(groups))}
        kw |= {"groups": [groups.tolist(), cols], "group_cardinalities": limits}
    if case["card"]:
        kw["cardinality"] = case["card"]
    best = None
    for state in itertools.product((0, 1, -1), repeat=k):
        st_ = np.array(state)
        if case["card"] and np.count_nonzero(st_) > case["card"]:
            continue
        if any(np.count_nonzero(st_[groups == g]) > m for g, m in limits.items()):
            continue
        a = np.where(st_ == 1, tl, np.where(st_ == -1, lo, 0.0))
        b = np.where(st_ == 1, hi, np.where(st_ == -1, ts, 0.0))
        if np.any(a > b) or a.sum() > 1 or b.sum() < 1:
            continue
        w, left = a.copy(), 1 - a.sum()
        for i in np.argsort(-mu):
            d = min(left, b[i] - a[i])
            w[i] += d
            left -= d
        if best is None or mu @ w > mu @ best:
            best = w
    if best is None or (case["obj"] == "max_ratio" and mu @ best < 1e-3):
        return False
    obj = {"max_return": ObjectiveFunction.MAXIMIZE_RETURN, "max_utility": ObjectiveFunction.MAXIMIZE_UTILITY, "max_ratio": ObjectiveFunction.MAXIMIZE_RATIO}[case["obj"]]
    import cvxpy as cp

    model = MeanRisk(objective_function=obj, risk_measure=RiskMeasure.STANDARD_DEVIATION if case["obj"] == "max_ratio" else RiskMeasure.VARIANCE,
                     min_weights=case["lo"], max_weights=1.0, solver="SCIP", scale_objective=1000.0 if case["obj"] == "max_return" else None,
                     solver_params={"scip_params": {"numerics/feastol": 1e-8, "limits/gap": 1e-8, "limits/totalnodes": 4000, "limits/time": 12.0}}, **kw)  # fmt: skip
    with warnings.catch_warnings():
        warnings.simplefilter("ignore")
        try:
            model.fit(X)
        except cp.SolverError:
            note("solver failure")
            return False
    w = np.asarray(model.weights_)
    nz = np.abs(w) > 1e-5
    check(abs(w.sum() - 1) < 1e-4 and np.all(w >= lo - 1e-4) and np.all(w <= 1 + 1e-4), "budget and bounds", w=w)
    check(not case["card"] or nz.sum() <= case["card"], "cardinality", w=w, args=kw)
    for g, m in limits.items():
        check(nz[groups == g].sum() <= m, f"cardinality of {g}", w=w, args=kw)
    check(np.all(w[w > 1e-5] >= tl[w > 1e-5] - 1e-4), "threshold of long positions", w=w, args=kw)
    check(np.all(w[w < -1e-5] <= ts[w < -1e-5] + 1e-4), "threshold of short positions", w=w, args=kw)
    if case["obj"] == "max_return":
        check(mu @ w >= mu @ best - 1e-5, "a pattern of signs with a larger return is admissible", got=float(mu @ w), exp=float(mu @ best), w=w, other=best, args=kw)
    note(case["obj"])
    full = (case["card"] and nz.sum() == case["card"]) or any(nz[groups == g].sum() == m for g, m in limits.items())
    return bool(np.any(w < -1e-4) and np.any(w > 1e-4) and full)


IMPOSSIBLE = ["bounds", "linear", "return", "risk", "short", "turnover"]


@law(st.fixed_dictionaries({"p": opt.problem(constraints=False, objectives=["min_risk", "max_utility", "max_return", "max_ratio"],
                                             long_only=True, risks=["variance", "cvar", "semi_deviation", "mean_absolute_deviation"]),
                            "how": gen.choice(IMPOSSIBLE), "raise": st.booleans()}),
     quick=500, rule="every case (the problem is infeasible)")  # fmt: skip
def infeasible(case):
    import cvxpy as cp

    p = opt.Problem(case["p"])
    k = p.k
    match case["how"]:
        case "bounds":
            extra = {"min_weights": 0.0, "max_weights": 0.9 / k}
        case "linear":
            extra = {"linear_constraints": ["A0 >= 0.6", "A1 >= 0.5"]}
        case "return":
            extra = {"min_return": float(np.max(p.mu)) + 0.05}
        case "risk":
            extra = {"max_variance": float(1 / np.sum(np.linalg.pinv(p.cov))) * 0.2, "max_weights": 1.0}
        case "short":
            extra = {"max_long": 0.5}
        case "turnover":
            extra = {"max_turnover": 0.1 / k, "previous_weights": np.zeros(k)}
    try:
        m = p.model(raise_on_failure=case["raise"], **extra)
        with warnings.catch_warnings(record=True) as got:
            warnings.simplefilter("always")
            m.fit(p.X, p.y)
    except cp.SolverError:
        check(case["raise"], "raised although asked not to")
        note("raised")
        return True
    if any("inaccurate" in str(g.message) for g in got):
        note("returned with the inaccuracy warning")
        return False
    check(not case["raise"], "an infeasible problem returned weights", w=m.weights_, args=extra)
    check(np.all(np.isnan(np.asarray(m.weights_, dtype=float))), "a failed problem has no weights", w=m.weights_)
    note("recorded")
    return True
