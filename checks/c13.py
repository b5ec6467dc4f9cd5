"""C13 No admissible portfolio beats the reported optimum."""

import itertools

import numpy as np
from hypothesis import strategies as st

from harness import gen, opt
from harness.core import Violation, check, close, law, note

ASSUMPTIONS = [
    "a competitor must be admissible to 1e-7 and better by more than 3e-4 relative plus 2e-6 absolute (20 times more when the solver warns of inaccuracy)",
    "mixed-integer problems are solved with a larger objective scale, since the solver stops at an absolute gap",
    "ratio problems are only posed where the risk of every admissible portfolio is positive",
    "competitors: the witness, the solution of an independent formulation, mixtures and pairwise transfers; all judged by numpy definitions",
]


def tol(v, accurate=True):
    return (2e-6 + 3e-4 * abs(v)) * (1 if accurate else 20)


def beat(p, w, cand, accurate, what):
    """Raise when the candidate is admissible and better."""
    if cand is None or not np.all(np.isfinite(cand)) or p.worst_gap(cand)[1] > 1e-7:
        return False
    a, b = p.value(w), p.value(cand)
    if np.isfinite(b) and a > b + tol(a, accurate):
        raise Violation(
            f"{what} is admissible and better: objective {b:.9g} against {a:.9g}; "
            f"weights {np.round(cand, 6).tolist()} against {np.round(w, 6).tolist()}; args {p.kw}"
        )
    return True


def transfers(p, w):
    """Small moves between two assets, away from the optimum."""
    for i, j in itertools.permutations(range(p.k), 2):
        for h in (1e-3, 0.02, 0.2):
            v = w.copy()
            v[i] += h
            v[j] -= h
            yield v


@law(opt.problem(), quick=2000, rule="an admissible competitor other than the witness was compared")
def optimal(case):
    p = opt.Problem(case)
    if not p.well_posed():
        note("ill-posed ratio")
        return False
    model, acc = p.fit()
    if model is None:
        note("solver failure")
        return False
    w = np.asarray(model.weights_)
    if p.worst_gap(w)[1] > 1e-3:
        return False
    beat(p, w, p.w0, acc, "the witness")
    q = p.propose(w)
    done = beat(p, w, q, acc, "a competitor")
    if q is not None:
        beat(p, w, 0.5 * (w + q), acc, "a mixture")
    if case["risk"] not in opt.EXP:
        for v in transfers(p, w):
            beat(p, w, v, acc, "a transfer between two assets")
    note(case["obj"])
    note(case["risk"])
    return done


@law(opt.problem(custom=True), quick=500, rule="a competitor other than the witness was compared and a custom term is present")
def custom(case):
    """Custom terms of the objective, of the expected return and custom constraints."""
    p = opt.Problem(case)
    if not p.well_posed():
        note("ill-posed ratio")
        return False
    model, acc = p.fit()
    if model is None:
        note("solver failure")
        return False
    w = np.asarray(model.weights_)
    lab, gap = p.worst_gap(w)
    check(gap <= 1e-3 or lab != "custom constraint", "the custom constraint is honoured", excess=gap, w=w, args=p.kw)
    if gap > 1e-3:
        return False
    beat(p, w, p.w0, acc, "the witness")
    q = p.propose(w)
    done = beat(p, w, q, acc, "a competitor")
    v = model.problem_values_
    t = 20 * tol(p.er(w), acc)
    check(abs(float(v["expected_return"]) - p.er(w)) <= t, "reported expected return", got=v, exp=p.er(w))
    t = 20 * tol(p.reg(w), acc)
    check(abs(float(v["regularization"]) - p.reg(w)) <= t, "reported regularization", got=v, exp=p.reg(w))
    for o in case["custom"]:
        note(o)
    note(case["obj"])
    return done and bool(np.any(p.d) or p.alpha is not p.mu or p.row is not None or case["l1"])


@law(opt.problem(mip=True, max_k=4, risks=["variance", "standard_deviation", "cvar", "mean_absolute_deviation"], max_n=14,
                 limits=False, long_only=True), quick=64, rule="at least two admissible supports compared")  # fmt: skip
def mixed_integer(case):
    for c in ("turnover", "lhs", "groups", "linear"):
        case["cons"].pop(c, None)
    p = opt.Problem(case)
    if not p.well_posed():
        return False
    model, acc = p.fit(scale_objective=1000.0)
    if model is None:
        note("solver failure")
        return False
    w = np.asarray(model.weights_)
    if p.worst_gap(w)[1] > 1e-3:
        return False
    n = 0
    for size in range(1, p.k + 1):
        for sup in itertools.combinations(range(p.k), size):
            q = p.propose(w, support=list(sup))
            if q is not None:
                q = np.where(np.isin(np.arange(p.k), sup), q, 0.0)
                if np.isfinite(p.value(q)) and p.worst_gap(q)[1] < 1e-7:
                    n += 1
                    a, b = p.value(w), p.value(q)
                    check(a <= b + 5e-6 + 2e-3 * abs(a), f"support {sup} is better", got=a, exp=b, w=w, q=q, args=p.kw)
    note(case["obj"])
    return n >= 2


@law(st.fixed_dictionaries({"m": gen.mat(20, 60, 2, 5, kinds=gen.SMOOTH), "drift": gen.choice([0.0, 0.004]),
                            "ra": gen.choice([0.5, 1.0, 4.0]), "rf": gen.choice([0.0, 0.001])}),
     quick=300, rule="every case")  # fmt: skip
def closed_forms(case):
    from skfolio import RiskMeasure
    from skfolio.optimization import MeanRisk, ObjectiveFunction

    X = gen.frame(case["m"]) + case["drift"]
    k = case["m"]["k"]
    mu, cov = X.mean().to_numpy(), X.cov().to_numpy()
    inv = np.linalg.inv(cov)
    one = np.ones(k)
    free = dict(min_weights=None, max_weights=None)
    cond = np.linalg.cond(cov)
    if cond > 1e3:
        return False
    w = MeanRisk(risk_measure=RiskMeasure.VARIANCE, **free).fit(X).weights_
    close(w, inv @ one / (one @ inv @ one), "minimum variance", 1e-3, 1e-3)
    # maximum utility mu.w - ra w'Sw with a full budget
    lam = (one @ inv @ mu - 2 * case["ra"]) / (one @ inv @ one)
    exp = inv @ (mu - lam * one) / (2 * case["ra"])
    w = MeanRisk(objective_function=ObjectiveFunction.MAXIMIZE_UTILITY, risk_aversion=case["ra"], **free).fit(X).weights_
    close(w, exp, "maximum utility", 1e-3, 1e-3 * max(1, np.abs(exp).max()))
    # tangency portfolio, when it is long-only and so also the bounded optimum
    t = inv @ (mu - case["rf"])
    if np.all(t > 1e-6) and mu @ t / t.sum() > case["rf"] + 1e-4:
        t = t / t.sum()
        w = MeanRisk(objective_function=ObjectiveFunction.MAXIMIZE_RATIO, risk_free_rate=case["rf"]).fit(X).weights_
        close(w, t, "tangency portfolio", 1e-3, 2e-3)
        note("tangency")
    w = MeanRisk(objective_function=ObjectiveFunction.MAXIMIZE_RETURN).fit(X).weights_
    srt = np.sort(mu)
    if srt[-1] - srt[-2] > 1e-5:
        close(w, (mu == mu.max()).astype(float), "maximum return", 1e-3, 2e-3)
    return True
