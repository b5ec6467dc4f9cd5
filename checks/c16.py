"""C16 Risk budgeting delivers the requested risk budget."""

import warnings

import numpy as np
from hypothesis import strategies as st

from harness import gen, opt
from harness.core import check, close, law, note

ASSUMPTIONS = [
    "no transaction costs (they are not proportional to the weights, so contributions do not add up)",
    "the measure is positive on every long portfolio of the sample, otherwise the problem has no solution",
    "contributions are compared with the one-sided directional derivatives of the measure: 2% of the total risk (5% for entropic measures)",
    "no long-only portfolio has a smaller risk for the same weighted geometric mean of weights: 1e-3 relative",
]
SUP = [r for r in opt.RISKS]


def fit(case, X, rb, **kw):
    import cvxpy as cp

    from skfolio import RiskMeasure
    from skfolio.optimization import RiskBudgeting

    betas = {f"{t}_beta": opt.beta_of(case, t) for t in opt.TAILS}
    m = RiskBudgeting(risk_measure=RiskMeasure(case["risk"]), risk_budget=rb, **betas,
                      min_acceptable_return=case["mar"], management_fees=case["mf"], **kw)  # fmt: skip
    with warnings.catch_warnings(record=True) as rec:
        warnings.simplefilter("always")
        try:
            m.fit(X)
        except cp.SolverError:
            note("solver failure")
            return None
    if any("inaccurate" in str(r.message) for r in rec):
        note("solver reports inaccurate")
        return None
    return m


case_s = st.fixed_dictionaries(
    {
        "m": gen.mat(14, 40, 2, 5, kinds=gen.SMOOTH),
        "risk": gen.choice(SUP),
        "beta": gen.choice([0.75, 0.9, 0.95]),
        "rb": gen.choice(["none", "array", "dict", "array"]),
        "seed": gen.seeds,
        "small": gen.choice(["no", "no", "share", "zero"]),
        "mar": gen.choice([None, None, 0.001]),
        "mf": gen.choice([0.0, 0.0, 0.0005]),
    }
)


class Setup:
    def __init__(self, case, zero=False):
        if case["risk"] == "mean_absolute_deviation":
            case = dict(case, mar=None)  # a target other than the mean is no absolute deviation
        self.c = case
        k = self.k = case["m"]["k"]
        self.X = gen.frame(case["m"])
        self.x = self.X.to_numpy()
        rng = gen.rng_of(case["seed"])
        self.b = np.ones(k) if case["rb"] == "none" else np.round(rng.uniform(0.1, 1.0, k), 3)
        self.zero = False
        if case["small"] != "no" and case["rb"] != "none":
            # an asset without budget holds (almost) nothing
            self.zero = case["small"] == "zero" and zero
            self.b[int(rng.integers(k))] = 0.0 if self.zero else 0.03
            note("zero share" if self.zero else "small share")
        cols = list(self.X.columns)
        # in a dictionary, an asset that is left out has no budget
        named = {a: v for a, v in zip(cols, self.b.tolist(), strict=True) if v}
        self.rb = {"none": None, "array": self.b.copy(), "dict": named}[case["rb"]]
        self.rng = rng

    def risk(self, w):
        """The measure, always homogeneous of degree one."""
        c = self.c
        name = {"variance": "standard_deviation", "semi_variance": "semi_deviation"}.get(c["risk"], c["risk"])
        net = self.x @ w - c["mf"] * w.sum()
        return opt.risk(name, self.x, w, net, opt.beta_of(c, name), None if c["mar"] is None else c["mar"] * w.sum(), evar_net=net)

    def bounded(self):
        s = np.vstack([np.eye(self.k), self.rng.dirichlet(np.ones(self.k), 40), np.ones(self.k) / self.k])
        r = np.array([self.risk(v) for v in s])
        return r.min() > 0.05 * np.median(r)

    def score(self, w):
        """log risk minus the budget-weighted log weights: scale free, minimal at the solution."""
        return float(np.log(self.risk(w)) - (self.b / self.b.sum()) @ np.log(w))


@law(case_s, quick=1100, rule="the budget is not uniform or the measure is not the variance")
def contributions(case):
    s = Setup(case, zero=case["risk"] not in opt.EXP)
    if not s.bounded():
        note("unbounded")
        return False
    m = fit(s.c, s.X, s.rb)
    if m is None:
        return False
    w = np.asarray(m.weights_)
    check(w.shape == (s.k,) and np.all(w > 0), "strictly positive weights", w=w)
    check(abs(w.sum() - 1) < 1e-5, "weights sum to one", got=w.sum())
    rho = s.risk(w)
    if rho < 0.02 * np.median([s.risk(v) for v in np.eye(s.k)]):
        note("unbounded")
        return False
    want = s.b / s.b.sum()
    exp = case["risk"] in opt.EXP
    tol = 0.05 if exp else 0.02
    for i in range(s.k):
        h = 1e-4 * max(w[i], 1e-3)
        e = np.zeros(s.k)
        e[i] = h
        up, down = (s.risk(w + e) - rho) / h, (rho - s.risk(w - e)) / h
        lo, hi = w[i] * min(up, down) / rho, w[i] * max(up, down) / rho
        if want[i] == 0:
            check(lo - 1e-3 <= 0 <= hi + 1e-3, f"asset {i} has no risk budget", between=(lo, hi), w=w, budget=s.b)
            continue
        check(lo - tol <= want[i] <= hi + tol, f"risk contribution of asset {i}", between=(lo, hi), requested=want[i], w=w, budget=s.b)
    # smooth measures: the contribution itself
    if case["risk"] in ("variance", "standard_deviation"):
        cov = np.cov(s.x.T)
        rc = w * (cov @ w)
        close(rc / rc.sum(), want, "variance contributions", 1e-2, 2e-3)
        note("closed form")
    if s.zero:
        note(case["risk"])
        return True
    base = s.score(w)
    cands = [want, np.ones(s.k) / s.k, *(w * np.exp(s.rng.normal(0, t, s.k)) for t in (0.02, 0.1, 0.1, 0.5))]
    for v in cands:
        check(base <= s.score(v) + (3e-3 if exp else 1e-3), "another portfolio has less risk for the same barrier", got=base, exp=s.score(v), w=w, other=v)
    note(case["risk"])
    return case["rb"] != "none" or case["risk"] != "variance"


@law(st.fixed_dictionaries({"c": case_s, "t": gen.choice([0.1, 0.5, 3.0]), "what": gen.choice(["scale", "permute", "risk"])}),
     quick=300, rule="every solved case")  # fmt: skip
def relations(case):
    c = dict(case["c"], rb="array" if case["c"]["rb"] == "dict" else case["c"]["rb"])
    if c["risk"] in opt.EXP:
        c["risk"] = "variance"
    s = Setup(c)
    c = s.c
    if not s.bounded():
        return False
    m = fit(c, s.X, s.rb)
    if m is None:
        return False
    w = np.asarray(m.weights_)
    if s.risk(w) < 0.02 * np.median([s.risk(v) for v in np.eye(s.k)]):
        return False
    # piecewise-linear measures may have several solutions: compare scores
    exact = c["risk"] in ("variance", "standard_deviation", "semi_variance", "semi_deviation")
    match case["what"]:
        case "scale":
            m2 = fit(c, s.X, s.b * case["t"])
            if m2 is None:
                return False
            w2 = np.asarray(m2.weights_)
        case "permute":
            perm = s.rng.permutation(s.k)
            m2 = fit(c, s.X.iloc[:, perm], None if s.rb is None else s.rb[perm])
            if m2 is None:
                return False
            w2 = np.empty(s.k)
            w2[perm] = m2.weights_
        case "risk":
            # a multiple of the returns is the same problem
            s2 = Setup(c)
            m2 = fit(dict(c, mf=c["mf"] * case["t"], mar=None if c["mar"] is None else c["mar"] * case["t"]), s2.X * case["t"], s.rb)
            if m2 is None:
                return False
            w2 = np.asarray(m2.weights_)
    if np.any(w2 <= 0):
        check(False, "strictly positive weights", w=w2)
    check(abs(s.score(w) - s.score(w2)) < 1e-3, f"same solution ({case['what']})", one=w, two=w2)
    if exact:
        close(w, w2, f"same weights ({case['what']})", 1e-2, 3e-3)
    note(case["what"])
    return True


@law(st.fixed_dictionaries({"c": case_s, "how": gen.choice(["bounds", "linear", "return", "array", "custom"]), "tight": st.integers(1, 9)}),
     quick=300, rule="the limit excludes the unconstrained solution")  # fmt: skip
def limits(case):
    c = dict(case["c"])
    if c["risk"] in opt.EXP:
        c["risk"] = "cvar"
    s = Setup(c)
    c = s.c
    if not s.bounded():
        return False
    free = fit(c, s.X, s.rb)
    if free is None:
        return False
    f = np.asarray(free.weights_)
    if s.risk(f) < 0.02 * np.median([s.risk(v) for v in np.eye(s.k)]):
        return False
    k, t = s.k, case["tight"] / 10
    target = (1 - t) * f + t * np.roll(np.sort(s.rng.dirichlet(np.ones(k))), 1)
    kw, gaps = {}, []
    i = int(np.argmax(f))
    match case["how"]:
        case "bounds":
            u = max(float(f[i]) * (1 - t / 2), 1.05 / k)
            kw = {"max_weights": u, "min_weights": 0.3 / k}
            gaps = [lambda w: w.max() - u, lambda w: 0.3 / k - w.min()]
        case "array":
            lo = np.round(0.5 * target, 4)
            kw = {"min_weights": lo}
            gaps = [lambda w: (lo - w).max()]
        case "linear":
            cols = list(s.X.columns)
            kw = {"linear_constraints": [f"{cols[0]} >= {target[0]:.6f}", f"{cols[0]} + 2 * {cols[1]} <= {target[0] + 2 * target[1] + 0.05:.6f}"]}
            gaps = [lambda w: round(target[0], 6) - w[0], lambda w: w[0] + 2 * w[1] - target[0] - 2 * target[1] - 0.05]
        case "custom":
            # the weights are only known up to a factor inside the problem
            kw = {"add_constraints": lambda w: w[0] >= (f[0] + t * (1 - f[0]) / 2) * np.ones(k) @ w}
            gaps = [lambda w: f[0] + t * (1 - f[0]) / 2 - w[0]]
        case "return":
            mu = s.x.mean(axis=0)
            r = float((mu - c["mf"]) @ f) * (1 - t) + t * float(np.max(mu - c["mf"])) - 1e-6
            kw = {"min_return": r}
            gaps = [lambda w: (r - (mu - c["mf"]) @ w) * 100]
    m = fit(c, s.X, s.rb, **kw)
    if m is None:
        return False
    w = np.asarray(m.weights_)
    check(np.all(w > -1e-9) and abs(w.sum() - 1) < 1e-5, "weights", w=w)
    for j, g in enumerate(gaps):
        check(g(w) < 2e-4, f"limit {j} ({case['how']}) is honoured", excess=g(w), w=w, args=kw)
    # the limited solution is the best for the barrier among admissible mixtures towards the free one
    ok = [v for v in (w + h * (f - w) for h in (0.05, 0.2, 0.5)) if all(g(v) <= 0 for g in gaps) and np.all(v > 0)]
    for v in ok:
        check(s.score(w) <= s.score(v) + 2e-3, "an admissible mixture is closer to the budget", w=w, other=v)
    note(case["how"])
    return any(g(f) > 1e-4 for g in gaps)
