"""Recipes of convex portfolio problems and their definition-level evaluation.

A case is feasible by construction: a witness portfolio is derived from it and every
limit is placed at the witness's own value plus a slack.  Evaluation of constraints,
risks and objectives uses numpy and the definitions only; cvxpy is used here solely
to *propose* competitors, which are then judged by those definitions.
"""

import warnings

import numpy as np
from hypothesis import strategies as st

from harness import gen, pf, ref
from harness.core import note

RISKS = [
    "mean_absolute_deviation", "first_lower_partial_moment", "variance", "standard_deviation",
    "semi_variance", "semi_deviation", "worst_realization", "cvar", "evar", "max_drawdown",
    "average_drawdown", "cdar", "edar", "ulcer_index", "gini_mean_difference",
]  # fmt: skip
EXP = {"evar", "edar"}
NET = {"worst_realization", "cvar", "max_drawdown", "average_drawdown", "cdar", "edar", "ulcer_index"}
QUAD = {"variance", "semi_variance"}
OBJ = ["min_risk", "max_return", "max_utility", "max_ratio"]
# the witness is inside every limit: interior-point solvers need an interior
SLACK = [0.005, 0.02, 0.1, 0.5]


@st.composite
def problem(draw, objectives=OBJ, risks=RISKS, max_k=5, constraints=True, costs=True, limits=True,
            reg=True, min_n=12, max_n=30, long_only=None, mip=False, custom=False):  # fmt: skip
    m = draw(gen.mat(min_n, max_n, 2 if not mip else 3, max_k, kinds=gen.SMOOTH))
    k = m["k"]
    obj = draw(gen.choice(objectives))
    c = {
        "m": m,
        "drift": draw(gen.choice([0.0, 0.002, 0.006])) if obj != "max_ratio" else 0.003,
        "obj": obj,
        "risk": draw(gen.choice(risks)),
        "w0": draw(gen.seeds),
        "ra": draw(gen.choice([1.0, 0.5, 3.0, 10.0])),
        "beta": draw(gen.choice([0.5, 0.75, 0.875, 0.9, 0.95])),
        "cons": {},
    }
    short = draw(gen.choice([False, False, True])) if long_only is None else not long_only
    c["short"] = short
    kinds = ["budget", "bounds", "max_long", "max_short", "linear", "groups", "lhs", "turnover", "tracking",
             "min_return", "risk_limit"]  # fmt: skip
    on = draw(gen.subset(kinds, 0.3)) if constraints else []
    if not limits:
        on = [o for o in on if o not in ("tracking", "min_return", "risk_limit")]
    sl = gen.choice(SLACK)
    cons = c["cons"]
    for o in on:
        cons[o] = draw(sl)
    if "budget" in cons:
        cons["budget"] = [draw(gen.choice(["exact", "min", "max", "both", "exact"])), draw(gen.choice([1.0, 0.5, 1.25])), cons["budget"]]
    if "bounds" in cons:
        cons["bounds"] = [draw(gen.choice(["scalar", "array", "dict", "partial"])), cons["bounds"], draw(gen.seeds)]
    if "linear" in cons:
        cons["linear"] = [[draw(gen.choice(["<=", ">="])), draw(gen.seeds), draw(sl)] for _ in range(draw(st.integers(1, 2)))]
    if "groups" in cons:
        cons["groups"] = [draw(gen.choice(["<=", ">=", "=="])), draw(gen.seeds), cons["groups"], draw(gen.choice(["dict", "table"]))]
    if "lhs" in cons:
        cons["lhs"] = [draw(gen.seeds), cons["lhs"]]
    if "risk_limit" in cons:
        names = [r for r in risks if r not in EXP] if draw(gen.choice([True, True, False])) else list(risks)
        cons["risk_limit"] = [[r, draw(sl)] for r in draw(st.lists(gen.choice(names), min_size=1, max_size=2, unique=True))]
    c["pw"] = draw(pf.assetwise(k, 0, 0.6, 0.1))
    if "turnover" in cons and c["pw"]["form"] == "none":
        c["pw"] = {"form": "scalar", "v": 0.2}
    c["tc"] = draw(pf.assetwise(k, 0, 0.004)) if costs and draw(st.booleans()) else {"form": "none"}
    c["mf"] = draw(pf.assetwise(k, 0, 0.001, 0.0001)) if costs and draw(st.booleans()) else {"form": "none"}
    c["l1"] = draw(gen.choice([0.0, 0.0, 0.001, 0.01])) if reg and obj != "max_ratio" else 0.0
    c["l2"] = draw(gen.choice([0.0, 0.0, 0.001, 0.02])) if reg and obj != "max_ratio" else 0.0
    used = {c["risk"], *[r for r, _ in cons.get("risk_limit", [])]}
    c["rf"] = draw(gen.choice([0.0, 0.0, 0.0005])) if "first_lower_partial_moment" not in used else 0.0
    # an explicit minimum acceptable return is only defined for a full budget, without
    # costs, and not for the mean absolute deviation
    plain = c["tc"]["form"] == "none" and c["mf"]["form"] == "none" and "budget" not in cons
    c["mar"] = draw(gen.choice([None, None, 0.0, 0.001])) if plain and "mean_absolute_deviation" not in used else None
    if mip:
        kinds = ["card", "gcard", "tlong", "tshort"]
        on = draw(gen.subset(kinds, 0.5)) or ["card"]
        c["mip"] = {o: draw(st.integers(1, 2)) for o in on}
    if custom:
        on = draw(gen.subset(["objective", "return", "constraint", "penalty"], 0.5)) or ["return"]
        c["custom"] = {o: draw(gen.seeds) for o in on}
        if obj == "max_ratio":
            # only terms that scale with the weights keep their meaning in a ratio
            c["custom"].pop("objective", None)
            if "penalty" in on and c["risk"] not in QUAD:
                c["l1"] = 0.002
        c["arity"] = draw(st.integers(1, 2))
    return c


class Problem:
    """The case made concrete."""

    def __init__(self, c):
        self.c = c
        m = c["m"]
        self.k = k = m["k"]
        self.X = gen.frame(m) + c["drift"]
        self.x = self.X.to_numpy()
        self.n = len(self.x)
        self.mu = self.x.mean(axis=0)
        self.cov = np.cov(self.x.T, ddof=1).reshape(k, k)
        self.cols = gen.names(k)
        rng = gen.rng_of(c["w0"])
        self.mip = c.get("mip", {})
        self.d = np.zeros(k)  # custom linear term of the objective
        self.alpha = self.mu  # expected return per unit of weight
        extra = c.get("custom", {})
        if "objective" in extra:
            self.d = np.round(gen.rng_of(extra["objective"]).normal(0, 0.003, k), 5)
        if "return" in extra:
            lo = 0.001 if c["obj"] == "max_ratio" else -0.003
            self.alpha = np.round(gen.rng_of(extra["return"]).uniform(lo, 0.008, k), 5)
        w = rng.dirichlet(np.ones(k))
        if self.mip:
            keep = rng.permutation(k)[: max(1, min(k - 1, self.mip.get("card", 2)))]
            w = np.zeros(k)
            w[keep] = 1 / len(keep)
        elif c["short"]:
            w = rng.normal(1, 1, k)
            w = np.clip(w / (w.sum() if abs(w.sum()) > 0.5 else 1), -0.8, 0.8)
            w = w + (1 - w.sum()) / k
        b = c["cons"].get("budget")
        if b and b[1] != 1.0:
            w = w * b[1]
        self.w0 = w = np.round(w, 6)
        if not b or b[0] == "exact":
            w[int(np.argmax(np.abs(w)))] += (b[1] if b else 1.0) - w.sum()
        self.pw = pf.dense(c["pw"], k)
        self.tc = pf.dense(c["tc"], k)
        self.mf = pf.dense(c["mf"], k)
        self.row = None
        self.lin = []  # (row, bound, '<=' or '==', label)
        self.kw = {}
        self._constraints()

    # ------------------------------------------------------------ definitions
    def er(self, w):
        return float(self.alpha @ w - self.tc @ np.abs(w - self.pw) - self.mf @ w)

    def net(self, w):
        return self.x @ w - self.tc @ np.abs(w - self.pw) - self.mf @ w

    def risk(self, name, w):
        return risk(name, self.x, w, self.net(w), beta_of(self.c, name), self.c["mar"], evar_net=self.x @ w - self.mf @ w)

    def reg(self, w):
        return float(self.c["l1"] * np.abs(w).sum() + self.c["l2"] * (w @ w))

    def ratio_risk(self, w):
        name = {"variance": "standard_deviation", "semi_variance": "semi_deviation"}.get(self.c["risk"], self.c["risk"])
        return self.risk(name, w)

    def value(self, w):
        """The objective, always to be minimized."""
        c = self.c
        match c["obj"]:
            case "min_risk":
                return self.risk(c["risk"], w) + self.reg(w) + float(self.d @ w)
            case "max_return":
                return -self.er(w) + self.reg(w) - float(self.d @ w)
            case "max_utility":
                return -self.er(w) + c["ra"] * self.risk(c["risk"], w) + self.reg(w) - float(self.d @ w)
            case "max_ratio":
                r = self.ratio_risk(w) + self.reg(w)
                return -(self.er(w) - c["rf"]) / r if r > 1e-12 else np.nan

    # ------------------------------------------------------------ constraints
    def _constraints(self):
        c, k, w0, cons = self.c, self.k, self.w0, self.c["cons"]
        ones = np.ones(k)
        # bounds
        lo = np.full(k, -1.5 if c["short"] else 0.0)
        hi = np.full(k, 1.5)
        form = "scalar"
        if "bounds" in cons:
            form, slack, seed = cons["bounds"]
            u = gen.rng_of(seed).uniform(0, 1, (2, k)) * slack
            if form == "scalar":
                lo = np.full(k, min(w0) - slack if c["short"] else max(0.0, min(w0) - slack))
                hi = np.full(k, max(w0) + slack)
            else:
                lo = np.round(w0 - u[0] - 0.01, 4) if c["short"] else np.maximum(0, np.round(w0 - u[0] - 0.01, 4))
                hi = np.round(w0 + u[1] + 0.01, 4)
                if form == "partial":
                    # a missing entry means a lower bound of 0 and an upper bound of 1
                    drop = np.arange(k) % 2 == 0
                    lo = np.where(drop & (w0 >= 0), 0.0, lo)
                    hi = np.where(drop & (w0 <= 1), 1.0, hi)
        self.lo, self.hi = lo, hi
        match form:
            case "scalar":
                self.kw |= {"min_weights": float(lo[0]), "max_weights": float(hi[0])}
            case "array":
                self.kw |= {"min_weights": lo.copy(), "max_weights": hi.copy()}
            case "dict":
                self.kw |= {"min_weights": dict(zip(self.cols, lo, strict=True)), "max_weights": dict(zip(self.cols, hi, strict=True))}
            case "partial":
                self.kw |= {
                    "min_weights": {a: v for a, v in zip(self.cols, lo, strict=True) if v != 0},
                    "max_weights": {a: v for a, v in zip(self.cols, hi, strict=True) if v != 1},
                }
        # budget
        s = w0.sum()
        b = cons.get("budget")
        if not b:
            self.lin.append((ones, 1.0, "==", "budget"))
        else:
            kind, level, slack = b
            if kind == "exact":
                self.kw["budget"] = level
                self.lin.append((ones, level, "==", "budget"))
            else:
                self.kw["budget"] = None
                if kind in ("min", "both"):
                    self.kw["min_budget"] = float(s - slack)
                    self.lin.append((-ones, -(s - slack), "<=", "min_budget"))
                if kind in ("max", "both"):
                    self.kw["max_budget"] = float(s + slack)
                    self.lin.append((ones, s + slack, "<=", "max_budget"))
        if "max_long" in cons:
            v = float(np.maximum(w0, 0).sum() + cons["max_long"])
            if v > 0:
                self.kw["max_long"] = v
        if "max_short" in cons and c["short"]:
            self.kw["max_short"] = float(np.maximum(-w0, 0).sum() + cons["max_short"] + 0.01)
        eqs = []
        for sign, seed, slack in cons.get("linear", []):
            coef = gen.rng_of(seed).integers(-3, 4, k)
            if not coef.any():
                coef[0] = 1
            b0 = float(coef @ w0)
            bound = round(b0 + slack if sign == "<=" else b0 - slack, 6) + (1e-6 if sign == "<=" else -1e-6)
            terms = [f"{abs(a)} * {n}" if i % 2 else f"{n} * {abs(a)}" for i, (a, n) in enumerate(zip(coef, self.cols, strict=True)) if a]
            signs = ["-" if a < 0 else "+" for a in coef if a]
            text = " ".join(f"{sg} {t}" for sg, t in zip(signs, terms, strict=True))
            text = text[2:] if text.startswith("+ ") else text
            eqs.append(f"{text} {sign} {_num(bound)}")
            f = 1 if sign == "<=" else -1
            self.lin.append((f * coef.astype(float), f * bound, "<=", f"linear '{eqs[-1]}'"))
        self.groups = None
        gform = None
        if "groups" in cons or "gcard" in self.mip:
            seed = cons["groups"][1] if "groups" in cons else c["w0"]
            g = gen.rng_of(seed).integers(0, 2, k)
            self.groups = np.array([["G0", "G1"][i] for i in g])
            gform = cons["groups"][3] if "groups" in cons else "dict"
        if "groups" in cons:
            sign, seed, slack, _ = cons["groups"]
            present = sorted(set(self.groups))
            name = present[0]
            mem = (self.groups == name).astype(float)
            other = (self.groups == present[-1]).astype(float) if len(present) > 1 else None
            b0 = float(mem @ w0)
            if other is not None and seed % 2:
                # one group against a multiple of the other
                row = mem - 0.5 * other
                b1 = round(float(row @ w0), 6)
                bound = b1 + {"<=": slack + 1e-6, ">=": -slack - 1e-6, "==": 0.0}[sign]
                eqs.append(f"{name} {sign} 0.5 * {present[-1]} {'-' if bound < 0 else '+'} {_num(abs(bound))}")
            else:
                row = mem
                b1 = round(b0, 6)
                bound = b1 + {"<=": slack + 1e-6, ">=": -slack - 1e-6, "==": 0.0}[sign]
                eqs.append(f"{name} {sign} {_num(bound)}")
            f = -1 if sign == ">=" else 1
            self.lin.append((f * row, f * bound, "==" if sign == "==" else "<=", f"group '{eqs[-1]}'"))
        if eqs:
            self.kw["linear_constraints"] = eqs
        if self.groups is not None:
            table = [self.groups.tolist(), self.cols]
            self.kw["groups"] = {a: [g] for a, g in zip(self.cols, self.groups, strict=True)} if gform == "dict" else table
        if "lhs" in cons:
            seed, slack = cons["lhs"]
            a = np.round(gen.rng_of(seed).normal(0, 1, (2, k)), 3)
            r = a @ w0 + slack + 1e-6
            self.kw |= {"left_inequality": a, "right_inequality": r}
            self.lin += [(a[i], r[i], "<=", f"left_inequality {i}") for i in range(2)]
        extra = c.get("custom", {})
        if "constraint" in extra:
            # a homogeneous limit that the witness meets
            a = np.round(gen.rng_of(extra["constraint"]).normal(0, 1, k), 3)
            b = round(float(a @ w0) / float(w0.sum()), 6) + 0.02 if w0.sum() > 0.1 else None
            if b is not None:
                self.row = a - b
                self.lin.append((self.row, 0.0, "<=", "custom constraint"))
        if c["pw"]["form"] != "none":
            self.kw["previous_weights"] = pf.spell(c["pw"], self.cols)
        if "turnover" in cons:
            self.kw["max_turnover"] = float(np.abs(w0 - self.pw).max() + cons["turnover"] + 1e-6)
        if c["tc"]["form"] != "none":
            self.kw["transaction_costs"] = pf.spell(c["tc"], self.cols)
        if c["mf"]["form"] != "none":
            self.kw["management_fees"] = pf.spell(c["mf"], self.cols)
        self.y = None
        if "tracking" in cons:
            rng = gen.rng_of(c["w0"] + 1)
            self.y = self.x @ rng.dirichlet(np.ones(k)) + rng.normal(0, 0.002, self.n)
            self.kw["max_tracking_error"] = self.tracking(w0) * (1 + cons["tracking"]) + 1e-7
        if "min_return" in cons:
            self.kw["min_return"] = self.er(w0) - cons["min_return"] * 0.002 - 1e-8
        for name, slack in cons.get("risk_limit", []):
            v = self.risk(name, w0)
            if v > 0:
                self.kw[f"max_{name}"] = v * (1 + slack) + 1e-9
        # mixed integer
        self.tl = self.ts = None
        if "card" in self.mip:
            self.kw["cardinality"] = max(1, min(k - 1, self.mip["card"]))
        if "gcard" in self.mip:
            self.kw["group_cardinalities"] = {
                g: max(1, int((np.abs(w0[self.groups == g]) > 1e-9).sum())) for g in sorted(set(self.groups))[: self.mip["gcard"]]
            }
            if c["w0"] % 3 == 0:
                # an unknown group is ignored with a warning
                known = {} if c["w0"] % 2 else self.kw["group_cardinalities"]
                self.kw["group_cardinalities"] = {"nowhere": 1, **known}
        if "tlong" in self.mip or "tshort" in self.mip:
            self.tl = min(0.3, float(np.min(w0[w0 > 0])) * (0.5 if self.mip.get("tlong") == 1 else 1.0))
            self.kw["threshold_long"] = self.tl
            if c["short"]:
                self.ts = -0.2 if c["w0"] % 2 else -0.05
                self.kw["threshold_short"] = self.ts
        self.kw |= {
            "risk_measure": c["risk"],
            "risk_aversion": c["ra"],
            "l1_coef": c["l1"],
            "l2_coef": c["l2"],
            "risk_free_rate": c["rf"],
            "min_acceptable_return": c["mar"],
            **{f"{name}_beta": beta_of(c, name) for name in TAILS},
        }  # fmt: skip
        one = c.get("arity", 1) == 1
        if np.any(self.d):
            self.kw["add_objective"] = (lambda w: self.d @ w) if one else (lambda w, obj: self.d @ w)
        if self.alpha is not self.mu:
            self.kw["overwrite_expected_return"] = (lambda w: self.alpha @ w) if one else (lambda w, obj: self.alpha @ w)
        if self.row is not None:
            self.kw["add_constraints"] = (lambda w: [self.row @ w <= 0]) if one else (lambda w, obj: self.row @ w <= 0)
        if c["obj"] == "min_risk" and not c["l1"] and not c["l2"]:
            for a in ("l1_coef", "l2_coef"):
                self.kw.pop(a)

    def tracking(self, w):
        d = self.x @ w - self.y
        return float(np.sqrt(np.sum(d * d) / (self.n - 1)))

    def gaps(self, w):
        """Label -> amount by which a constraint is exceeded, in units where the
        tolerance is absolute (weights) or relative (risk and return limits)."""
        out = {}
        out["min_weights"] = float(np.max(self.lo - w))
        out["max_weights"] = float(np.max(w - self.hi))
        for row, b, op, label in self.lin:
            v = float(row @ w - b)
            out[label] = abs(v) if op == "==" else v
        kw = self.kw
        if "max_long" in kw:
            out["max_long"] = float(np.maximum(w, 0).sum() - kw["max_long"])
        if "max_short" in kw:
            out["max_short"] = float(np.maximum(-w, 0).sum() - kw["max_short"])
        if "max_turnover" in kw:
            out["max_turnover"] = float(np.max(np.abs(w - self.pw)) - kw["max_turnover"])
        if "max_tracking_error" in kw:
            out["max_tracking_error"] = self.tracking(w) / kw["max_tracking_error"] - 1
        if "min_return" in kw:
            out["min_return"] = (kw["min_return"] - self.er(w)) / 0.01
        for name in RISKS:
            lim = kw.get(f"max_{name}")
            if lim is not None:
                rel = self.risk(name, w) / lim - 1
                out[f"max_{name}"] = rel / (2 if name in QUAD else 1)
        nz = np.abs(w) > 1e-5
        if "cardinality" in kw:
            out["cardinality"] = float(max(0, nz.sum() - kw["cardinality"]))
        for g, lim in kw.get("group_cardinalities", {}).items():
            out[f"cardinality of {g}"] = float(max(0, nz[self.groups == g].sum() - lim))
        if self.tl is not None:
            pos = w[w > 1e-5]
            out["threshold_long"] = float(np.max(self.tl - pos)) if len(pos) else 0.0
        if self.ts is not None:
            neg = w[w < -1e-5]
            out["threshold_short"] = float(np.max(neg - self.ts)) if len(neg) else 0.0
        return out

    def worst_gap(self, w):
        g = self.gaps(w)
        lab = max(g, key=g.get)
        return lab, g[lab]

    # ------------------------------------------------------------ the library
    def model(self, **extra):
        from skfolio import RiskMeasure
        from skfolio.optimization import MeanRisk, ObjectiveFunction

        kw = dict(self.kw)
        kw["risk_measure"] = RiskMeasure(kw["risk_measure"])
        kw["objective_function"] = {
            "min_risk": ObjectiveFunction.MINIMIZE_RISK,
            "max_return": ObjectiveFunction.MAXIMIZE_RETURN,
            "max_utility": ObjectiveFunction.MAXIMIZE_UTILITY,
            "max_ratio": ObjectiveFunction.MAXIMIZE_RATIO,
        }[self.c["obj"]]
        if self.mip:
            kw["solver"] = "SCIP"
            # an unfinished search is a solver failure, never judged
            kw["solver_params"] = {"scip_params": {"numerics/feastol": 1e-8, "limits/gap": 1e-8, "limits/totalnodes": 4000, "limits/time": 12.0}}
        kw |= extra
        return MeanRisk(**kw)

    def fit(self, **extra):
        """(model, accurate) or (None, error)."""
        import cvxpy as cp

        model = self.model(**extra)
        with warnings.catch_warnings(record=True) as rec:
            warnings.simplefilter("always")
            try:
                model.fit(self.X, self.y)
            except cp.SolverError as e:
                return None, e
        accurate = not any("inaccurate" in str(r.message) for r in rec)
        if not accurate:
            note("solver reports inaccurate")
        return model, accurate

    # ------------------------------------------------------------ competitors
    def well_posed(self):
        """A ratio is only meaningful when its risk stays positive and some
        admissible portfolio has a positive excess return."""
        if self.c["obj"] != "max_ratio":
            return True
        if self.er(self.w0) - self.c["rf"] < 5e-4:
            return False
        name = {"variance": "standard_deviation", "semi_variance": "semi_deviation"}.get(self.c["risk"], self.c["risk"])
        q = self.propose(self.w0, obj="min_risk", risk=name)
        return q is not None and self.risk(name, q) > 3e-4

    def propose(self, w_ref, support=None, obj=None, risk=None):
        """A candidate better than w_ref, from an independent formulation."""
        import cvxpy as cp

        k, c = self.k, {**self.c, "obj": obj or self.c["obj"], "risk": risk or self.c["risk"]}
        w = cp.Variable(k)
        cons = [w >= self.lo, w <= self.hi]
        if support is not None:
            cons += [w[i] == 0 for i in range(k) if i not in support]
            if self.tl is not None and not c["short"]:
                cons += [w[i] >= self.tl for i in support]
        for row, b, op, _ in self.lin:
            cons.append(row @ w == b if op == "==" else row @ w <= b)
        kw = self.kw
        if "max_long" in kw:
            cons.append(cp.sum(cp.pos(w)) <= kw["max_long"])
        if "max_short" in kw:
            cons.append(cp.sum(cp.neg(w)) <= kw["max_short"])
        if "max_turnover" in kw:
            cons.append(cp.norm_inf(w - self.pw) <= kw["max_turnover"])
        s = 100.0
        if "max_tracking_error" in kw:
            cons.append(s * cp.norm2(self.x @ w - self.y) <= s * kw["max_tracking_error"] * np.sqrt(self.n - 1))
        cost = self.tc @ cp.abs(w - self.pw) if np.any(self.tc) else 0.0
        fee = self.mf @ w if np.any(self.mf) else 0.0
        er = self.alpha @ w - cost - fee
        if "min_return" in kw:
            cons.append(s * er >= s * kw["min_return"])
        loss = -(self.x @ w) + cost + fee
        eloss = -(self.x @ w) + fee

        def r_(name):
            return cvx_risk(name, self.x, w, loss, eloss, beta_of(c, name), c["mar"], cons)

        for name in RISKS:
            lim = kw.get(f"max_{name}")
            if lim is not None:
                cons.append(s * r_(name) <= s * lim)
        reg = c["l1"] * cp.norm1(w) + c["l2"] * cp.sum_squares(w)
        match c["obj"]:
            case "min_risk":
                f = r_(c["risk"]) + reg + self.d @ w
            case "max_return":
                f = -er + reg - self.d @ w
            case "max_utility":
                f = -er + c["ra"] * r_(c["risk"]) + reg - self.d @ w
            case "max_ratio":
                name = {"variance": "standard_deviation", "semi_variance": "semi_deviation"}.get(c["risk"], c["risk"])
                lam = -self.value(w_ref)
                f = -(er - c["rf"]) + max(lam, 0.0) * (r_(name) + reg)
        p = cp.Problem(cp.Minimize(100 * f), cons)
        try:
            with warnings.catch_warnings():
                warnings.simplefilter("ignore")
                p.solve(solver="CLARABEL")
        except (cp.SolverError, ValueError, ArithmeticError):
            return None
        return None if w.value is None else np.asarray(w.value, dtype=float)

    def competitors(self, w):
        """Feasible alternatives, each exactly feasible or moved towards the witness."""
        out = [self.w0]
        p = self.propose(w)
        if p is not None and np.all(np.isfinite(p)):
            out.append(p)
            out.append(0.5 * (w + p))
        return out


def _num(v):
    """A plain decimal (the constraint grammar has no exponent)."""
    s = f"{v:.9f}"
    return s


TAILS = ["cvar", "evar", "cdar", "edar"]
BETAS = [0.5, 0.75, 0.875, 0.9, 0.95]


def beta_of(case, name):
    """Confidence level of a tail measure: a different one for each."""
    b = case["beta"]
    if name not in TAILS or b not in BETAS:
        return b
    return BETAS[(BETAS.index(b) + TAILS.index(name)) % len(BETAS)]


def risk(name, x, w, net, beta, mar, evar_net=None):
    gross = x @ w
    n = len(gross)
    match name:
        case "variance":
            return float(np.var(gross, ddof=1))
        case "standard_deviation":
            return float(np.std(gross, ddof=1))
        case "mean_absolute_deviation":
            return ref.mean_absolute_deviation(gross)
        case "first_lower_partial_moment":
            return ref.first_lower_partial_moment(gross, mar)
        case "semi_variance":
            return ref.semi_variance(gross, mar)
        case "semi_deviation":
            return ref.semi_deviation(gross, mar)
        case "worst_realization":
            return float(np.max(-net))
        case "cvar":
            return ref.cvar(net, beta)
        case "evar":
            return ref.evar(gross if evar_net is None else evar_net, beta)
        case "gini_mean_difference":
            d = np.abs(gross[:, None] - gross[None, :]).sum()
            return float(d / (n * (n - 1)))
    # drawdowns from a starting level of zero
    v, dd = 0.0, []
    for r in net:
        v = max(0.0, v - r)
        dd.append(v)
    dd = np.array(dd)
    match name:
        case "max_drawdown":
            return float(dd.max())
        case "average_drawdown":
            return float(dd.mean())
        case "cdar":
            return ref.cvar(-dd, beta)
        case "edar":
            return ref.evar(-dd, beta)
        case "ulcer_index":
            return float(np.sqrt(np.mean(dd * dd)))
    raise KeyError(name)


def cvx_risk(name, x, w, loss, eloss, beta, mar, cons):
    import cvxpy as cp

    n = x.shape[0]
    gross = x @ w
    xc = x - x.mean(axis=0)
    short = xc @ w if mar is None else gross - mar
    match name:
        case "variance":
            return cp.sum_squares(xc @ w) / (n - 1)
        case "standard_deviation":
            return cp.norm2(xc @ w) / np.sqrt(n - 1)
        case "mean_absolute_deviation":
            return cp.norm1(xc @ w) / n
        case "first_lower_partial_moment":
            return cp.sum(cp.neg(short)) / n
        case "semi_variance":
            return cp.sum_squares(cp.neg(short)) / (n - 1)
        case "semi_deviation":
            return cp.norm2(cp.neg(short)) / np.sqrt(n - 1)
        case "worst_realization":
            return cp.max(loss)
        case "cvar":
            a = cp.Variable()
            return a + cp.sum(cp.pos(loss - a)) / (n * (1 - beta))
        case "evar":
            return _cvx_evar(eloss, n, beta, cons)
        case "gini_mean_difference":
            i, j = np.triu_indices(n, 1)
            return 2 * cp.norm1((x[i] - x[j]) @ w) / (n * (n - 1))
    v = cp.Variable(n, nonneg=True)
    cons.append(100 * v[0] >= 100 * loss[0])
    cons.append(100 * v[1:] >= 100 * (v[:-1] + loss[1:]))
    match name:
        case "max_drawdown":
            return cp.max(v)
        case "average_drawdown":
            return cp.sum(v) / n
        case "cdar":
            a = cp.Variable()
            return a + cp.sum(cp.pos(v - a)) / (n * (1 - beta))
        case "edar":
            return _cvx_evar(v, n, beta, cons)
        case "ulcer_index":
            return cp.norm2(v) / np.sqrt(n)
    raise KeyError(name)


def _cvx_evar(loss, n, beta, cons):
    import cvxpy as cp

    t, x = cp.Variable(nonneg=True), cp.Variable()
    u = cp.Variable(n)
    cons.append(cp.ExpCone(100 * (loss - x), 100 * t * np.ones(n), 100 * u))
    cons.append(100 * cp.sum(u) <= 100 * t)
    return x + t * np.log(1 / (n * (1 - beta)))
