"""Writes DESIGN.md from the text below, the laws of the checks, known_findings.txt and seeded/."""

import importlib
import json
import os
import sys
from pathlib import Path

ROOT = Path(__file__).resolve().parent.parent
sys.path[:0] = [str(ROOT), str(ROOT / ".deps"), "/repo/src"]
os.environ.setdefault("VERIF_SCRATCH", "/tmp")
sys.dont_write_bytecode = True

HEAD = '''# Design

Every property in `properties.jsonl` is decided by property-based testing (Hypothesis, vendored)
with an explicit oracle. The project is a pure-Python library, so "rebuild from /repo" means
importing `/repo/src` in a fresh interpreter with a private byte-code cache.

## Common machinery

* `run_check.py <ID>` is the single entry point. It re-executes itself with `PYTHONHASHSEED=0`, one
  BLAS thread, a private `HOME` and byte-code directory, and asserts that `skfolio` was imported from `/repo/src`.
* `checks/<id>.py` holds a list of *laws*. A law is `(strategy, function)`: the strategy draws one
  JSON-able *case*, the function builds the objects out of the case and runs the oracle. Large arrays
  are described by small recipes (kind, shape, seed, edits) and built with a generator seeded by the
  drawn seed, so all randomness is in the case and any case can be replayed from JSON.
* The runner spreads laws and shards over worker processes. Every shard's Hypothesis seed is derived from
  `VERIF_SEED`, the law and the shard. Example counts are fixed per tier (`VERIF_TIER`), the clock is never an
  oracle: a safety cap only stops generating and is reported in the evidence as "capped".
* Outcome of one evaluation: pass; `Violation` (an oracle said no, or the library raised an exception that the
  law does not allow, i.e. the innermost relevant frames are in `/repo/src/skfolio`); or a harness error (exit 2).
  Failures are shrunk by Hypothesis and written to `evidence/replay/<id>-<law>.json`; `run_check.py <ID> --replay FILE` reruns it.
  Cases listed in `regressions/<id>.json` (shrunk failures of repaired defects) are replayed first on each run.
* `evidence/<ID>.json`: evaluations, distinct non-trivial cases (hash of the case, counted only if the law did not report the case as trivial),
  the per-law rule, per-law class counts, samples.
* Float tolerances are stated in the laws: exact-arithmetic oracles 1e-9 relative, iterative solvers 1e-3..1e-5 relative to the scale of the quantity.
* `known_findings.txt`: `fixed:` lines for repaired defects, `known:` lines for confirmed and unrepaired defects; the latter are excluded
  by construction in the generator (so that the search goes on) and printed as `KNOWN-FINDING:` after re-running its specific input.

Why this reaches what the tests cannot: the suite is example-based on one dataset with stored outputs. The
generators below vary shape, conditioning, ties, parameter values and operation order, and the oracles are
independent of stored outputs.

## Per property

'''

D={
"C01":"Generated: return lists (length 2-60, with ties, zeros, constants, tiny/large scale) and every parameter. Oracle: reference implementations written from the definitions (loop/sort based; EVaR/EDaR by independent 1-D minimisation; Gini by pairwise differences). Bounds: |r|<0.5, 60 obs. Cost ~20 s.",
"C02":"Metamorphic: same series permuted, scaled, shifted, confidence level varied, two series added. Oracle: the laws. Cost ~15 s.",
"C03":"Generated: X matrices, weights/prev/costs/fees in all forms, rf, annualisation, betas. Oracle: numpy formula and reference measures; ratio/annualisation definitions. Cost ~30 s.",
"C04":"Generated portfolios x measures; oracle: Euler sum, independent numeric directional derivative. Cost ~20 s.",
"C05":"Stateful: op sequences (read measure, set param, copy, pickle, forbidden write) on Base/Portfolio/MultiPeriod; oracle: freshly constructed object with the model's parameters. Cost ~30 s.",
"C06":"Generated expression trees over portfolios; oracle: same expression over weight vectors, plus parameter propagation. Cost ~20 s.",
"C07":"Stateful list operations; oracle: plain Python list model with concatenation. Cost ~30 s.",
"C08":"Generated populations with ties/duplicate names; oracle: list comprehension/sorting on direct measure values; stateful list model. Cost ~30 s.",
"C09":"Generated small-integer fitness matrices (ties); oracle: O(n^2) layer peeling; portfolio comparisons vs reference dominance. Cost ~10 s.",
"C10":"Generated ASTs rendered to strings with random whitespace/number formats; oracle: evaluate the AST on weight vectors vs matrices; mutated malformed strings must be rejected. Cost ~15 s.",
"C11":"Metamorphic over input forms and column permutations for convex, hierarchical, naive optimizers. Cost ~40 s (solver).",
"C12":"Generated constraint sets built around a known feasible point; oracle: independent evaluation of each constraint on the weights (reference measures). Cost ~45 s.",
"C13":"Oracle: competitor search (random admissible points, convex combinations with the optimum, scipy SLSQP/closed form) evaluated by reference objective. Cost ~45 s.",
"C14":"Oracle: recompute reported values from weights. Metamorphic over solver scaling. Cost ~40 s.",
"C15":"Differential: list fit vs. individual fits; frontier monotonicity. Cost ~40 s.",
"C16":"Oracle: contributions via numeric derivative of reference measures vs budget; invariances. Cost ~40 s.",
"C17":"Oracle: competitor search for diversification ratio; differential against empirical CVaR LP (scipy linprog) at radius 0; independent evaluation of the Wasserstein dual; monotonicity. Cost ~40 s.",
"C18":"Oracle: closed-form ellipsoid minimum, adversarial sampling inside the set, competitor search. Cost ~40 s.",
"C19":"Oracle: independent recursion over the reported linkage; bounds. Cost ~30 s.",
"C20":"Oracle: manual composition of independently fitted inner/outer estimators. Cost ~45 s.",
"C21":"Stateful: sequences of fits (good/failing, different shapes) then compared with fresh clone; deep snapshot of all inputs and params before/after. Cost ~45 s.",
"C22":"Oracle: formula applied to fitted weights and new data. Cost ~30 s.",
"C23":"Generated sizes/calendars; oracle: direct arithmetic/calendar reference. Cost ~20 s.",
"C24":"Generated sizes; oracle: brute-force sets. Cost ~20 s.",
"C25":"Differential: manual loop; perturbation of unrelated rows; n_jobs 1 vs 2. Cost ~40 s.",
"C26":"Differential: manual scores, arg-max. Cost ~40 s.",
"C27":"Oracle: definitions re-implemented; PSD, permutation, scaling laws. Cost ~30 s.",
"C28":"Generated symmetric matrices by spectrum; oracle: invariants and round trips; optimality vs alternating projection reference. Cost ~20 s.",
"C29":"Oracle: definitions re-implemented. Cost ~15 s.",
"C30":"Oracle: closed forms re-implemented; confidence limits; view grammar. Cost ~25 s.",
"C31":"Oracle: structural invariants; block structure recovered from row ids. Cost ~15 s.",
"C32":"Oracle: definition re-implemented; scipy cut of the linkage; invariants. Cost ~25 s.",
"C33":"Oracle: brute-force rules. Cost ~25 s.",
"C34":"Oracle: loop reference with explicit missing-value handling; round trip. Cost ~15 s.",
"C35":"Oracle: finite differences, inverse round trip, rotation reflections, KS tests with p<1e-7 on seeded samples (deterministic given seed). Cost ~40 s.",
"C36":"Oracle: scipy quantities recomputed, numeric integration, perturbation likelihood. Cost ~25 s.",
"C37":"Oracle: numeric integration of reported density vs conditional samples (probability integral transform), structural validity, repeat sampling. Cost ~60 s.",
"C38":"Differential: routed vs direct configuration; recording estimators to observe who received what. Cost ~30 s.",
"C39":"Fault injection: stand-in download that fails/truncates at generated steps, crash at any file operation, in a scratch directory; oracle: history invariant. Cost ~15 s.",
"C40":"Figures of generated portfolios, populations, fitted distributions, folds and clusterings; oracle: the arrays, labels, tables and shapes held by the figure against the quantity named, recomputed or read from the object. Matching is by what is drawn (name contained, points as sets, colours as partitions), not by styling. Misses by construction: rendering, tick formats, titles, colour choices without a legend. Cost ~60 s.",
}


TAIL = """## Defects found in the pinned tree

Each was found by an alarm of a check on the unchanged tree, confirmed by hand against the documentation, and
repaired by a minimal commit in /repo (`fix:`). They are listed in `known_findings.txt`, where they suppress nothing.

{fixed}

### Confirmed and not repaired

A stored value in the existing tests fixes the wrong behaviour, so the generator leaves out exactly that input, the
check re-runs it and prints `KNOWN-FINDING:`.

{known}

## Observed and left outside the properties

Odd or wrong behaviour that is not asserted. Either the documentation does not promise otherwise, or repairing it
would be a redesign. The generators do not produce these inputs.

* Nested clusters optimization with a `y` of several columns.
* The warning of `MAXIMIZE_RATIO` about the variance is printed in the opposite case.
* `WalkForward.get_n_splits` may be negative when the window exceeds the data; `test_size=0` does not terminate.
* `optimal_block_size` on fewer than about ten observations; Knuth's bin rule on heavily tied data.
* Numbers in exponent notation in constraint strings are not part of the grammar.
* Clayton parameters above 34 overflow; Gumbel with a parameter near 80 loses accuracy in the far tails; the
  distribution function of the Student-t copula is evaluated by randomised integration.
* The free Student-t fit of data of scale 0.001 may stop at a poor optimum of scipy.
* Conditional sampling of a vine on assets that were not declared central, on a subset of those, or under truncation.
* The log-density of a vine with `log_transform` is the density of the transformed data (no Jacobian), and is checked as such.
* Nested clusters with an array of implied volatilities and cross-validation.
* A solver that stops with `user_limit` returns weights with a warning.
* `Population.plot_cumulative_returns(idx=...)` indexes columns; `plot_distribution` with unequal tag sizes.
* The first lower partial moment in the convex problem adds `risk_free_rate` to its target, the measure does not.
  Cases with both are not generated.

## False alarms that changed a check

* The Student-t copula fit stops at its documented tolerance (1e-4), short of the maximum for strong dependence, so
  its maximality is judged on fits asked for with a tolerance of 1e-9.
* The heat map of a dendrogram draws a zero diagonal whatever the rounding of the distance matrix given.
* Convex mean absolute deviation with a `min_acceptable_return` is a different measure from the realised one (its
  target enters one side only), so risk budgets are checked without a target for it.
* Solvers meet a risk limit only to their tolerance when the feasible set has no interior: an excess that vanishes as
  the documented constraint scale is raised is the solver's.
* A vine need not follow the conditional law when conditioning on assets that are not central.

## Planted bugs

Written from the property text and the code, each in its own scratch copy. All pass the existing tests. "Caught by" is the
check that reports it with `VERIF_SEED=1`, quick tier.

| id | property | what it needs | caught by |
|---|---|---|---|
{planted}

{mutation}
"""


def main():
    out = HEAD
    for line in open(ROOT / "properties.jsonl"):
        r = json.loads(line)
        from harness import core

        core.LAWS.clear()
        mod = importlib.import_module("checks." + r["id"].lower())
        out += f"### {r['id']} {r['title']}\n\n{D[r['id']]}\n\n"
        out += "Laws (what counts as non-trivial):\n\n"
        out += "".join(f"* `{v.name}`: {v.rule}\n" for v in core.LAWS.values())
        if getattr(mod, "ASSUMPTIONS", None):
            out += "\nAssumptions:\n\n" + "".join(f"* {a}\n" for a in mod.ASSUMPTIONS)
        out += "\n"
    fixed, known = [], []
    for line in open(ROOT / "known_findings.txt"):
        line = line.strip()
        if line.startswith("fixed:"):
            fixed.append("* " + line[len("fixed: property="):])
        elif line.startswith("known:"):
            known.append("* " + line[len("known: property="):])
    rows = []
    caught = json.load(open(ROOT / "tools" / "caught.json"))
    for d in sorted((ROOT / "seeded").iterdir()):
        m = json.load(open(d / "meta.json"))
        rows.append(f"| {d.name} | {m['property']} | {m['needs']} | {caught.get(d.name, m['property'])} |")
    mut = ROOT / "tools" / "mutation.md"
    out += TAIL.format(
        fixed="\n".join(fixed), known="\n".join(known), planted="\n".join(rows),
        mutation=mut.read_text() if mut.exists() else "",
    )
    (ROOT / "DESIGN.md").write_text(out)


main()
