"""Runs the laws of one property in worker processes and writes the evidence."""

import hashlib
import importlib
import json
import multiprocessing as mp
import os
import sys
import time
import traceback
import warnings
from collections import Counter
from pathlib import Path

ROOT = Path(__file__).resolve().parent.parent
EVID = ROOT / "evidence"
CAP = {"quick": 420.0, "thorough": 3000.0}
SHRINK_S = {"quick": 25, "thorough": 120}


def _load_library():
    # third party first (normal byte-code cache), then skfolio compiled from source
    import cvxpy  # noqa: F401
    import numpy  # noqa: F401
    import pandas  # noqa: F401
    import plotly.express  # noqa: F401
    import plotly.graph_objects  # noqa: F401
    import scipy.stats  # noqa: F401
    import sklearn.covariance  # noqa: F401
    import sklearn.linear_model  # noqa: F401
    import sklearn.metrics  # noqa: F401
    import sklearn.model_selection  # noqa: F401

    sys.dont_write_bytecode = True
    sys.pycache_prefix = os.environ["VERIF_SCRATCH"] + "/pyc"
    import skfolio

    if not skfolio.__file__.startswith("/repo/src/skfolio/"):
        print(f"ERROR: skfolio imported from {skfolio.__file__}")
        sys.exit(2)
    for m in (
        "cluster datasets distance distribution measures metrics model_selection "
        "moments optimization population portfolio pre_selection preprocessing prior "
        "uncertainty_set utils.bootstrap utils.equations utils.sorting utils.stats "
        "utils.tools"
    ).split():
        importlib.import_module("skfolio." + m)
    sys.pycache_prefix = None


def _register_backend():
    """Independent draws: no small-example phase and no mutation of earlier cases.

    Both make most cases near copies of the first few; failures are still shrunk by
    Hypothesis.
    """
    from hypothesis.internal.conjecture import providers

    class Plain(providers.HypothesisProvider):
        pass

    mod = sys.modules[__name__]
    mod.PlainProvider = Plain
    providers.AVAILABLE_PROVIDERS["plain"] = f"{__name__}.PlainProvider"


def _seed(*parts):
    h = hashlib.sha256("|".join(map(str, parts)).encode()).digest()
    return int.from_bytes(h[:8], "big")


def _run_task(law, shard, n, seed, tier, deadline, conn, regressions=()):
    """Runs in a forked worker."""
    import hypothesis
    from hypothesis import HealthCheck, Phase, given, settings

    from harness import core

    warnings.simplefilter("ignore")
    try:
        import hypothesis.internal.conjecture.engine as eng

        eng.MAX_SHRINKING_SECONDS = SHRINK_S[tier]
    except Exception:
        pass
    import numpy as np

    if os.environ.get("VERIF_VERBOSE") != "2":
        # solvers write to the file descriptors directly
        null = os.open(os.devnull, os.O_WRONLY)
        os.dup2(null, 1)
        os.dup2(null, 2)
    _register_backend()
    np.random.seed(seed % (2**32))
    st = core.Stats()
    core.CURRENT = st
    last = {}
    unsolved = []

    def evaluate(case):
        core.CURRENT = st
        st.evaluations += 1
        before = st.notes["solver failure"]
        try:
            with warnings.catch_warnings(), np.errstate(all="ignore"):
                warnings.simplefilter("ignore")
                out = law.fn(case)
        except (
            hypothesis.errors.UnsatisfiedAssumption,
            hypothesis.errors.StopTest,
        ):
            st.evaluations -= 1
            st.rejected += 1
            raise
        except Exception as e:
            last["case"] = case
            last["kind"] = core.classify(e)
            last["msg"] = f"{type(e).__name__}: {e}"
            last["tb"] = traceback.format_exc(limit=-12)
            raise
        if st.notes["solver failure"] > before and len(unsolved) < 4:
            unsolved.append(case)
        if out is False:
            st.trivial += 1
        else:
            key = hashlib.sha1(core.canonical(case).encode()).hexdigest()
            if key not in st.distinct:
                st.distinct.add(key)
                if len(st.samples) < 2:
                    s = core.canonical(case)
                    st.samples.append(s if len(s) < 1500 else s[:1500] + "...")

    result = {"law": law.name, "shard": shard, "status": "ok"}
    try:
        for case in regressions:
            evaluate(core.roundtrip(case))

        @hypothesis.seed(seed)
        @settings(
            max_examples=n,
            backend="plain",
            database=None,
            deadline=None,
            derandomize=False,
            suppress_health_check=list(HealthCheck),
            phases=[Phase.generate, Phase.shrink],
            report_multiple_bugs=False,
            print_blob=False,
        )
        @given(law.strategy)
        def prop(case):
            if time.monotonic() > deadline:
                st.skipped += 1
                return
            evaluate(core.roundtrip(case))

        if n:
            prop()
    except Exception as e:
        if last:
            result.update(
                status=last["kind"], case=last["case"], msg=last["msg"], tb=last["tb"]
            )
        else:
            result.update(
                status="error",
                case=None,
                msg=f"{type(e).__name__}: {e}",
                tb=traceback.format_exc(limit=-12),
            )
    result.update(
        evaluations=st.evaluations,
        rejected=st.rejected,
        skipped=st.skipped,
        trivial=st.trivial,
        distinct=sorted(st.distinct),
        notes=dict(st.notes),
        samples=st.samples,
        unsolved=unsolved,
    )
    conn.send(result)
    conn.close()


def _pool(tasks, jobs, deadline):
    """tasks: list of callables taking a connection. Yields results."""
    ctx = mp.get_context("fork")
    pending = list(tasks)[::-1]
    running = {}
    while pending or running:
        while pending and len(running) < jobs:
            label, target = pending.pop()
            recv, send = ctx.Pipe(duplex=False)
            sys.stdout.flush()
            pr = ctx.Process(target=target, args=(send,))
            pr.start()
            send.close()
            running[recv] = (label, pr)
        from multiprocessing.connection import wait

        for r in wait(list(running), timeout=5):
            label, pr = running.pop(r)
            try:
                res = r.recv()
            except EOFError:
                pr.join()
                res = {
                    "law": label[0],
                    "shard": label[1],
                    "status": "error",
                    "case": None,
                    "msg": f"worker died with exit code {pr.exitcode}",
                    "tb": "",
                    "evaluations": 0,
                    "rejected": 0,
                    "skipped": 0,
                    "trivial": 0,
                    "distinct": [],
                    "notes": {},
                    "samples": [],
                }
            pr.join(10)
            if pr.is_alive():
                pr.kill()
            r.close()
            stop = yield res
            if stop:
                for rr, (_, q) in running.items():
                    q.kill()
                    q.join()
                    rr.close()
                return
        if running and time.monotonic() > deadline + 240:
            # a hung worker is inconclusive, never a violation
            for rr, (label, q) in running.items():
                q.kill()
                q.join()
            print("ERROR: workers exceeded the time limit", [v[0] for v in running.values()])
            raise SystemExit(2)


# the share of problems an optimizer may fail to solve before it counts as broken
# (the unchanged tree stays below a tenth)
UNSOLVED = 0.3


def _unsolved_again(fn, cases):
    from harness import core

    core.CURRENT = st = core.Stats()
    for c in cases:
        fn(core.roundtrip(c))
    if st.notes["solver failure"] * 2 > len(cases):
        raise core.Violation("feasible problems are not solved")


def main(argv):
    t0 = time.monotonic()
    warnings.simplefilter("ignore")
    pid = argv[0]
    opts = argv[1:]
    seed = int(os.environ.get("VERIF_SEED", "1") or "1")
    tier = os.environ.get("VERIF_TIER", "quick") or "quick"
    if tier not in CAP:
        tier = "quick"
    _load_library()
    from harness import core

    mod = importlib.import_module("checks." + pid.lower())
    laws = core.LAWS
    if "--list" in opts:
        for l in laws.values():
            print(l.name, l.quick, l.thorough)
        return 0
    if "--replay" in opts:
        rep = json.loads(Path(opts[opts.index("--replay") + 1]).read_text())
        import numpy as np

        try:
            with warnings.catch_warnings(), np.errstate(all="ignore"):
                warnings.simplefilter("ignore")
                if "cases" in rep:
                    _unsolved_again(laws[rep["law"]].fn, rep["cases"])
                else:
                    laws[rep["law"]].fn(core.roundtrip(rep["case"]))
        except Exception as e:
            traceback.print_exc(limit=-12)
            if core.classify(e) == "violation":
                print(f"VIOLATION property={pid} replay={opts[opts.index('--replay') + 1]}")
                return 1
            return 2
        print("replay: no violation")
        return 0

    deadline = t0 + CAP[tier]
    jobs = int(os.environ.get("VERIF_JOBS", "0")) or min(8, os.cpu_count() or 1)
    sel = opts[opts.index("--law") + 1] if "--law" in opts else None
    override = int(opts[opts.index("--n") + 1]) if "--n" in opts else None
    regfile = ROOT / "regressions" / f"{pid}.json"
    regs = json.loads(regfile.read_text()) if regfile.exists() else []
    tasks = []
    order = []
    for l in laws.values():
        if sel and l.name != sel:
            continue
        n = override if override is not None else (l.quick if tier == "quick" else l.thorough)
        shards = l.shards or jobs
        shards = max(1, min(shards, jobs, n // 4 or 1))
        mine = [r["case"] for r in regs if r["law"] == l.name]
        for s in range(shards):
            k = n // shards + (1 if s < n % shards else 0)
            order.append((s, l.name))
            tasks.append(
                (
                    (l.name, s),
                    lambda conn, l=l, s=s, k=k, m=mine if s == 0 else (): _run_task(
                        l, s, k, _seed(seed, pid, l.name, s), tier, deadline, conn, m
                    ),
                )
            )
    # interleave the laws so that the cheap ones do not wait behind the dear ones
    tasks = [t for _, t in sorted(zip(order, tasks, strict=True), key=lambda z: z[0][0])]
    per_law = {
        l.name: dict(
            evaluations=0,
            distinct=set(),
            trivial=0,
            rejected=0,
            skipped=0,
            classes=Counter(),
            samples=[],
            unsolved=[],
            rule=l.rule,
        )
        for l in laws.values()
        if not sel or l.name == sel
    }
    violation, error = None, None
    gen = _pool(tasks, jobs, deadline)
    stop = None
    while True:
        try:
            res = gen.send(stop)
        except StopIteration:
            break
        d = per_law[res["law"]]
        for k in ("evaluations", "trivial", "rejected", "skipped"):
            d[k] += res[k]
        d["distinct"].update(res["distinct"])
        d["classes"].update(res["notes"])
        d["samples"] = (d["samples"] + res["samples"])[:2]
        d["unsolved"] += res.get("unsolved", [])
        if res["status"] == "violation":
            violation = res
            stop = True
        elif res["status"] == "error" and error is None:
            error = res
    if violation is None:
        for name, d in per_law.items():
            bad = d["classes"]["solver failure"]
            if bad >= 12 and bad > UNSOLVED * d["evaluations"]:
                violation = {"law": name, "case": d["unsolved"][0], "cases": d["unsolved"][:8], "tb": "",
                             "msg": f"{bad} of {d['evaluations']} feasible problems are not solved"}  # fmt: skip
                break
    known = []
    kf = ROOT / "known_findings.txt"
    if kf.exists():
        for line in kf.read_text().splitlines():
            if line.startswith(f"known: property={pid} "):
                known.append(line[len("known: property=") + len(pid) + 1 :])
    EVID.mkdir(exist_ok=True)
    viols = []
    if violation:
        (EVID / "replay").mkdir(exist_ok=True)
        path = EVID / "replay" / f"{pid}-{violation['law']}.json"
        path.write_text(
            json.dumps(
                {
                    "property": pid,
                    "law": violation["law"],
                    "case": violation["case"],
                    **({"cases": violation["cases"]} if "cases" in violation else {}),
                    "message": violation["msg"],
                    "traceback": violation["tb"],
                    "seed": seed,
                    "tier": tier,
                },
                indent=1,
            )
        )
        viols.append({"law": violation["law"], "message": violation["msg"][:2000], "replay": str(path)})
    ev = sum(d["evaluations"] for d in per_law.values())
    dn = sum(len(d["distinct"]) for d in per_law.values())
    samples = [
        {"law": k, "case": json.loads(s) if not s.endswith("...") else s}
        for k, d in per_law.items()
        for s in d["samples"][:2]
    ]
    evidence = {
        "property": pid,
        "tier": tier,
        "seed": seed,
        "level": "exploration",
        "coverage": {
            "evaluations": ev,
            "distinct_nontrivial": dn,
            "rule": "; ".join(f"{k}: {d['rule']}" for k, d in per_law.items()),
            "samples": samples,
            "laws": {
                k: {
                    "evaluations": d["evaluations"],
                    "distinct_nontrivial": len(d["distinct"]),
                    "trivial": d["trivial"],
                    "rejected_draws": d["rejected"],
                    "skipped_after_time_cap": d["skipped"],
                    "classes": dict(sorted(d["classes"].items())),
                }
                for k, d in per_law.items()
            },
            "regression_cases_replayed": len(regs),
        },
        "assumptions": list(getattr(mod, "ASSUMPTIONS", [])),
        "violations": viols,
        "wall_s": round(time.monotonic() - t0, 3),
    }
    (EVID / f"{pid}.json").write_text(json.dumps(evidence, indent=1))
    if violation:
        print(f"{violation['law']}: {violation['msg']}")
        print("case:", json.dumps(violation["case"])[:3000])
        print(violation["tb"][-2500:])
        print(f"VIOLATION property={pid} replay={viols[0]['replay']}")
        return 1
    if error:
        print(f"ERROR in {error['law']}: {error['msg']}")
        print("case:", json.dumps(error["case"])[:3000])
        print(error["tb"])
        return 2
    for k in known:
        print(f"KNOWN-FINDING: property={pid} {k}")
    print(
        f"OK {pid} tier={tier} seed={seed} evaluations={ev} distinct_nontrivial={dn} wall={evidence['wall_s']}s"
    )
    if os.environ.get("VERIF_VERBOSE"):
        for k, d in evidence["coverage"]["laws"].items():
            print("  ", k, {a: b for a, b in d.items()})
    return 0
