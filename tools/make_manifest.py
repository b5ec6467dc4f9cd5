"""Rewrites MANIFEST.json from properties.jsonl and the checks that exist."""

import importlib.util
import json
from pathlib import Path

ROOT = Path(__file__).resolve().parent.parent
TECH = json.loads((ROOT / "tools" / "techniques.json").read_text())
NOTE = (
    "Generated cases with a fixed count per tier and an explicit oracle; a pass means no "
    "counterexample among the cases listed in the evidence, not a proof. Bounds and "
    "tolerances are listed under assumptions in the evidence and in DESIGN.md."
)
props = [json.loads(x) for x in (ROOT / "properties.jsonl").read_text().splitlines() if x]
checks, na = [], []
for p in props:
    i = p["id"]
    if not (ROOT / "checks" / f"{i.lower()}.py").exists():
        na.append({"property": i, "reason": "check not built yet"})
        continue
    checks.append(
        {
            "property": i,
            "quick_cmd": f"python3 run_check.py {i}",
            "thorough_cmd": f"VERIF_TIER=thorough python3 run_check.py {i}",
            "evidence_file": f"evidence/{i}.json",
            "technique": "property-based testing (Hypothesis): " + TECH.get(i, "generated cases with an explicit oracle"),
            "level": "exploration",
            "level_note": NOTE,
        }
    )
m = {
    "version": 1,
    "setup_cmd": "python3 run_check.py --setup",
    "checks": checks,
    "hooks": {"guard": "", "enable": "", "source_commits": []},
    "not_applicable": na,
    "notes": "No hooks in /repo: the checks import /repo/src in a fresh interpreter. See DESIGN.md.",
}
(ROOT / "MANIFEST.json").write_text(json.dumps(m, indent=1) + "\n")
print(len(checks), "checks,", len(na), "not applicable")
