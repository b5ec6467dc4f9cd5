"""Entry point of every check.

run_check.py --setup                 unpack the vendored wheels
run_check.py C01                     run the check of one property
run_check.py C01 --replay FILE       re-run one recorded case
run_check.py C01 --law NAME [--n N]  run one law only (development)
"""

import os
import shutil
import sys
import tempfile
import zipfile
from pathlib import Path

ROOT = Path(__file__).resolve().parent
DEPS = ROOT / ".deps"
PYTHON = "/opt/venv/bin/python"


def ensure_deps():
    if (DEPS / "hypothesis" / "__init__.py").exists():
        return
    tmp = Path(tempfile.mkdtemp(prefix=".deps-", dir=ROOT))
    for wheel in sorted((ROOT / "vendor").glob("*.whl")):
        with zipfile.ZipFile(wheel) as z:
            z.extractall(tmp)
    try:
        tmp.rename(DEPS)
    except OSError:
        shutil.rmtree(tmp, ignore_errors=True)
        if not (DEPS / "hypothesis" / "__init__.py").exists():
            raise


def main():
    if sys.argv[1:] == ["--setup"]:
        ensure_deps()
        return 0
    if os.environ.get("VERIF_REEXEC") != "1":
        env = dict(os.environ)
        env["VERIF_REEXEC"] = "1"
        env["PYTHONHASHSEED"] = "0"
        for k in (
            "OMP_NUM_THREADS",
            "OPENBLAS_NUM_THREADS",
            "MKL_NUM_THREADS",
            "RAYON_NUM_THREADS",
        ):
            env[k] = "1"
        env.pop("SKFOLIO_DATA", None)
        env.pop("PYTHONPATH", None)
        env["PYTHONDONTWRITEBYTECODE"] = "1"
        # joblib worker processes must not print warnings on our stdout/stderr
        env["PYTHONWARNINGS"] = "ignore"
        scratch = tempfile.mkdtemp(prefix="verif-")
        env["HOME"] = scratch
        env["VERIF_SCRATCH"] = scratch
        import subprocess

        try:
            return subprocess.run(
                [PYTHON, str(Path(__file__).resolve()), *sys.argv[1:]],
                env=env,
                cwd=ROOT,
            ).returncode
        finally:
            shutil.rmtree(scratch, ignore_errors=True)
    ensure_deps()
    sys.path.insert(0, str(DEPS))
    sys.path.insert(0, str(ROOT))
    sys.path.insert(0, "/repo/src")
    from harness import runner

    return runner.main(sys.argv[1:])


if __name__ == "__main__":
    sys.exit(main())
