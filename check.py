#!/usr/bin/env python3
"""Usage: python3-vt check.py ID [--tier quick|thorough] [--seed N] [--replay FILE]"""

import os
import sys

VERIF = os.path.dirname(os.path.abspath(__file__))
REPO = os.environ.get("VERIF_REPO", "/repo")
ENV = {
    "PYTHONDONTWRITEBYTECODE": "1", "PYTHONHASHSEED": "0", "OMP_NUM_THREADS": "1",
    "OPENBLAS_NUM_THREADS": "1", "MKL_NUM_THREADS": "1",
}
if any(os.environ.get(k) != v for k, v in ENV.items()):
    os.environ.update(ENV)
    os.execv(sys.executable, [sys.executable] + sys.argv)

sys.dont_write_bytecode = True
sys.path.insert(0, VERIF)
sys.path.insert(0, REPO)
os.environ["HYPOTHESIS_STORAGE_DIRECTORY"] = "/tmp/.verif_hypothesis"

import argparse  # noqa: E402


def main():
    ap = argparse.ArgumentParser()
    ap.add_argument("prop")
    ap.add_argument("--tier", default=os.environ.get("VERIF_TIER", "quick"))
    ap.add_argument("--seed", type=int, default=int(os.environ.get("VERIF_SEED", "1") or "1"))
    ap.add_argument("--replay")
    a = ap.parse_args()
    import ssspy

    where = os.path.abspath(ssspy.__file__)
    if not where.startswith(os.path.abspath(REPO) + os.sep):
        sys.stderr.write("ssspy was imported from %s, not from %s\n" % (where, REPO))
        return 2
    from pbt import harness

    if a.replay:
        return harness.replay(a.prop, a.replay)
    budget = 600 if a.tier == "quick" else 820
    return harness.main(a.prop, a.tier, a.seed, budget)


if __name__ == "__main__":
    sys.exit(main())
