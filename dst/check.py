"""python -m dst.check C01 [--tier T] [--seed N] [--runs N]"""

import argparse
import importlib
import os
import sys

from . import runner


def main():
    ap = argparse.ArgumentParser()
    ap.add_argument("property")
    ap.add_argument("--tier", default=os.environ.get("VERIF_TIER", "quick"), choices=["quick", "thorough"])
    ap.add_argument("--seed", type=int, default=int(os.environ.get("VERIF_SEED", "1") or 1))
    ap.add_argument("--runs", type=int, default=None)
    a = ap.parse_args()
    runner.reexec(a.seed)
    prop = importlib.import_module(f"dst.props.{a.property.lower()}")
    sys.exit(runner.check(prop, a.seed, a.tier, a.runs))


if __name__ == "__main__":
    main()
