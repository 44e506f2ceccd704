"""python -m dst.selftest [C01 ...] [--runs N]: is one seed one execution?

Every plan is run three times: on an idle machine, on a busy one, and from the decisions the first run
recorded.  The three must agree on outcome, schedule and event log, bit for bit.
"""

import argparse
import importlib
import sys

from . import runner


def main():
    ap = argparse.ArgumentParser()
    ap.add_argument("props", nargs="*")
    ap.add_argument("--runs", type=int, default=40)
    ap.add_argument("--seed", type=int, default=1)
    a = ap.parse_args()
    runner.reexec(a.seed)
    bad = total = 0
    for pid in a.props or [f"C{i:02}" for i in range(1, 18)]:
        prop = importlib.import_module(f"dst.props.{pid.lower()}")
        r = runner.Runner(prop, a.seed, "quick")
        try:
            plans = [(i, runner.make_plan(prop, a.seed, i, "quick"), None, runner.run_seed(a.seed, pid + "/d", i)) for i in range(a.runs)]
            got = [{}, {}, {}]
            runner.JOBS = 2
            r.many(plans, lambda k, p, x: got[0].__setitem__(k, x))
            runner.JOBS = 12
            r.many(plans[::-1], lambda k, p, x: got[1].__setitem__(k, x))
            r.many([(k, p, got[0][k]["used"], 0) for k, p, _, _ in plans if "used" in got[0][k]], lambda k, p, x: got[2].__setitem__(k, x))
            key = lambda x: (x.get("status"), x.get("klass"), x.get("sig"), x.get("log_hash"), str(x.get("info")), str(sorted((x.get("fired") or {}).items())))  # noqa: E731
            d1 = [k for k, _, _, _ in plans if key(got[0][k]) != key(got[1][k])]
            d2 = [k for k in got[2] if key(got[0][k]) != key(got[2][k])]
            total += len(plans)
            bad += len(set(d1) | set(d2))
            for k in d2[:3]:
                print("  ", k, key(got[0][k]), key(got[2][k]), got[2][k].get("msg"), [x for x in zip(got[0][k].get("log", []), got[2][k].get("log", [])) if x[0] != x[1]][:1])
            print(f"{pid}: {len(plans)} runs; different when repeated: {d1}; different when replayed from recorded decisions: {d2}", flush=True)
        finally:
            r.close()
    print(f"{total} runs, {bad} not repeatable")
    sys.exit(1 if bad else 0)


if __name__ == "__main__":
    main()
