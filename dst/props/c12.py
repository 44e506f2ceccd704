"""Noise and sky simulations are reproducible whatever ran before or alongside."""

import copy
import os
import random
import threading

import numpy as np

from .. import fixtures, otherhash
from ..runner import Violation
from . import common, signals

ID = "C12"
RUNS = {"quick": 500, "thorough": 16000}
RULE = ("one simulated run: one or two processes make 3 to 9 calls (noisy signals of every kind, other constructions, calls that fail "
        "or are struck by a fault, reseeding and drawing from the global generators), singly or in 2 to 3 interleaved threads; every "
        "signal is compared bit for bit with the same request made alone on another machine with other entropy and clock, and the "
        "global random streams are compared around every call; non-trivial when the same request was made twice or in threads")
ASSUMPTIONS = ["numpy's and Python's generators are pure functions of their state"]


def one(rng):
    """A noisy signal; rare kinds get their share."""
    if rng.random() < 0.5:
        return signals.gen(rng, noise=0.9)
    c = rng.choice(signals.ALL)
    while True:
        s = signals.gen(rng, noise=0.9)
        if s["c"] == c:
            return s


def gen(rng, tier):
    shared = otherhash.pool(1, OTHER_N)
    pool = [rng.choice(shared) if rng.random() < 0.3 else one(rng) for _ in range(rng.choice([1, 2, 2, 3]))]
    if rng.random() < 0.6:
        pool += [signals.twin(rng, rng.choice(pool)) for _ in range(rng.choice([1, 1, 2]))]
    ops = []
    for _ in range(rng.randint(3, 8)):
        x = rng.random()
        if x < 0.5:
            ops.append({"op": "signal", "s": rng.choice(pool)})
        elif x < 0.68:
            ops.append({"op": "threads", "s": [rng.choice(pool) for _ in range(rng.choice([2, 2, 3]))]})
        elif x < 0.76:
            ops.append({"op": "seed", "n": rng.randrange(1000)})
        elif x < 0.82:
            ops.append({"op": "draw", "n": rng.randint(1, 50)})
        elif x < 0.9:
            ops.append({"op": "other", "s": common.gen_any(rng, Lmax=3)})
        elif x < 0.95:
            ops.append({"op": "invalid", "n": rng.randrange(3)})
        else:
            ops.append({"op": "struck", "s": rng.choice(pool), "kind": rng.choice(["compute", "disk"])})
    ops.append({"op": "signal", "s": rng.choice(pool)})
    return {"ops": ops, "procs": rng.choice([1, 1, 2]), "ncpu": rng.choice([1, 2, 4]),
            "sched": {"p": rng.choice([0.003, 0.02, 0.1]), "next": rng.choice([0.0, 1.0]), "hot": rng.choice([0, 0, 8, 20, 50]), "stall": rng.choice([0.0, 0.3, 0.9])},
            "fault": {"kinds": [], "budget": 0}}


OTHER = {}  # digests from a real process with another string hash seed
OTHER_N = 60


def warm(runner):
    common.warm_meshes()
    OTHER.update(otherhash.digests(1, OTHER_N))


def streams():
    """The state of the caller's global random streams."""
    s = np.random.get_state()
    return (s[0], s[1].tobytes(), s[2:], random.getstate())


def run(world, plan):
    fixtures.publish_standard(world)
    todo = []
    for o in plan["ops"]:
        todo += o["s"] if o["op"] == "threads" else [o["s"]] if o["op"] == "signal" else []
    want = {}
    for s in todo:
        k = common.key(s)
        if k not in want:
            want[k] = signals.alone(world, s, env={"NCPU": "4"})
            other = OTHER.get(k)
            if other is not None and other != otherhash.digest(want[k], signals.exact(s)):
                raise Violation("not-reproducible", f"{signals.describe(s)} is not the same in a process with other string hashes")

    def check(s, got, note):
        d = signals.same(want[common.key(s)], got, exact=signals.exact(s))
        if d:
            raise Violation("not-reproducible", f"{signals.describe(s)} {note}: {d}")

    def prog():
        os.environ["NCPU"] = str(plan["ncpu"])
        mine = np.random.default_rng(7)
        expected = np.random.default_rng(7)
        before = streams()
        out = []
        for i, o in enumerate(plan["ops"]):
            note = f"as call {i} after " + (", ".join(p["op"] for p in plan["ops"][:i]) or "nothing")
            if o["op"] == "signal":
                check(o["s"], signals.build(o["s"]), note)
            elif o["op"] == "threads":
                got = {}

                def work(j, s):
                    try:
                        got[j] = signals.build(s)
                    except Exception as e:  # noqa: BLE001
                        got[j] = e

                ts = [threading.Thread(target=work, args=(j, s)) for j, s in enumerate(o["s"])]
                for t in ts:
                    t.start()
                for t in ts:
                    t.join()
                for j, s in enumerate(o["s"]):
                    if isinstance(got[j], Exception):
                        raise Violation("fails", f"{signals.describe(s)} in a thread: {common.exc_text(got[j])}")
                    check(s, got[j], f"in thread {j} of {len(ts)} {note}")
            elif o["op"] == "seed":
                np.random.seed(o["n"])
                random.seed(o["n"])
                before = streams()
            elif o["op"] == "draw":
                np.random.standard_normal(o["n"])
                random.random()
                before = streams()
            elif o["op"] == "other":
                common.build(o["s"])
            elif o["op"] == "invalid":
                import sleplet

                for f in (lambda: sleplet.functions.Gaussian(4, extra_args=[1, 2, 3], noise=2.0),
                          lambda: sleplet.functions.SphericalHarmonic(3, ell=9, m=0, noise=1.0),
                          lambda: sleplet.slepian.SlepianPolarCap(3, 0.0))[o["n"]:o["n"] + 1]:
                    try:
                        f()
                    except Exception:  # noqa: BLE001, S110
                        pass
            elif o["op"] == "struck":
                world.dec.kinds = {"compute": ["nomem"], "disk": ["EIO", "ENOSPC", "EACCES"]}[o["kind"]]
                world.dec.budget, world.dec.p_fault = 1, 0.2
                world.compute_faults(o["kind"] == "compute")
                try:
                    signals.build(o["s"])
                except Exception:  # noqa: BLE001, S110
                    pass
                world.dec.budget = 0
                world.compute_faults(False)
            after = streams()
            if after != before:
                which = "numpy" if after[:3] != before[:3] else "Python"
                raise Violation("disturbs-streams", f"{o['op']} {what(o)} changed the state of {which}'s global generator")
            if mine.standard_normal() != expected.standard_normal():
                raise Violation("disturbs-streams", "a generator of the caller's own was changed")
        return out

    common.put_masks(world, [o["s"] for o in plan["ops"] if o["op"] == "other"])
    for p in range(plan["procs"]):
        out = world.process(prog, trace=True)
        if out.kind == "abort":
            raise Violation("no-progress", str(out.exc))
        if isinstance(out.exc, Violation):
            raise out.exc
        if not out.ok:
            raise Violation("fails", f"process {p}: {common.exc_text(out.exc)}")
    return {"nontrivial": len(todo) > len(want) or any(o["op"] == "threads" for o in plan["ops"]),
            "tags": sorted({s["c"] for s in todo})}


def what(o):
    s = o.get("s")
    if s is None:
        return ""
    if isinstance(s, list):
        return " ".join(signals.describe(x) for x in s)
    return signals.describe(s) if "g" in s else common.describe(s)


def shrink(plan):
    for i, o in enumerate(plan["ops"]):
        if len(plan["ops"]) > 1:
            p = copy.deepcopy(plan)
            del p["ops"][i]
            yield p
        if o["op"] == "threads":
            for j in range(len(o["s"])):
                if len(o["s"]) > 1:
                    p = copy.deepcopy(plan)
                    del p["ops"][i]["s"][j]
                    yield p
    if plan["procs"] > 1:
        yield dict(copy.deepcopy(plan), procs=1)
    if plan["ncpu"] != 1:
        yield dict(copy.deepcopy(plan), ncpu=1)
