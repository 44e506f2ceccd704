"""Threads of one program can use the library at the same time."""

import copy
import threading

import numpy as np

from .. import fixtures
from ..runner import Violation
from . import common

ID = "C10"
RUNS = {"quick": 1300, "thorough": 40000}
RULE = ("one simulated run: 2 to 4 threads of one fresh process construct the same or different bases, meshes and maps at the same "
        "time (first use of the library included) under seeded line-level preemption, sharing an empty or filled store and the "
        "download cache; every thread's results are judged, then a later process is; non-trivial when threads interleaved")


def gen(rng, tier):
    pool = [common.gen_any(rng, earth=0.1, maps=0.3, Lmax=3 if tier == "quick" else 5) for _ in range(rng.choice([1, 1, 2, 3]))]
    return {
        "threads": [[rng.choice(pool) for _ in range(rng.choice([1, 1, 2]))] for _ in range(rng.choice([2, 2, 3, 4]))],
        "before": rng.random() < 0.2,
        "stored": rng.random() < 0.2,
        "outage": not any(common.uses_archive(s) for s in pool) and rng.random() < 0.5,
        "mkdirs": rng.random() < 0.5,
        "ncpu": rng.choice([1, 2, 4]),
        "sched": {"p": rng.choice([0.003, 0.01, 0.05, 0.2]), "next": rng.choice([0.0, 0.3, 1.0]), "hot": rng.choice([0, 0, 8, 20, 50]), "stall": rng.choice([0.0, 0.3, 0.9])},
        "opcodes": rng.random() < 0.05,
    }


def run(world, plan):
    fixtures.publish_standard(world)
    world.net.outage = plan["outage"]
    specs = [s for t in plan["threads"] for s in t]
    common.put_masks(world, specs)
    uniq = {common.key(s): s for s in specs}
    if plan["stored"]:
        out = world.process(lambda: [common.build(s) for s in uniq.values()])
        if not out.ok:
            raise Violation("fault-free", common.exc_text(out.exc))
    baseline = {}
    for k, s in uniq.items():
        if s["k"] == "map":
            outs, _ = world.aside(fixtures.publish_standard, lambda s=s: common.build(s))
            if not outs[0].ok:
                raise Violation("fault-free", f"{common.describe(s)}: {common.exc_text(outs[0].exc)}")
            baseline[k] = outs[0].value

    def prog():
        if plan["before"]:
            common.build(specs[0])
        res = {}

        def work(i):
            try:
                res[i] = [common.build(s) for s in plan["threads"][i]]
            except Exception as e:  # noqa: BLE001
                res[i] = e

        ts = [threading.Thread(target=work, args=(i,)) for i in range(len(plan["threads"]))]
        for t in ts:
            t.start()
        for t in ts:
            t.join()
        return res

    s0 = world.sim.switch_count
    out = world.process(prog, env={"NCPU": str(plan["ncpu"])}, trace=True)
    switched = world.sim.switch_count - s0
    if out.kind == "abort":
        raise Violation("waits-for-ever", str(out.exc))
    if not out.ok:
        raise Violation("fails", common.exc_text(out.exc))

    def check(s, r, klass, note):
        common.judge_or(klass, s, r, note=note)
        b = baseline.get(common.key(s))
        if b is not None and not common.agree(b["coefficients"], r["coefficients"]):
            raise Violation(klass, f"{common.describe(s)}: other coefficients than alone, {note}")

    n = len(plan["threads"])
    for i, t in enumerate(plan["threads"]):
        r = out.value.get(i)
        what = ", ".join(common.describe(s) for s in t)
        if r is None:
            raise Violation("fails", f"thread {i} of {n} ({what}) never finished")
        if isinstance(r, Exception):
            raise Violation("fails", f"thread {i} of {n} ({what}): {common.exc_text(r)}")
        for s, x in zip(t, r):
            check(s, x, "wrong", f"in thread {i} of {n}")
    bad = common.unreadable(world, everything=True)
    later = world.process(lambda: [common.build(s) for s in uniq.values()])
    if not later.ok:
        raise Violation("later-fails", f"after {n} threads: {common.exc_text(later.exc)}")
    for s, x in zip(uniq.values(), later.value):
        check(s, x, "later-wrong", f"in a process after {n} threads")
    bad = common.looked_for(world, bad)
    if bad:
        raise Violation("half-written", f"left by {n} threads: {bad}")
    return {"nontrivial": switched > n + 2, "tags": sorted({s["k"] for s in specs})}


def shrink(plan):
    for i in range(len(plan["threads"])):
        if len(plan["threads"]) > 2:
            p = copy.deepcopy(plan)
            del p["threads"][i]
            yield p
        if len(plan["threads"][i]) > 1:
            for j in (0, 1):
                p = copy.deepcopy(plan)
                del p["threads"][i][j]
                yield p
    for k, v in (("before", False), ("stored", False), ("mkdirs", True), ("ncpu", 1), ("opcodes", False)):
        if plan[k] != v:
            yield dict(copy.deepcopy(plan), **{k: v})


def warm(runner):
    common.warm_meshes()
