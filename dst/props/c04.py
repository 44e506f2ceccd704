"""Disk and system-call errors never corrupt results or the store."""

import math

from .. import fixtures, fs
from ..runner import Violation
from . import common

ID = "C04"
RUNS = {"quick": 2400, "thorough": 60000}
RULE = ("one simulated run: a basis, mask, mesh or map is built (on an empty, partly or fully filled store) while file operations "
        "fail with seeded errors, short writes or a full disk (what a failed flush did not write is dropped); the store is inspected and the same object is built again in the "
        "same and in a later process; non-trivial when a fault fired")
ASSUMPTIONS = ["an error or short write is delivered to the library by the Python-level file call that met it"]

ALL = sorted({k for ks in fs.SITE_FAULTS.values() for k in ks})
MUTATING = [f"{k}@fs.{s}" for s, ks in fs.SITE_FAULTS.items() for k in ks
            if s not in ("stat", "read", "open_r", "listdir")]
READING = [f"{k}@fs.{s}" for s, ks in fs.SITE_FAULTS.items() for k in ks if s in ("stat", "read", "open_r", "listdir")]


def gen(rng, tier):
    target = common.gen_any(rng, earth=0.15, maps=0.1, Lmax=4 if tier == "quick" else 6)
    stored = rng.choice(["nothing", "nothing", "some", "all"])
    kinds = READING + MUTATING if stored == "all" else rng.choice([MUTATING, MUTATING, READING, MUTATING + READING])
    plan = {
        "target": target, "stored": stored, "keep": [rng.random() < 0.5 for _ in range(6)],
        "ncpu": rng.choice([1, 2, 4]),
        "outage": (not common.uses_archive(target)) and rng.random() < 0.7,
        "mkdirs": rng.random() < 0.7,
        "full": rng.random() < 0.1,
        "sched": {"p": rng.choice([0.0, 0.01]), "next": rng.choice([0.0, 1.0])},
    }
    n = rng.choice([1, 1, 1, 2, 3, 8])
    if rng.random() < 0.6:
        hi = 2.7 if kinds is MUTATING else 4.3
        plan["fault"] = {"kinds": kinds, "budget": n, "at": [int(math.exp(rng.uniform(0, hi))) for _ in range(n)]}
    else:
        plan["fault"] = {"kinds": kinds, "budget": n, "p": rng.choice([0.02, 0.05, 0.2, 0.5])}
    return plan


def run(world, plan):
    s = plan["target"]
    common.put_masks(world, [s])
    fixtures.publish_standard(world)
    world.net.outage = plan["outage"]
    d = common.describe(s)
    tags = [s["k"], "stored=" + plan["stored"]]
    if plan["stored"] != "nothing":
        budget, world.dec.budget = world.dec.budget, 0
        out = world.process(lambda: common.build(s))
        world.dec.budget = budget
        if not out.ok:
            raise Violation("fault-free", f"{d} fails without any fault: {common.exc_text(out.exc)}")
        if plan["stored"] == "some":
            given = common.mask_file(s["m"], s["L"]) if common.has_own_mask(s) else ""
            for name, keep in zip([n for n in sorted(world.listing()) if n != given], plan["keep"]):
                if not keep:
                    world.remove(f"{world.data}/{name}")
    if plan["full"]:
        world.fs.full = True

    def prog():
        try:
            first = common.build(s)
        except Exception as e:  # noqa: BLE001
            first = e
        world.fs.drop_unflushed(world.dec)
        bad = common.unreadable(world, everything=True)
        world.calm()
        world.net.outage = plan["outage"]
        return first, bad, common.build(s)

    out = world.process(prog, env={"NCPU": str(plan["ncpu"])}, trace=True)
    fired = dict(world.dec.fired)
    if plan["full"]:
        fired["full"] = 1
    if out.kind == "abort":
        raise Violation("no-progress", str(out.exc))
    if not out.ok:
        raise Violation("retry-failed", f"{d}: building it again after {fired} fails: {common.exc_text(out.exc)}")
    first, bad, second = out.value
    if isinstance(first, Exception):
        tags.append("raised " + type(first).__name__)
    else:
        tags.append("returned")
        common.judge_or("wrong", s, first, note=f"although {fired} happened")
    common.judge_or("poisoned", s, second, note=f"in the retry after {fired}")
    third = world.process(lambda: common.build(s))
    if not third.ok:
        raise Violation("retry-failed", f"{d}: the next process fails after {fired}: {common.exc_text(third.exc)}")
    common.judge_or("poisoned", s, third.value, note=f"in the next process after {fired}")
    bad = common.looked_for(world, bad)
    if bad:
        raise Violation("incomplete-file", f"{d}: after {fired} a later run would load {bad}")
    bad = common.unreadable(world)
    if bad:
        raise Violation("incomplete-file", f"{d}: after {fired} and a retry there is {bad}")
    return {"nontrivial": bool(fired), "tags": tags}


def shrink(plan):
    import copy

    for k, v in (("stored", "nothing"), ("ncpu", 1), ("mkdirs", True), ("full", False)):
        if plan[k] != v:
            yield dict(copy.deepcopy(plan), **{k: v})
    if plan["sched"]["p"] or plan["sched"]["next"]:
        yield dict(copy.deepcopy(plan), sched={"p": 0.0, "next": 0.0})
    if plan["target"].get("L", 2) > 2 and plan["target"].get("order") is None and plan["target"]["k"] != "map":
        p = copy.deepcopy(plan)
        p["target"]["L"] -= 1
        yield p


def warm(runner):
    common.warm_meshes()
