"""Processes sharing a data directory never harm one another."""

import copy
import math

from .. import fixtures
from ..runner import Violation
from . import common

ID = "C07"
RUNS = {"quick": 700, "thorough": 30000}
RULE = ("one simulated run: 2 to 4 processes with their own worker counts construct the same or different things at the same time "
        "in one (empty, missing or partly filled) data directory and download cache, interleaved at every file operation, network "
        "operation and, at random, source line; in some runs one of them is killed at a seeded operation; every survivor and a "
        "later process is judged; non-trivial when processes interleaved")


def gen(rng, tier):
    pool = [common.gen_any(rng, earth=0.15, maps=0.2, Lmax=3 if tier == "quick" else 5) for _ in range(rng.choice([1, 1, 2, 3]))]
    procs = [{"specs": [rng.choice(pool) for _ in range(rng.choice([1, 1, 2]))], "ncpu": rng.choice([1, 1, 2, 4])}
             for _ in range(rng.choice([2, 2, 3, 4]))]
    plan = {
        "procs": procs,
        "stored": rng.choice([False, False, False, True]),
        "drop": [rng.random() < 0.5 for _ in range(6)],
        "outage": not any(common.uses_archive(s) for s in pool) and rng.random() < 0.8,
        "mkdirs": rng.random() < 0.5,
        "sched": {"p": rng.choice([0.003, 0.01, 0.03]), "next": rng.choice([0.3, 1.0]), "hot": rng.choice([0, 0, 0, 8, 30]), "stall": rng.choice([0.0, 0.0, 0.5])},
    }
    if rng.random() < 0.4:
        plan["fault"] = {"kinds": [f"kill@fs.{x}" for x in ("open_w", "write", "close", "fsync", "rename", "mkdir", "unlink")],
                         "budget": rng.choice([1, 1, 2]), "at": [int(math.exp(rng.uniform(0, 3.8))) for _ in range(2)]}
    return plan


def run(world, plan):
    fixtures.publish_standard(world)
    world.net.outage = plan["outage"]
    specs = [s for p in plan["procs"] for s in p["specs"]]
    common.put_masks(world, specs)
    given = set(common.data_files(world))
    kill = bool(plan.get("fault"))
    budget, world.dec.budget = world.dec.budget, 0
    if plan["stored"]:
        for s in specs:
            out = world.process(lambda s=s: common.build(s))
            if not out.ok:
                raise Violation("fault-free", f"{common.describe(s)} fails alone: {common.exc_text(out.exc)}")
        for n, drop in zip([n for n in common.data_files(world) if n not in given], plan["drop"]):
            if drop:
                world.remove(f"{world.data}/{n}")
    world.dec.budget = budget
    world.fs.crash_kinds = ["kill"] if kill else []
    s0 = world.sim.switch_count
    outs = world.processes([
        {"fn": (lambda p=p: [common.build(s) for s in p["specs"]]), "env": {"NCPU": str(p["ncpu"])}, "trace": True}
        for p in plan["procs"]
    ])
    switched = world.sim.switch_count - s0
    world.calm()
    world.net.outage = plan["outage"]
    tags = []
    crashed = sum(o.kind == "crash" for o in outs)
    note = f"among {len(outs)} processes" + (f", {crashed} killed" if crashed else "")
    for p, o in zip(plan["procs"], outs):
        what = ", ".join(common.describe(s) for s in p["specs"])
        if o.kind == "crash":
            tags.append("killed")
            continue
        if o.kind == "abort":
            raise Violation("no-progress", f"{what} {note}: {o.exc}")
        if not o.ok:
            raise Violation("process-fails", f"{what} {note}: {common.exc_text(o.exc)}")
        tags.append("finished")
        for s, r in zip(p["specs"], o.value):
            common.judge_or("process-wrong", s, r, note=note)
    bad = common.unreadable(world, everything=True)
    uniq = {common.key(s): s for s in specs}
    later = world.process(lambda: [common.build(s) for s in uniq.values()])
    if not later.ok:
        raise Violation("later-fails", f"{note}, a later process: {common.exc_text(later.exc)}")
    for s, r in zip(uniq.values(), later.value):
        common.judge_or("later-wrong", s, r, note=f"in a process after {note}")
    bad = common.looked_for(world, bad)
    if bad:
        raise Violation("half-written", f"left by {note}: {bad}")
    return {"nontrivial": switched > len(outs) + 1, "tags": tags}


def shrink(plan):
    for i in range(len(plan["procs"])):
        if len(plan["procs"]) > 2:
            p = copy.deepcopy(plan)
            del p["procs"][i]
            yield p
        if len(plan["procs"][i]["specs"]) > 1:
            for j in (0, 1):
                p = copy.deepcopy(plan)
                del p["procs"][i]["specs"][j]
                yield p
        if plan["procs"][i]["ncpu"] > 1:
            p = copy.deepcopy(plan)
            p["procs"][i]["ncpu"] = 1
            yield p
    for k, v in (("stored", False), ("mkdirs", True)):
        if plan[k] != v:
            yield dict(copy.deepcopy(plan), **{k: v})


def warm(runner):
    common.warm_meshes()
