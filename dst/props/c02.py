"""A failed worker never turns into a silently wrong basis."""

import math

from ..runner import Violation
from . import common

ID = "C02"
RUNS = {"quick": 800, "thorough": 20000}
RULE = ("one simulated run: a basis is built while chosen workers run out of memory at chosen source lines, cannot attach "
        "shared memory, cannot be started or fail inside a numerical call; then built again without faults in the same and in a "
        "new process; non-trivial when a fault fired")


def gen(rng, tier):
    s = common.gen_spec(rng, kinds=("cap", "gap", "order", "latlon", "arb", "meshslep"), Lmax=4)
    if s["k"] == "arb":
        s["L"] = 2
    ncpu = rng.choice([1, 2, 3, 4, 8])
    mode = rng.choice(["line", "line", "line", "site", "both"])
    plan = {
        "spec": s, "ncpu": ncpu,
        "sched": {"p": rng.choice([0.0, 0.01, 0.05]), "next": rng.choice([0.0, 1.0]), "hot": rng.choice([0, 0, 0, 8, 30]), "stall": rng.choice([0.0, 0.0, 0.5])},
        "lines": [],
    }
    if mode != "site":
        for _ in range(rng.choice([1, 1, 2])):
            plan["lines"].append([rng.randrange(0, ncpu * (1 if s["k"] != "cap" or s.get("order") is not None else 2 * s["L"] - 1)),
                                  int(math.exp(rng.uniform(0, 5.5)))])
    if mode != "line":
        plan["fault"] = {
            "kinds": ["EMFILE@shm.attach", "ENOMEM@shm.attach", "EMFILE@shm.create", "ENOSPC@shm.create", "ENOMEM@shm.create",
                      "no_thread", "nomem"],
            "budget": rng.choice([1, 1, 2, 5]),
        }
        if rng.random() < 0.5:
            plan["fault"]["at"] = [rng.randrange(0, 40)]
        else:
            plan["fault"]["p"] = rng.choice([0.005, 0.05, 0.2])
    return plan


def run(world, plan):
    world.net.outage = True
    s = plan["spec"]
    common.put_masks(world, [s])
    world.compute_faults(True)
    world.arm_line_faults(plan["lines"])

    def prog():
        try:
            first = common.build(s)
        except Exception as e:  # noqa: BLE001
            first = e
        world.calm()
        world.net.outage = True
        return first, common.build(s)

    out = world.process(prog, env={"NCPU": str(plan["ncpu"])}, trace=True)
    d = common.describe(s)
    fired = dict(world.dec.fired)
    if out.kind == "abort":
        raise Violation("no-progress", str(out.exc))
    if not out.ok:
        raise Violation("retry-failed", f"{d}: the construction after the faults {fired} fails: {common.exc_text(out.exc)}")
    first, second = out.value
    tags = [s["k"]]
    if isinstance(first, Exception):
        tags.append("raised " + type(first).__name__)
    else:
        tags.append("returned")
        common.judge_or("silently-wrong", s, first, note=f"although {fired} happened")
    common.judge_or("poisoned", s, second, note=f"in the retry after {fired}")
    world.fs.sync()
    third = world.process(lambda: common.build(s))
    if not third.ok:
        raise Violation("retry-failed", f"{d}: the next process fails: {common.exc_text(third.exc)}")
    common.judge_or("poisoned", s, third.value, note=f"in the next process after {fired}")
    return {"nontrivial": bool(fired), "tags": tags}


def shrink(plan):
    import copy

    for i in range(len(plan["lines"])):
        if len(plan["lines"]) > 1 or plan.get("fault"):
            p = copy.deepcopy(plan)
            del p["lines"][i]
            yield p
    for n in (1, 2):
        if plan["ncpu"] > n:
            yield dict(copy.deepcopy(plan), ncpu=n)
    if plan["sched"]["p"]:
        yield dict(copy.deepcopy(plan), sched={"p": 0.0, "next": 0.0})
    if plan["spec"].get("L", 2) > 2 and plan["spec"].get("order") is None:
        p = copy.deepcopy(plan)
        p["spec"]["L"] -= 1
        yield p


def warm(runner):
    common.warm_meshes()
