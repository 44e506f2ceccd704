"""A crash at any point never poisons later runs."""

import math

from .. import fixtures
from ..runner import Violation
from . import common

ID = "C03"
RUNS = {"quick": 2400, "thorough": 30000}
RULE = ("one simulated run: an earlier result is stored, then a process building or downloading something is killed, or the "
        "machine loses power (unsynced data torn or lost, a suffix of directory operations lost), at a seeded file or network "
        "operation, up to twice; then everything is built again in later processes; non-trivial when a crash happened")
ASSUMPTIONS = [
    "after a power loss: fsynced file contents survive, other contents survive in any prefix, directory operations are lost in a "
    "suffix of their order; a run that ended long ago is durable",
    "a killed process stops at a file, network or scheduling operation: between them the disk does not change",
]


def gen(rng, tier):
    target = common.gen_any(rng, earth=0.15, maps=0.15, Lmax=4 if tier == "quick" else 6)
    earlier = common.gen_any(rng, earth=0.1, Lmax=3) if rng.random() < 0.6 else None
    if rng.random() < 0.2:
        earlier = target
    if rng.random() < 0.1:  # the stored solution of this configuration is truncated at the Shannon number
        target = {"k": "latlon", "L": rng.choice([3, 4]), "a": [20, 60, 30, 200]}
    plan = {
        "target": target, "earlier": earlier,
        "rounds": rng.choice([1, 1, 1, 2]),
        "ncpu": rng.choice([1, 2, 4]),
        "later_ncpu": rng.choice([1, 3, 4]),
        "outage": (not common.uses_archive(target)) and rng.random() < 0.7,
        "mkdirs": rng.random() < 0.7,
        "sched": {"p": rng.choice([0.0, 0.01]), "next": rng.choice([0.0, 1.0])},
    }
    kinds = rng.choice([["kill"], ["power"], ["kill", "power"]])
    # the interesting operations of a run are its last hundred or so
    plan["reads"] = rng.random() < 0.1  # also stop at operations that change nothing
    plan["after"] = "power" in kinds and rng.random() < 0.25  # ... or lose power just after the process ended
    at = [int(math.exp(rng.uniform(0, 4.6 if plan["reads"] else 3.3))) for _ in range(3)]
    plan["fault"] = {"kinds": kinds, "budget": plan["rounds"], "at": at} if rng.random() < 0.6 else {
        "kinds": kinds, "budget": plan["rounds"], "p": rng.choice([0.01, 0.03, 0.1] if plan["reads"] else [0.05, 0.1, 0.2])}
    if plan["after"] and rng.random() < 0.7:
        plan["fault"]["budget"] = 0
    # another process is at the same work meanwhile
    plan["peer"] = kinds == ["kill"] and rng.random() < 0.35
    if plan["peer"]:
        plan["sched"] = {"p": rng.choice([0.003, 0.02]), "next": 1.0}
    return plan


def run(world, plan):
    t, e = plan["target"], plan["earlier"]
    common.put_masks(world, [s for s in (t, e) if s])
    fixtures.publish_standard(world)
    if e and common.uses_archive(e):
        plan = dict(plan, outage=False)
    world.net.outage = plan["outage"]
    tags = [t["k"]]
    before = {}
    if e:
        budget, world.dec.budget = world.dec.budget, 0
        out = world.process(lambda: common.build(e))
        world.dec.budget = budget
        if not out.ok:
            raise Violation("fault-free", f"{common.describe(e)} fails without any fault: {common.exc_text(out.exc)}")
        world.fs.sync()
        before = world.listing()
    env = {"NCPU": str(plan["ncpu"])}
    crashes = 0
    world.fs.crash_kinds = plan["fault"]["kinds"]
    world.fs.crash_on_reads = plan["reads"]
    for _ in range(plan["rounds"]):
        world.dec.budget = min(world.dec.budget, 1)
        peers = []
        stored = set()
        if plan.get("peer"):
            def work():
                r = common.build(t)
                stored.update(n for n in common.data_files(world) if n.endswith(".npy"))
                return r

            out, *peers = world.processes([{"fn": work, "env": env, "trace": True} for _ in range(2)])
        else:
            out = world.process(lambda: common.build(t), env=env, trace=True)
        for o in peers:
            crashes += o.kind == "crash"
            if o.kind not in ("ok", "crash"):
                raise Violation("fails-after-crash", f"{common.describe(t)} in one of two processes: {common.exc_text(o.exc)}")
            if o.ok:
                common.judge_or("wrong-after-crash", t, o.value, note="beside another process")
        gone = sorted(stored - set(common.data_files(world)))
        if gone:
            raise Violation("destroyed", f"{gone[0]} was stored when one of two processes completed and is gone "
                            "after the other ended")
        crashes += out.kind == "crash"
        if out.kind == "raise":
            raise Violation("fails-after-crash", f"{common.describe(t)} fails after {crashes} crashes: {common.exc_text(out.exc)}")
        if out.ok:
            common.judge_or("wrong-after-crash", t, out.value, note=f"after {crashes} crashes")
            if plan["after"]:
                world.power_loss()
                crashes += 1
        now = world.listing()
        for name, data in before.items():
            if now.get(name) != data:
                raise Violation("destroyed", f"{name}, stored by an earlier completed run, is "
                                f"{'gone' if name not in now else 'changed'} after a crash")
        world.dec.budget = plan["fault"]["budget"] - sum(world.dec.fired.values())
    world.calm()
    world.net.outage = plan["outage"]
    env = {"NCPU": str(plan["later_ncpu"])}
    for what, s in (("next", t), ("earlier", e), ("third", t)):
        if s is None:
            continue
        out = world.process(lambda s=s: common.build(s), env=env)
        if not out.ok:
            raise Violation("poisoned", f"{common.describe(s)}: the {what} run after the crash fails: {common.exc_text(out.exc)}")
        common.judge_or("poisoned", s, out.value, note=f"in the {what} run after the crash")
        if what == "next":
            bad = common.unreadable(world)
            if bad:
                raise Violation("unreadable", f"left for later runs to load: {bad}")
    return {"nontrivial": crashes > 0, "tags": [*tags, f"crashes={crashes}"]}


def shrink(plan):
    import copy

    for k, v in (("earlier", None), ("rounds", 1), ("after", False), ("ncpu", 1), ("later_ncpu", 1), ("mkdirs", True)):
        if plan[k] != v:
            yield dict(copy.deepcopy(plan), **{k: v})
    if plan["sched"]["p"] or plan["sched"]["next"]:
        yield dict(copy.deepcopy(plan), sched={"p": 0.0, "next": 0.0})
    if plan["target"].get("L", 2) > 2 and plan["target"].get("order") is None and plan["target"]["k"] != "map":
        p = copy.deepcopy(plan)
        p["target"]["L"] -= 1
        yield p


def warm(runner):
    common.warm_meshes()
