"""Shared memory, threads and temporary files are released on every exit path."""

import copy
import gc
import os

from .. import fixtures
from ..runner import Violation
from . import common

ID = "C11"
RUNS = {"quick": 1500, "thorough": 50000}
RULE = ("one simulated run: one process constructs things two to six times, ending in success, an invalid worker setting or order, "
        "a worker, allocation, shared-memory, thread-start or disk failure, a failed download, or an interrupt while waiting; after "
        "each call its shared memory, threads, open and temporary files are counted; non-trivial when a call failed")
ASSUMPTIONS = ["faults strike library calls that can fail (allocation, shared memory, threads, files, network), not the lines of "
               "clean-up code itself; removing a temporary file does not itself fail",
               "a worker that has done its work gets a moment to leave"]

VALID = ("1", "2", "3", "4", "16")

FAULTS = {
    "compute": ["nomem"],
    "shm": ["EMFILE@shm.attach", "ENOMEM@shm.attach", "EMFILE@shm.create", "ENOSPC@shm.create", "ENOMEM@shm.create"],
    "thread": ["no_thread"],
    "disk": [f"{k}@fs.{s}" for s, ks in {
        "open_w": ["ENOSPC", "EIO", "EACCES", "EMFILE"], "write": ["ENOSPC", "EIO", "short"], "close": ["EIO", "ENOSPC"],
        "fsync": ["EIO"], "rename": ["EIO", "EACCES"], "mkdir": ["EACCES"], "read": ["EIO"], "open_r": ["EACCES", "EIO"]}.items()
        for k in ks],
    "interrupt": ["interrupt"],
    "net": [f"{k}@net.file" for k in ("refused", "timeout", "truncated", "corrupt", "reset_mid", "stall")],
}


def gen(rng, tier):
    calls = []
    for _ in range(rng.randint(1, 4)):
        s = common.gen_any(rng, earth=0.05, maps=0.1, Lmax=3 if tier == "quick" else 5)
        c = {"spec": s, "ncpu": str(rng.choice([1, 2, 3, 4, 16]))}
        x = rng.random()
        if x < 0.12:
            c["ncpu"] = rng.choice(["0", "-1", "x", "", "1.5", " 2", "99"])
        elif x < 0.2 and s["k"] == "cap":
            s["order"] = s["L"] + rng.randrange(3)
        elif x < 0.24 and s["k"] == "arb":
            s["m"] = "nowhere"
        elif x < 0.85:
            kind = rng.choice(["compute", "worker", "worker", "shm", "shm", "thread", "disk", "disk", "interrupt", "interrupt", "net"])
            c["fault"] = {"kind": kind, "budget": rng.choice([1, 1, 2, 3]), "p": rng.choice([0.03, 0.1, 0.3, 1.0])}
            if kind == "worker":  # a worker fails in the middle of an integral
                c["fault"]["at"] = [[rng.randrange(4), rng.choice([0, 30, 100, 300, 1000])] for _ in range(rng.choice([1, 1, 2]))]
        calls.append(c)
    calls.append(copy.deepcopy(rng.choice(calls)))
    if rng.random() < 0.3:
        calls[-1].pop("fault", None)
    return {"calls": calls, "outage": not any(common.uses_archive(c["spec"]) for c in calls) and rng.random() < 0.8,
            "sched": {"p": rng.choice([0.0, 0.01, 0.05]), "next": rng.choice([0.0, 1.0]), "hot": rng.choice([0, 0, 0, 8, 30]), "stall": rng.choice([0.0, 0.0, 0.5])},
            "fault": {"kinds": [], "budget": 0}}


def run(world, plan):
    fixtures.publish_standard(world)
    world.net.outage = plan["outage"]
    common.put_masks(world, [c["spec"] for c in plan["calls"]])
    tags = set()
    state = {"failed": 0}
    note = []

    def temp_files():
        out = [f for f in os_walk(world.data) if not f.endswith(".npy")]
        names = set(world.archive.files)
        out += [f for f in os_walk(world.cache) if os.path.basename(f) not in names]
        return out + os_walk(world.tmp)

    def prog():
        me = world.procs[-1]
        for i, c in enumerate(plan["calls"]):
            os.environ["NCPU"] = c["ncpu"]
            f = c.get("fault")
            world.dec.budget = 0
            if f and f["kind"] == "worker":
                world.arm_line_faults(f["at"], files=("_integration_methods.py", "harmonic_methods.py"))
            elif f:
                world.dec.kinds, world.dec.budget, world.dec.p_fault = FAULTS[f["kind"]], f["budget"], f["p"]
                world.compute_faults(f["kind"] == "compute")
                me.interruptible = f["kind"] == "interrupt"
            how = "success"
            res = None
            try:
                res = common.build(c["spec"])
            except (Exception, KeyboardInterrupt) as e:  # noqa: BLE001
                how = common.exc_text(e)
                state["failed"] += 1
                tags.add(type(e).__name__)
                e = None
            world.dec.budget = 0
            world.sim.line_faults = None
            world.compute_faults(False)
            me.interruptible = False
            running = {t: t.ticks for t in me.tasks if t.state != "done" and t is not world.sim.current}
            world.sim.sleep(1.0)
            # an interrupt may cut short the wait for the workers itself
            late = [t.key for t, n in running.items() if t.ticks > n and not (f and f["kind"] == "interrupt")]
            gc.collect()
            leaks = world._leaks(me)
            leaks["temporary files"] = temp_files()
            note.append(how)
            leaks["threads still at work after the call"] = late
            left = {k: v for k, v in leaks.items() if v}
            d = common.describe(c["spec"])
            if left:
                return ("leak", f"call {i} ({d}, NCPU={c['ncpu']!r}) ended in {how} and left {left}")
            if res is not None and c["ncpu"] not in VALID:
                state["odd"] = True  # what a meaningless number of workers gives, and stores, is not this property's business
            if res is not None and not state.get("odd"):
                try:
                    common.judge(c["spec"], res)
                except common.oracle.Mismatch as e:
                    return ("after-release", f"call {i}: {e} (earlier calls: {note})")
            elif res is None and not f and c["ncpu"] in VALID and common.key(c["spec"]) in valid:
                return ("fails", f"call {i} ({d}) fails without a fault: {how}")
        return None

    valid = {common.key(c["spec"]) for c in plan["calls"]
             if not (c["spec"].get("order") or 0) >= c["spec"].get("L", 99) and c["spec"].get("m") != "nowhere"}
    out = world.process(prog, trace=True, interruptible=False)
    if out.kind == "abort":
        raise Violation("no-progress", f"{out.exc} after {note}")
    if not out.ok:
        raise Violation("leak", f"a later call of the process failed: {common.exc_text(out.exc)} after {note}")
    if out.value:
        raise Violation(*out.value)
    return {"nontrivial": state["failed"] > 0, "tags": sorted(tags)}


def os_walk(base):
    from ..fs import R

    out = []
    for dp, dn, fn in R["walk"](base) if "walk" in R else os.walk(base):
        out += [os.path.relpath(os.path.join(dp, f), base) for f in fn]
    return out


def shrink(plan):
    for i in range(len(plan["calls"])):
        if len(plan["calls"]) > 1:
            p = copy.deepcopy(plan)
            del p["calls"][i]
            yield p
    if plan["sched"]["p"] or plan["sched"]["next"]:
        yield dict(copy.deepcopy(plan), sched={"p": 0.0, "next": 0.0})


def warm(runner):
    common.warm_meshes()
