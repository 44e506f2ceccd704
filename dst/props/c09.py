"""An archive outage neither blocks local work nor is remembered."""

import copy
import os

import numpy as np

from .. import fixtures
from ..net import CATALOGUE_FAULTS
from ..runner import Violation
from . import common

ID = "C09"
RUNS = {"quick": 1500, "thorough": 40000}
RULE = ("one simulated run: one or two processes request bases, meshes and maps while the archive goes down in one of several ways, "
        "flickers and comes back between (and, flickering, within) the requests; non-trivial when a request met an outage")

KINDS = [k for k in CATALOGUE_FAULTS if k != "delay"]
FLICKER = [f"{k}@net.{s}" for k in CATALOGUE_FAULTS for s in ("doi", "catalogue", "page", "file") if (k, s) not in
           {("http429", "file"), ("html", "file"), ("truncated_json", "file"), ("reset", "file")}]


def gen(rng, tier):
    pool = [common.gen_any(rng, earth=0.2, maps=0.35, Lmax=3 if tier == "quick" else 5) for _ in range(rng.choice([1, 2, 3]))]
    ops = []
    for _ in range(rng.randint(3, 8)):
        x = rng.random()
        if x < 0.25:
            ops.append({"do": "down", "how": rng.choice(KINDS)})
        elif x < 0.4:
            ops.append({"do": "up"})
        elif x < 0.47:
            ops.append({"do": "flicker", "p": rng.choice([0.3, 0.7]), "n": rng.choice([1, 2, 6])})
        else:
            ops.append({"do": "build", "spec": rng.choice(pool)})
    if rng.random() < 0.7:
        ops.insert(0, {"do": "down", "how": rng.choice(KINDS)})
    ops += [{"do": "up"}, {"do": "build", "spec": rng.choice(pool)}]
    plan = {"ops": ops, "split": rng.choice([0, 0, 0, rng.randrange(len(ops))]), "publish": rng.random() < 0.25,
            "copy": rng.random() < 0.5, "mkdirs": rng.random() < 0.6, "ncpu": rng.choice([1, 2, 4]), "fault": {"kinds": FLICKER, "budget": 0}}
    return plan


def source(s):
    """The published file a specification cannot do without."""
    if not common.uses_archive(s):
        return None
    return fixtures.WMAP if s.get("c") == "Wmap" else fixtures.EARTH


def run(world, plan):
    fixtures.publish_standard(world)
    specs = [o["spec"] for o in plan["ops"] if o["do"] == "build"]
    common.put_masks(world, specs)
    pub = set()
    if plan["publish"]:
        for s in specs:
            if not common.uses_archive(s) and s.get("order") is None:
                for n, b in common.stored_files(world, s, publish=False)[0].items():
                    world.archive.publish(n, b)
                    if plan.get("copy"):  # the user has the published files in the data directory as well
                        world.put(os.path.join(world.data, n), b)
                pub.add(common.key(s))
                break
    pub_family = {common.key({k: v for k, v in s.items() if k != "order"}) for s in specs if common.key(s) in pub}
    if any(s["k"] in ("mesh", "meshslep") for s in specs if common.key(s) in pub):
        pub_family |= {common.key(s) for s in specs if s["k"] in ("mesh", "meshslep")}
    baseline = {}
    for s in specs:
        if s["k"] == "map" and common.key(s) not in baseline:
            outs, _ = world.aside(fixtures.publish_standard, lambda s=s: common.build(s))
            if not outs[0].ok:
                raise Violation("fault-free", f"{common.describe(s)}: {common.exc_text(outs[0].exc)}")
            baseline[common.key(s)] = outs[0].value
    state = {"net": "up"}
    met = [0]
    tags = set()

    def session(ops):
        fetched = set()
        results = []
        dark = True  # nothing was ever heard from the archive: what is stored locally is all there is
        for o in ops:
            if o["do"] == "down":
                world.net.outage, world.net.outage_kind = True, o["how"]
                world.dec.budget = 0
                state["net"] = o["how"]
            elif o["do"] == "up":
                world.net.outage = False
                world.dec.budget = 0
                state["net"] = "up"
            elif o["do"] == "flicker":
                world.net.outage = False
                world.dec.budget, world.dec.p_fault = o["n"], o["p"]
                state["net"] = "flicker"
            else:
                s = o["spec"]
                net = state["net"]
                dark = dark and net in KINDS
                r0, t0 = len(world.net.requests), world.sim.now
                b0 = world.dec.budget
                try:
                    res = common.build(s)
                except Exception as e:  # noqa: BLE001
                    res = e
                calm = net == "up" or net == "flicker" and world.dec.budget == b0
                met[0] += not calm and len(world.net.requests) > r0
                results.append((s, net, calm, res, len(world.net.requests) - r0, world.sim.now - t0, set(fetched), dark))
                if calm and not isinstance(res, Exception):
                    fetched.add(common.key(s))
                    if source(s):
                        fetched.add(source(s))
        return results

    parts = [plan["ops"][: plan["split"]], plan["ops"][plan["split"]:]] if plan["split"] else [plan["ops"]]
    for ops in parts:
        out = world.process(lambda ops=ops: session(ops), env={"NCPU": str(plan["ncpu"])})
        if out.kind == "abort":
            raise Violation("blocked", str(out.exc))
        if not out.ok:
            raise Violation("harness", common.exc_text(out.exc))
        for s, net, calm, res, nreq, dt, fetched, dark in out.value:
            d = common.describe(s)
            tags.add(f"{s['k']}/{net}")
            if nreq > 150 or dt > 7200:
                raise Violation("unbounded", f"{d}: {nreq} requests, {dt:.0f} simulated seconds with the archive {net}")
            fam = common.key({k: v for k, v in s.items() if k != "order"})
            may_fail = not calm and (source(s) and source(s) not in fetched or fam in pub_family and common.key(s) not in fetched
                                     and not (dark and plan.get("copy")))
            if isinstance(res, Exception):
                if not may_fail:
                    why = ("remembered" if calm else "blocked")
                    raise Violation(why, f"{d} fails with the archive {net}: {common.exc_text(res)}")
                tags.add("raised")
                continue
            common.judge_or("wrong", s, res, note=f"with the archive {net}")
            b = baseline.get(common.key(s))
            if b is not None and not common.agree(b["coefficients"], res["coefficients"]):
                raise Violation("wrong", f"{d}: other coefficients than without an outage, with the archive {net}")
            tags.add("delivered")
    return {"nontrivial": met[0] > 0, "tags": sorted(tags)}


def shrink(plan):
    for i in range(len(plan["ops"])):
        if len(plan["ops"]) > 1:
            p = copy.deepcopy(plan)
            del p["ops"][i]
            if p["split"] > i:
                p["split"] -= 1
            yield p
    for k, v in (("split", 0), ("publish", False), ("copy", False), ("ncpu", 1), ("mkdirs", True)):
        if plan.get(k, v) != v:
            yield dict(copy.deepcopy(plan), **{k: v})


def warm(runner):
    common.warm_meshes()
