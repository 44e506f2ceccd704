"""Eigensolutions are right for every worker count and worker schedule."""

from ..runner import Violation
from . import common

ID = "C01"
RUNS = {"quick": 2000, "thorough": 12000}
RULE = ("one simulated run: one to three regions built under a seeded worker schedule with line-level preemption, "
        "judged against independently computed concentration matrices; non-trivial when workers interleaved")
ASSUMPTIONS = ["preemption happens between source lines of sleplet and at every library-level synchronisation or I/O point"]


def gen(rng, tier):
    n = rng.choice([1, 1, 2])
    objs = []
    for _ in range(n):
        s = common.gen_spec(rng, kinds=("cap", "gap", "order", "latlon", "arb", "arb", "meshslep"),
                            Lmax=5 if tier == "quick" else 8, wide=True)
        ncpu = rng.choice([1, 2, 3, 4, 5, 7, 16, 40, None])
        if s["k"] == "arb":
            s["L"] = rng.choice([2, 2, 3, 3] if tier == "quick" else [2, 3, 3, 4])
        objs.append({"spec": s, "ncpu": ncpu})
    big = rng.random() < 0.05
    if big:  # few, but with more rows than anywhere else
        objs = objs[:1]
        k = rng.choice(["order", "order", "order", "cap", "one", "latlon", "meshslep"])
        t = round(rng.uniform(10, 170), 1)
        L = rng.randint(6, 18)
        objs[0]["spec"] = {
            "order": {"k": "cap", "L": L, "t": t, "order": rng.randint(-(L - 1), L - 1)},
            "cap": {"k": "cap", "L": rng.randint(6, 7), "t": t},
            "one": {"k": rng.choice(["cap", "latlon"]), "L": 1, "t": t, "a": [20.0, t + 5.0, 30.0, 200.0]},
            "latlon": {"k": "latlon", "L": 5, "a": [t / 3, t, 2 * t / 3, 2 * t]},
            "meshslep": {"k": "meshslep", "m": rng.choice(common.MESHES), "b": 20},
        }[k]
        if k == "order" and rng.random() < 0.2:
            objs[0]["spec"].update(t=min(t, 85.0), gap=True)
        if k == "one":
            s = objs[0]["spec"]
            if s["k"] == "cap":
                del s["a"]
            else:
                del s["t"]
    return {
        "ops": objs,
        "sched": {"p": rng.choice([0.0, 0.002, 0.01, 0.05, 0.2]), "next": rng.choice([0.0, 0.3, 1.0]), "hot": rng.choice([0, 0, 8, 20, 50]), "stall": rng.choice([0.0, 0.3, 0.9])},
        "opcodes": not big and rng.random() < 0.1,
    }


def run(world, plan):
    world.net.outage = True
    tags = []
    common.put_masks(world, [o["spec"] for o in plan["ops"]])
    before = world.sim.switch_count
    for o in plan["ops"]:
        s = o["spec"]
        env = {"NCPU": str(o["ncpu"])} if o["ncpu"] else None
        out = world.process(lambda: common.build(s), env=env, trace=True)
        if not out.ok:
            raise Violation("failed", f"{common.describe(s)} with {o['ncpu']} workers: {common.exc_text(out.exc)}")
        common.judge_or("wrong", s, out.value, note=f"(NCPU={o['ncpu']})")
        tags.append(s["k"])
        if world.sim.thread_errors:
            raise Violation("failed", f"thread died: {world.sim.thread_errors[0]}")
    return {"nontrivial": world.sim.switch_count - before > len(plan["ops"]) + 1, "tags": tags}


def warm(runner):
    common.warm_meshes()
