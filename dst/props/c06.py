"""A damaged stored file is recomputed, not trusted and not fatal."""

import copy
import io
import os
import random

import numpy as np

from .. import fixtures
from ..runner import Violation
from . import common

ID = "C06"
RUNS = {"quick": 1600, "thorough": 40000}
RULE = ("one simulated run: results are stored, a seeded subset of the stored files is deleted, emptied, truncated, zeroed, "
        "overwritten with garbage or gets a broken header, then everything is constructed again in a second process (result judged) "
        "and in a third one (must load: no writes, no solver threads), up to twice, and in a last one; non-trivial when a file was damaged")

KINDS = ["delete", "empty", "cut", "cut", "zero", "zero_tail", "garbage", "zip", "pickle", "header", "header"]


def gen(rng, tier):
    s = common.gen_any(rng, earth=0.2, maps=0.0, Lmax=4 if tier == "quick" else 6)
    if rng.random() < 0.08:
        s = {"k": "map", "c": rng.choice(["Africa", "SouthAmerica"]), "L": rng.choice([3, 4])}
    large = rng.random() < 0.006
    if large:  # from here on only the eigenvectors up to the Shannon number are stored
        s = {"k": "cap", "L": 17, "t": rng.choice([20.0, 30.5])}
    plan = {
        "spec": s,
        "damage": [[rng.randrange(12), rng.choice(KINDS), rng.getrandbits(30)] for _ in range(rng.choice([1, 1, 2, 3, 5]))],
        "ncpu": [rng.choice([1, 2, 3, 4]) for _ in range(3)],
        "same": rng.random() < 0.25,  # one process sees it all
        "rounds": rng.choice([1, 1, 1, 2]),
        "outage": (not common.uses_archive(s)) and rng.random() < 0.8,
        "sched": {"p": rng.choice([0.0, 0.01]), "next": rng.choice([0.0, 1.0])},
    }
    if large:
        plan["damage"], plan["rounds"], plan["ncpu"] = plan["damage"][:1], 1, [4, 4, 4]
    return plan


def readable(data):
    try:
        np.load(io.BytesIO(data))
    except Exception:  # noqa: BLE001
        return False
    return True


def damaged(data, kind, seed):
    r = random.Random(seed)
    n = len(data)
    if kind == "empty":
        return b""
    if kind == "cut":
        new = data[: r.choice([r.randrange(max(1, n)), r.randrange(min(n, 140)), n - 1])]
    elif kind == "zero":
        new = bytes(n)
    elif kind == "zero_tail":
        k = r.randrange(min(n, 128))
        new = data[:k] + bytes(n - k)
    elif kind == "garbage":
        new = r.randbytes(r.choice([1, 7, 100, n]))
    elif kind == "zip":
        new = b"PK\x03\x04" + r.randbytes(max(0, n - 4))
    elif kind == "pickle":
        new = b"\x80\x04\x95" + r.randbytes(20)
    else:
        for _ in range(40):
            k = r.randrange(min(n, 128))
            new = data[:k] + bytes([r.choice([data[k] ^ (1 << r.randrange(8)), r.randrange(256)])]) + data[k + 1:]
            if not readable(new):
                return new
        new = data[:50]
    return new if not readable(new) else data[: max(0, n // 2)]


def run(world, plan):
    s = plan["spec"]
    fixtures.publish_standard(world)
    world.net.outage = plan["outage"]
    common.put_masks(world, [s])
    given = set(common.data_files(world))
    d = common.describe(s)
    full = {k: v for k, v in s.items() if k != "order"}  # an order is taken from the solution of all orders
    done = {}

    def damage():
        names = [n for n in common.data_files(world) if n not in given]
        for i, kind, seed in plan["damage"]:
            if not names:
                break
            name = names[i % len(names)]
            p = os.path.join(world.data, name)
            if kind == "delete":
                if os.path.exists(p):
                    world.remove(p)
            else:
                data = world.listing().get(name, b"")
                world.put(p, damaged(data, kind, seed) if data else b"")
            done[name] = kind
            world.dec.fired[f"damage_{kind}"] = world.dec.fired.get(f"damage_{kind}", 0) + 1


    def first():
        common.build(full)

    def second():
        return common.build(s), (common.build(full) if full != s else None)

    def third():
        w0, t0 = len(world.fs.writes_log), len(world.sim.tasks)
        v = common.build(s)
        return v, world.fs.writes_log[w0:], len(world.sim.tasks) - t0

    rounds = plan.get("rounds", 1)
    got = []  # per round: what second and third gave, and the damage done

    def fail(what, exc):
        raise Violation("fatal", f"{d} fails {what}: {common.exc_text(exc)}")

    if plan["same"]:
        def everything():
            first()
            for _ in range(rounds):
                done.clear()
                damage()
                got.append([second(), third(), dict(done)])

        out = world.process(everything, env={"NCPU": str(plan["ncpu"][0])}, trace=True)
        if not out.ok:
            fail(f"with damaged {done}", out.exc)
    else:
        out = world.process(first, env={"NCPU": str(plan["ncpu"][0])})
        if not out.ok:
            fail("building it", out.exc)
        for _ in range(rounds):
            done.clear()
            damage()
            g = []
            for i, f in ((1, second), (2, third)):
                out = world.process(f, env={"NCPU": str(plan["ncpu"][i])}, trace=i == 1)
                if not out.ok:
                    fail([f"with damaged {done}", f"once {done} was repaired"][i - 1], out.exc)
                g.append(out.value)
            got.append([*g, dict(done)])
    out = world.process(third)
    if not out.ok:
        fail(f"in a later process, {done} repaired", out.exc)
    got.append([None, out.value, dict(done)])
    for s2, (v3, writes, tasks), done in got:
        if s2 is not None:
            common.judge_or("trusted", s, s2[0], note=f"with damaged {done}")
            if s2[1] is not None:
                common.judge_or("trusted", full, s2[1], note=f"with damaged {done}")
        common.judge_or("mixed", s, v3, note=f"once {done} was repaired")
        if writes:
            raise Violation("not-whole", f"{d}: after {done} was repaired the next construction writes {sorted({w[2] for w in writes})}")
        if tasks:
            raise Violation("not-whole", f"{d}: after {done} was repaired the next construction computes again")
    bad = common.unreadable(world)
    if bad:
        raise Violation("not-whole", f"{d}: still damaged: {bad}")
    return {"nontrivial": any(g[2] for g in got), "tags": [s["k"], *[k for g in got[:-1] for k in g[2].values()]]}


def shrink(plan):
    if plan.get("rounds", 1) > 1:
        yield dict(copy.deepcopy(plan), rounds=1)
    for i in range(len(plan["damage"])):
        if len(plan["damage"]) > 1:
            p = copy.deepcopy(plan)
            del p["damage"][i]
            yield p
    if plan["same"]:
        yield dict(copy.deepcopy(plan), same=False)
    if plan["ncpu"] != [1, 1, 1]:
        yield dict(copy.deepcopy(plan), ncpu=[1, 1, 1])
    if plan["sched"]["p"] or plan["sched"]["next"]:
        yield dict(copy.deepcopy(plan), sched={"p": 0.0, "next": 0.0})


def warm(runner):
    common.warm_meshes()
