"""What was completed once is loaded from then on, not computed, written or downloaded again."""

import copy
import os
import random
import threading

import numpy as np

from .. import fixtures
from .. import world as world_mod
from ..runner import Violation
from . import c05, c06, common, signals

ID = "C17"
RUNS = {"quick": 1000, "thorough": 30000}
RULE = ("one simulated run: 1 to 5 objects (bases of every kind, also above the band-limit at which everything is saved, meshes, maps "
        "and signals derived from them) are constructed in a seeded order over 2 to 6 processes, one after another, in threads or at "
        "the same time, with seeded worker counts, interrupted and failing constructions, lost files, evictions and publications in "
        "between; every construction of an object that was completed and not harmed since must start no solver, solve no "
        "eigenproblem, write nothing and give the same result, and requests are counted; non-trivial when a completed object was "
        "constructed again")
ASSUMPTIONS = ["results may differ by 1e-10 from the first ones (rounding)",
               "solver work is seen as worker threads (or parallel loops) started and as calls of numpy's and scipy's eigensolvers"]
BIG = [{"k": "cap", "L": 17, "t": 40.0}, {"k": "cap", "L": 17, "t": 20.0, "gap": True}, {"k": "cap", "L": 18, "t": 70.25}]
EVENTS = ("nothing", "nothing", "nothing", "damage", "evict", "publish", "kill", "errors", "refuse")


def gen(rng, tier):
    x = rng.random()
    if x < 0.03 if tier == "quick" else x < 0.1:
        pool = [dict(rng.choice(BIG))]
        if rng.random() < 0.5:
            pool.append({"k": "cap", "L": 3, "t": 40.0})
    elif x < 0.35:
        pool = c05.family(rng, tier)
    else:
        pool = [common.gen_any(rng, Lmax=4 if tier == "quick" else 6, earth=0.15, maps=0.15) for _ in range(rng.choice([1, 1, 2, 3]))]
    for _ in range(rng.choice([0, 0, 1, 2])):
        if pool[0].get("L") != 17:
            pool.append(dict(signals.gen(rng, earth=0.4, noise=0.3), k="signal"))
    pool = pool[:6]
    rounds = []
    for _ in range(rng.choice([2, 3, 3, 4, 6])):
        mode = rng.choice(["one", "one", "one", "threads", "together"])
        rounds.append({
            "mode": mode, "event": rng.choice(EVENTS), "seed": rng.getrandbits(30),
            "ops": [[[rng.randrange(len(pool)), rng.random() < 0.25] for _ in range(rng.choice([1, 2, 2, 3]))]
                    for _ in range(1 if mode == "one" else rng.choice([2, 2, 3]))],
            "ncpu": rng.choice([1, 2, 3, 4, 8])})
    if pool[0].get("L") in (17, 18):
        for r in rounds:
            r["mode"], r["ops"] = "one", [r["ops"][0][:2]]
            if r["event"] in ("kill", "errors"):
                r["event"] = "nothing"
        rounds = rounds[:3]
    return {"pool": pool, "rounds": rounds, "fault": {"kinds": [], "budget": 0},
            "sched": {"p": rng.choice([0.0, 0.0, 0.01]), "next": rng.choice([0.0, 0.3, 1.0])}}


def key(s):
    return common.key(s)


def describe(s):
    return signals.describe(s) if s["k"] == "signal" else common.describe(s)


def construct(s, alias=False):
    if s["k"] == "signal":
        return signals.build(s)
    if alias and s.get("order") is None and s["k"] in ("cap", "latlon", "arb"):
        # the same object, obtained through the description of its region
        import sleplet

        if s["k"] == "cap":
            r = {"theta_max": s["t"], **({"gap": True} if s.get("gap") else {})}
        elif s["k"] == "latlon":
            r = dict(zip(("theta_min", "theta_max", "phi_min", "phi_max"), s["a"]))
        else:
            r = {"mask_name": s["m"]}
        if s["k"] != "latlon" or not (s["a"][0] == 0 and s["a"][2:] == [0, 360]):
            obj = sleplet.slepian_methods.choose_slepian_method(s["L"], signals.region(r))
            return common.extract(s, obj)
    return common.build(s)


def same(s, a, b, first):
    """None, or in what the results differ.  The first result may hold more than what is stored."""
    if s["k"] == "signal":
        return signals.same(a, b, tol=1e-10)
    for f in a:
        x, y = a[f], b[f]
        if f == "evecs" and first:
            n = min(len(x), len(y))
            if len(y) > len(x) or len(y) < a.get("N", 0) and s.get("order") is None:
                return f"{len(y)} eigenvectors after {len(x)}"
            x, y = x[:n], y[:n]
        if not common.agree(x, y):
            if f == "name" and signals.same_name(x, y):
                continue
            return f"{f} differs"
    return None


def excepted(s):
    """A single order of a cap is never stored (nor is what is made of one)."""
    return s.get("order") is not None


def run(world, plan):
    pool = plan["pool"]
    fixtures.publish_standard(world)
    common.put_masks(world, [s for s in pool if s["k"] != "signal"])
    given = set(common.data_files(world))
    done = {}  # key -> (result, whether it may hold more than what is stored)
    story, tags = [], []
    again = 0
    sim = world.sim

    def cached():
        """Published files that lie intact in the cache."""
        if not os.path.isdir(world.cache):
            return set()
        have = {os.path.basename(n): d for n, d in world.listing(world.cache).items()}
        return {n for n, d in world.archive.files.items() if have.get(n) == d}

    def event(kind, seed):
        r = random.Random(seed)
        names = [n for n in common.data_files(world) if n not in given]
        if kind == "damage" and names:
            for n in r.sample(names, min(len(names), r.choice([1, 2, 3]))):
                k = r.choice(c06.KINDS)
                p = os.path.join(world.data, n)
                data = world.listing()[n]
                world.remove(p) if k == "delete" else world.put(p, c06.damaged(data, k, r.getrandbits(30)) if data else b"")
                world.dec.fired[f"damage_{k}"] = world.dec.fired.get(f"damage_{k}", 0) + 1
            done.clear()
        elif kind == "evict" and os.path.isdir(world.cache):
            for n in sorted(world.listing(world.cache)):
                if r.random() < 0.6:
                    world.remove(os.path.join(world.cache, n))
                    world.dec.fired["evict"] = world.dec.fired.get("evict", 0) + 1
            done.clear()
        elif kind == "publish":
            if common.unreadable(world) or not names:
                return
            files = world.listing()
            for n in names:
                if n.endswith(".npy") and r.random() < 0.8:
                    world.archive.publish(n, files[n])
                    if r.random() < 0.5:
                        world.remove(os.path.join(world.data, n))
            done.clear()
        elif kind in ("kill", "errors"):
            s = r.choice(pool)
            world.dec.budget, world.dec.p_fault = (3, 0.2) if kind == "errors" else (1, 0.1)
            world.dec.kinds = ["ENOSPC", "EIO", "EACCES", "short", "nomem"] if kind == "errors" else [kind]
            world.fs.crash_kinds = [] if kind == "errors" else [kind]
            world.compute_faults(kind == "errors")
            out = world.process(lambda: construct(s), env={"NCPU": str(1 + seed % 4)})
            world.dec.kinds = []
            world.calm()
            kind = f"{kind}({describe(s)}): {out.kind}"
        elif kind == "refuse":  # a construction that is refused leaves nothing to be repeated
            def bad():
                import sleplet

                try:
                    sleplet.slepian.SlepianPolarCap(3, 0.0)
                except Exception:  # noqa: BLE001, S110
                    pass
                try:
                    sleplet.slepian.SlepianArbitrary(3, "nowhere")
                except Exception:  # noqa: BLE001, S110
                    pass
            world.process(bad)
        else:
            return
        story.append(kind)

    def judged(s, alias, mine):
        """Construct (inside a process); `mine` counts the threads the program itself started."""
        k = key(s)
        w0, t0, e0 = len(world.fs.writes_log), len(sim.tasks), world_mod.COMPUTE["solved"]
        v = construct(s, alias)
        return [k, v, world.fs.writes_log[w0:], len(sim.tasks) - t0, world_mod.COMPUTE["solved"] - e0]

    def repeated(s, got, alone, note):
        """Judge a construction of something completed before."""
        nonlocal again
        k, v, writes, tasks, solved = got
        again += 1
        tags.append(s["k"])
        what = f"{describe(s)} constructed again {note}"
        if any(kind == "file" for _, kind, _ in world.net.requests[r0:]):
            # half of what it needs was published meanwhile and is fetched now (downloads are judged below)
            writes = [w for w in writes if not w[2].startswith("cache/")]
        if alone and writes:
            raise Violation("writes", f"{what}: writes {sorted({w[2] for w in writes})}")
        if alone and not excepted(s):
            if tasks:
                raise Violation("repeats", f"{what}: starts {tasks} workers")
            if solved:
                raise Violation("repeats", f"{what}: solves {solved} eigenproblems")
        d = same(s, done[k][0], v, done[k][1])
        if d:
            raise Violation("other-result", f"{what}: {d}")

    for i, rd in enumerate(plan["rounds"]):
        event(rd["event"], rd["seed"])
        env = {"NCPU": str(rd["ncpu"])}
        note = f"in round {i} ({rd['mode']}) after {', '.join(story) or 'nothing'}"
        held = cached()
        r0 = len(world.net.requests)
        before = set(done)
        # several at a time: everything must have been completed before for work to be attributed
        known = all(key(pool[j]) in done for ops in rd["ops"] for j, _ in ops)
        results = []

        def chain(ops):
            return [(j, judged(pool[j], alias, 0)) for j, alias in ops]

        w0, t0, e0 = len(world.fs.writes_log), len(sim.tasks), world_mod.COMPUTE["solved"]
        own = 0
        if rd["mode"] == "threads":
            own = len(rd["ops"])

            def prog():
                got = [None] * own

                def work(k):
                    try:
                        got[k] = chain(rd["ops"][k])
                    except Exception as e:  # noqa: BLE001
                        got[k] = e

                ts = [threading.Thread(target=work, args=(k,)) for k in range(own)]
                for t in ts:
                    t.start()
                for t in ts:
                    t.join()
                return got

            outs = [world.process(prog, env=env, trace=True)]
            own += 1
        else:
            outs = world.processes([{"fn": lambda ops=ops: chain(ops), "env": env, "trace": len(rd["ops"]) > 1} for ops in rd["ops"]])
            own = len(rd["ops"])
        for o in outs:
            if o.kind == "abort":
                raise Violation("no-progress", str(o.exc))
            if not o.ok:
                raise Violation("fails", f"{note}: {common.exc_text(o.exc)}")
        results = outs[0].value if rd["mode"] == "threads" else [o.value for o in outs]
        for v in results:
            if isinstance(v, Exception):
                raise Violation("fails", f"{note}: {common.exc_text(v)}")
        if len(rd["ops"]) > 1 and known:
            fetched = any(kind == "file" for _, kind, _ in world.net.requests[r0:])
            writes = [w for w in world.fs.writes_log[w0:] if not (fetched and w[2].startswith("cache/"))]
            if writes:
                raise Violation("writes", f"nothing new was constructed {note}, but {sorted({w[2] for w in writes})} were written")
            if not any(excepted(pool[j]) for ops in rd["ops"] for j, _ in ops):
                if len(sim.tasks) - t0 > own:
                    raise Violation("repeats", f"nothing new was constructed {note}, but {len(sim.tasks) - t0 - own} workers were started")
                if world_mod.COMPUTE["solved"] > e0:
                    raise Violation("repeats", f"nothing new was constructed {note}, but eigenproblems were solved")
        single = len(rd["ops"]) == 1
        for v in results:
            for j, got in v:
                k = got[0]
                if k in done and (single or k in before):
                    repeated(pool[j], got, single, note)
                    done[k] = (got[1], done[k][1] and not single)
        for v in results:
            for j, got in v:
                done.setdefault(got[0], (got[1], True))
        # order of judgement within one process: what it completed itself counts as well
        if single:
            seen = {}
            for j, got in results[0]:
                k = got[0]
                if k in seen and k not in before:
                    done[k] = (seen[k], True)
                    repeated(pool[j], got, True, f"in the same process {note}")
                    done[k] = (got[1], False)
                seen.setdefault(k, got[1])
        reqs = world.net.requests[r0:]
        per = {}
        for p, kind, name in reqs:
            if kind == "file":
                if name in held:
                    raise Violation("downloads-again", f"{name} is downloaded though an intact copy is cached {note}")
                if single and ("file", name) in per:
                    raise Violation("downloads-again", f"{name} is downloaded twice {note}")
                per["file", name] = 1
                per[p] = per.get(p, 0) - 1  # pooch looks the address up in the catalogue
            elif kind == "catalogue":
                per[p] = per.get(p, 0) + 1
        for p in per:
            if not isinstance(p, tuple) and per[p] > 1:
                raise Violation("catalogue-again", f"the catalogue is fetched {per[p]} times, downloads aside, by one process {note}")
        story.append(rd["mode"])
    return {"nontrivial": again > 0, "tags": tags}


def shrink(plan):
    for i, rd in enumerate(plan["rounds"]):
        if len(plan["rounds"]) > 1:
            p = copy.deepcopy(plan)
            del p["rounds"][i]
            yield p
        if rd["event"] != "nothing":
            p = copy.deepcopy(plan)
            p["rounds"][i]["event"] = "nothing"
            yield p
        for a, ops in enumerate(rd["ops"]):
            if len(rd["ops"]) > 1:
                p = copy.deepcopy(plan)
                del p["rounds"][i]["ops"][a]
                yield p
            for b in range(len(ops)):
                if len(ops) > 1:
                    p = copy.deepcopy(plan)
                    del p["rounds"][i]["ops"][a][b]
                    yield p
                if ops[b][1]:
                    p = copy.deepcopy(plan)
                    p["rounds"][i]["ops"][a][b][1] = False
                    yield p
        if rd["ncpu"] != 1:
            p = copy.deepcopy(plan)
            p["rounds"][i]["ncpu"] = 1
            yield p
    if plan["sched"]["p"] or plan["sched"]["next"]:
        yield dict(copy.deepcopy(plan), sched={"p": 0.0, "next": 0.0})


def warm(runner):
    common.warm_meshes()
