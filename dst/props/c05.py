"""Reusing stored results is transparent for every history of requests."""

import copy
import json

from .. import fixtures
from ..runner import Violation
from . import common

ID = "C05"
RUNS = {"quick": 1100, "thorough": 24000}
RULE = ("one simulated run: a seeded history of 3 to 9 constructions (angles close together, regions of different kinds with equal "
        "angles, orders, band-limits, masks, meshes, numbers of basis functions) by 1 to 4 processes with different worker counts "
        "sharing one store, with twins that differ in one thing only; every single result is judged against the independent computation of its own configuration; "
        "non-trivial when a construction read a file another one wrote")

TOL = 1e-9


def close(rng, t):
    """An angle near t degrees."""
    return t + rng.choice([0, 0, 1e-8, 1e-6, -1e-6, 1e-4, 0.01, -0.2, 0.3, 0.5, -0.49, 1.0])


def family(rng, tier):
    """Configurations that must not be confused with one another."""
    x = rng.random()
    L = rng.randint(2, 4 if tier == "quick" else 6)
    if x < 0.45:  # one angle in all its guises
        t = rng.choice([20.0, 40.0, 55.0, 90.0])
        out = []
        for _ in range(rng.randint(2, 5)):
            y = rng.random()
            if y < 0.35:
                out.append({"k": "cap", "L": L, "t": close(rng, t)})
            elif y < 0.55:
                out.append({"k": "cap", "L": L, "t": min(close(rng, t), 90.0), "gap": True})
            elif y < 0.8:
                out.append({"k": "cap", "L": L, "t": close(rng, t), "order": rng.randint(-(L - 1), L - 1)})
                if rng.random() < 0.3:
                    out[-1].update(gap=True, t=min(out[-1]["t"], 90.0))
            else:
                out.append({"k": "latlon", "L": min(L, 4), "a": [0, close(rng, t), 0, 360]})
        if rng.random() < 0.4:
            s = copy.deepcopy(rng.choice(out))
            s["L"] = rng.choice([2, 3])
            if s.get("order") is not None:
                s["order"] = rng.randint(-(s["L"] - 1), s["L"] - 1)
            out.append(s)
        return out
    if x < 0.55:  # rectangles
        a = rng.choice([[20, 60, 30, 200], [45, 135, 10, 350], [30, 180, 90, 270]])
        out = []
        for _ in range(rng.randint(2, 4)):
            b = [float(v) for v in a]
            i = rng.randrange(4)
            b[i] = max(0.0, min([180.0, 180.0, 360.0, 360.0][i], close(rng, b[i])))
            out.append({"k": "latlon", "L": rng.choice([2, 3, min(L, 4)]), "a": b})
        return out
    if x < 0.75:
        if rng.random() < 0.2:
            names = [f"blob{i}" for i in rng.sample(range(4), rng.randint(1, 2))]
        else:
            names = rng.sample(rng.choice(ALIKE), rng.randint(2, 3))
        L = rng.choice([2, 2, 2, 3] if len(names) < 3 else [2])
        return [{"k": "arb", "L": L, "m": m} for m in names]
    if x < 0.93:
        m = rng.choice(common.MESHES)
        return [{"k": rng.choice(["mesh", "meshslep"]), "m": rng.choice([m, m, rng.choice(common.MESHES)]),
                 "b": rng.choice([6, 8, 10])} for _ in range(rng.randint(2, 3))]
    return [{"k": rng.choice(["arb", "arb", "map"]), "L": rng.choice([2, 3]), "m": m, "c": c}
            for m, c in rng.sample([("africa", "Africa"), ("south_america", "SouthAmerica"), ("africa", "Earth")], 2)]


# names of masks a user may give to different regions
ALIKE = (("blob1", "Blob1", "BLOB1", "blob-1", "blob_1", "blob 1", "blob.1", "blob01", "blob1_", "blob11", "blob1 "),
         ("africa2", "Africa", "my_africa", "africa_", "South_America", "south-america", "south_america_L4", "america"),
         ("nord", "nörd", "nord_L4", "nord_L2_N1", "nord.npy", "D_nord", "nordnord", "Nord"))


def twin(rng, spec):
    """The same configuration but for one thing."""
    s = copy.deepcopy(spec)
    k = s["k"]
    if k == "cap":
        y = rng.random()
        if y < 0.5 and s["L"] > 1:
            m = s.get("order")
            s["order"] = -m if m and rng.random() < 0.7 else rng.randint(-(s["L"] - 1), s["L"] - 1)
        elif y < 0.6:
            s.pop("order", None)
        elif y < 0.75 and s["t"] <= 90.0:
            s["gap"] = not s.get("gap")
            if not s["gap"]:
                del s["gap"]
        else:
            s["t"] = min(close(rng, s["t"]), 90.0 if s.get("gap") else 180.0)
    elif k == "latlon":
        i = rng.randrange(4)
        s["a"][i] = max(0.0, min([180.0, 180.0, 360.0, 360.0][i], close(rng, float(s["a"][i]))))
    elif k in ("mesh", "meshslep"):
        if rng.random() < 0.5:
            s["b"] = rng.choice([6, 8, 10])
        else:
            s["k"] = "mesh" if k == "meshslep" else "meshslep"
    return s


def gen(rng, tier):
    pool = []
    for _ in range(rng.choice([1, 1, 2])):
        pool += family(rng, tier)
    for _ in range(rng.choice([0, 1, 2])):
        pool.append(twin(rng, rng.choice(pool)))
    pool = [{k: v for k, v in s.items() if not (s["k"] == "map" and k == "m") and not (s["k"] == "arb" and k == "c")} for s in pool]
    if rng.random() < (0.02 if tier == "quick" else 0.05):
        t = rng.choice([20.0, 30.5])
        pool = [{"k": "cap", "L": 17, "t": t}] + [
            {"k": "cap", "L": 17, "t": t, "order": rng.choice([0, 1, -2, 5, -16])} for _ in range(2)]
        ops = [[0, rng.choice(pool)] for _ in range(3)]
        nproc = 1
    else:
        nproc = rng.choice([1, 2, 3, 4])
        ops = [[rng.randrange(nproc), rng.choice(pool)] for _ in range(rng.randint(3, 9))]
    # one process after another
    ops.sort(key=lambda o: o[0])
    return {
        "ops": [{"p": p, "spec": s} for p, s in ops],
        "ncpu": [rng.choice([1, 2, 3, 4, 8]) for _ in range(nproc)],
        "outage": not any(common.uses_archive(o[1]) for o in ops) and rng.random() < 0.8,
        "mkdirs": rng.random() < 0.8,
    }


def run(world, plan):
    fixtures.publish_standard(world)
    world.net.outage = plan["outage"]
    specs = [o["spec"] for o in plan["ops"]]
    common.put_masks(world, specs)
    tags = []
    done = []
    owners = {}  # stored file -> configuration of the region it was computed for
    shared = 0
    for pi in range(len(plan["ncpu"])):
        mine = [o["spec"] for o in plan["ops"] if o["p"] == pi]
        if not mine:
            continue

        def prog(mine=mine):
            out = []
            for s in mine:
                before = set(common.data_files(world))
                r0 = len(world.fs.reads_log)
                res = common.build(s)
                new = set(common.data_files(world)) - before
                out.append((res, new, [p for _, p in world.fs.reads_log[r0:]] if world.fs.reads_log else []))
            return out

        out = world.process(prog, env={"NCPU": str(plan["ncpu"][pi])})
        hist = "; ".join(done + [common.describe(s) for s in mine])
        if not out.ok:
            raise Violation("history-fails", f"{common.exc_text(out.exc)} in the history [{hist}]")
        for s, (res, new, reads) in zip(mine, out.value):
            tags.append(s["k"])
            try:
                common.judge(s, res, tol=TOL)
            except common.oracle.Mismatch as e:
                raise Violation("history", f"{e} after the history [{'; '.join(done) or 'nothing'}]") from None
            # the all-order eigensolutions of two different regions never share a file
            if s["k"] in ("cap", "latlon", "arb") or s["k"] in ("mesh", "meshslep"):
                ident = json.dumps({k: [float(x) for x in v] if k == "a" else v for k, v in s.items() if k != "order"},
                                   sort_keys=True)
                base = [p.split("/")[-1] for p in reads]
                for f in base:
                    if f in owners and owners[f] != ident and _exclusive(f):
                        raise Violation("shared-entry", f"{common.describe(s)} used {f}, stored for {owners[f]}")
                    shared += f in owners
                for f in new:
                    owners[f] = ident
            done.append(common.describe(s))
    return {"nontrivial": shared > 0, "tags": tags}


def _exclusive(name):
    """Mesh bases are shared by everything on that mesh, masks by everything in that region."""
    return name.startswith("slepian_eigensolutions_D_")


def shrink(plan):
    for i in range(len(plan["ops"])):
        if len(plan["ops"]) > 1:
            p = copy.deepcopy(plan)
            del p["ops"][i]
            yield p
    if len(plan["ncpu"]) > 1:
        p = copy.deepcopy(plan)
        for o in p["ops"]:
            o["p"] = 0
        p["ncpu"] = p["ncpu"][:1]
        yield p
    if any(n != 1 for n in plan["ncpu"]):
        yield dict(copy.deepcopy(plan), ncpu=[1] * len(plan["ncpu"]))


def warm(runner):
    common.warm_meshes()
