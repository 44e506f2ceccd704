"""Slepian analysis and synthesis agree for a basis obtained in any way."""

import copy
import os
import random
import threading

import numpy as np

from .. import fixtures
from ..runner import Violation
from . import c05, c06, common

ID = "C14"
RUNS = {"quick": 1100, "thorough": 26000}
RULE = ("one simulated run: 1 to 5 bases (several with angles so close that they are shown alike) reach a shared store in seeded ways "
        "(built, killed half way, hit by power loss or disk errors, damaged, published and fetched), then 1 to 3 processes, one or "
        "several threads each, obtain them and make 4 to 14 round trips in a seeded order (harmonic, Fourier and wavelet), some "
        "struck by a failing allocation and repeated; fields from one process are analysed in another when nothing was lost in "
        "between; non-trivial when a basis was not simply computed in the process that used it")
ASSUMPTIONS = ["round trips may lose 1e-8 relative to rounding", "only coefficients below the Shannon number are compared"]
TRIPS = ("harmonic", "harmonic", "field", "wavelet", "wavelet", "few", "hand")
SHAPES = ("dense", "dense", "sparse", "imaginary", "real", "one", "zero", "long", "tiny", "huge")
EVENTS = ("build", "build", "kill", "power", "errors", "damage", "publish", "nothing")


def gen_pool(rng, tier):
    x = rng.random()
    if x < 0.5:
        pool = [s for s in c05.family(rng, tier) if s["k"] != "map"]
        for s in pool:
            s.pop("order", None)
            if s["k"] == "mesh":
                s["k"] = "meshslep"
    else:
        pool = [common.gen_any(rng, kinds=("cap", "gap", "latlon", "arb", "meshslep", "meshslep"), Lmax=4 if tier == "quick" else 6,
                               earth=0.1) for _ in range(rng.choice([1, 1, 2, 3]))]
    for s in pool:
        if s["k"] == "arb":
            s["L"] = 2 if common.has_own_mask(s) and rng.random() < 0.7 else s["L"]
    return pool[:5] or [{"k": "cap", "L": 3, "t": 40.0}]


def gen(rng, tier):
    pool = gen_pool(rng, tier)
    procs = []
    for _ in range(rng.choice([1, 1, 2, 3])):
        nthreads = rng.choice([1, 1, 1, 2, 3])
        threads = [[{"spec": rng.randrange(len(pool)), "trip": rng.choice(TRIPS), "shape": rng.choice(SHAPES),
                     "seed": rng.randrange(1 << 30), "wav": rng.choice([[2, 0], [2, 1], [3, 0], [3, 1]]),
                     "again": rng.random() < 0.25, "struck": nthreads == 1 and rng.random() < 0.15}
                    for _ in range(rng.randint(2, 6))] for _ in range(nthreads)]
        procs.append({"threads": threads, "ncpu": rng.choice([1, 2, 3, 4, 8]),
                      "between": rng.choice(["nothing", "nothing", "damage", "publish", "power"])})
    return {
        "pool": pool, "procs": procs,
        "events": [[rng.choice(EVENTS), rng.randrange(len(pool)), rng.getrandbits(30)] for _ in range(rng.choice([0, 1, 1, 2, 4]))],
        "fault": {"kinds": [], "budget": 0},
        "sched": {"p": rng.choice([0.0, 0.01, 0.05]), "next": rng.choice([0.0, 0.3, 1.0]), "hot": rng.choice([0, 0, 0, 8, 30]), "stall": rng.choice([0.0, 0.0, 0.5])},
    }


def coefficients(t, n, total):
    g = np.random.default_rng(t["seed"])
    c = g.standard_normal(n) + 1j * g.standard_normal(n)
    k = t["shape"]
    if k == "sparse":
        c[g.random(n) < 0.6] = 0
    elif k == "imaginary":
        c = 1j * c.imag
    elif k == "real":
        c = c.real
    elif k == "one":
        c = np.where(np.arange(n) == g.integers(max(1, n)), c, 0)
    elif k == "zero":
        c = np.zeros(n, dtype=complex)
    elif k == "long":
        c = np.concatenate([c, g.standard_normal(total - n)])
    elif k == "tiny":
        c = c * 1e-12
    elif k == "huge":
        c = c * 1e12
    return c


def round_trip(spec, obj, t, hands):
    """Make the trip; what went in and what came back, or None when nothing can be compared."""
    import pyssht as ssht
    import sleplet.harmonic_methods as hm
    import sleplet.slepian_methods as sm
    import sleplet.wavelet_methods as wm

    n = obj.N
    mesh = spec["k"] == "meshslep"
    total = spec["b"] if mesh else spec["L"] ** 2
    c = coefficients(t, n, total)
    if mesh:  # real-valued
        c = np.asarray(c.real if t["shape"] != "imaginary" else c.imag)
    kind = t["trip"]
    scale = float(np.abs(c).max(initial=0))
    if n == 0:
        return None
    if kind == "wavelet":
        w = wm.create_kappas(total, *t["wav"])
        back = wm.slepian_wavelet_inverse(wm.slepian_wavelet_forward(c, w, n), w, n)
        return c[:n], np.asarray(back)[:n]
    if kind == "hand":
        for seed, given, field in hands.get(common.key(spec), []):
            back = sm.slepian_mesh_forward(obj, u_i=field) if mesh else sm.slepian_forward(spec["L"], obj, flm=field)
            if not close(given, back):
                return given, back
    if mesh:
        u = sm.slepian_mesh_inverse(obj, c)
        field = hm.mesh_forward(obj.mesh, u)
        if kind == "few":
            k = 1 + t["seed"] % n
            return c[:k], sm.slepian_mesh_forward(obj, u_i=field, n_coeffs=k), scale
        back = sm.slepian_mesh_forward(obj, u_i=field)
        if kind == "field":  # the same field, given on the whole mesh
            back = sm.slepian_mesh_forward(obj, u=u)
    else:
        L = spec["L"]
        f = sm.slepian_inverse(c, L, obj)
        field = ssht.forward(f, L, Method="MWSS")
        if kind == "few":
            k = 1 + t["seed"] % n
            return c[:k], sm.slepian_forward(L, obj, flm=field, n_coeffs=k), scale
        back = sm.slepian_forward(L, obj, flm=field)
    hands.setdefault(common.key(spec), []).append((t["seed"], c[:n], field))
    return c[:n], back


def close(a, b, scale=0.0):
    a, b = np.asarray(a), np.asarray(b)
    if a.shape != b.shape:
        return False
    scale = max(scale, float(np.abs(a).max(initial=0)), 1e-300)
    return bool(np.isfinite(b).all()) and np.abs(a - b).max(initial=0) <= 1e-8 * scale


def run(world, plan):
    pool = plan["pool"]
    fixtures.publish_standard(world)
    common.put_masks(world, pool)
    given = set(common.data_files(world))
    tags, story = [], []
    hands = {}  # fields made by earlier processes from the bases that are still stored

    def damage(seed):
        r = random.Random(seed)
        names = [n for n in common.data_files(world) if n not in given]
        for n in r.sample(names, min(len(names), r.choice([1, 1, 2, 4]))):
            kind = r.choice(c06.KINDS)
            p = os.path.join(world.data, n)
            data = world.listing()[n]
            world.remove(p) if kind == "delete" else world.put(p, c06.damaged(data, kind, r.getrandbits(30)) if data else b"")
            world.dec.fired[f"damage_{kind}"] = world.dec.fired.get(f"damage_{kind}", 0) + 1
        return bool(names)

    def publish(seed):
        """The archive takes up results computed elsewhere (or here)."""
        r = random.Random(seed)
        names = [n for n in common.data_files(world) if n not in given and n.endswith(".npy")]
        if not c_ok(world) or not names:
            return False
        files = world.listing()
        for n in names:
            world.archive.publish(n, files[n])
            if r.random() < 0.7:
                world.remove(os.path.join(world.data, n))
        return True

    for kind, i, seed in plan["events"]:
        s = pool[i]
        env = {"NCPU": str(1 + seed % 4)}
        if kind == "nothing":
            continue
        if kind == "damage":
            if damage(seed):
                story.append("damage")
            continue
        if kind == "publish":
            if publish(seed):
                story.append("publication")
            continue
        if kind in ("kill", "power", "errors"):
            world.dec.budget, world.dec.p_fault = (3, 0.15) if kind == "errors" else (1, 0.1)
            world.dec.kinds = ["ENOSPC", "EIO", "EACCES", "short", "nomem"] if kind == "errors" else [kind]
            world.fs.crash_kinds = [] if kind == "errors" else [kind]
            world.compute_faults(kind == "errors")
        out = world.process(lambda s=s: common.build(s), env=env)
        world.dec.kinds = []
        world.calm()
        story.append(f"{kind}({common.describe(s)}): {out.kind}")
        if kind == "build" and not out.ok:
            raise Violation("fault-free", f"{common.describe(s)} fails after {story}: {common.exc_text(out.exc)}")

    trips = 0
    for p in plan["procs"]:
        mine = {k: list(v) for k, v in hands.items()}

        def prog(p=p, mine=mine):
            objs, results = {}, {}

            def work(k):
                res = results[k] = []
                for t in p["threads"][k]:
                    s = pool[t["spec"]]
                    try:
                        obj = objs.get(t["spec"])
                        if obj is None or t["again"]:
                            obj = objs[t["spec"]] = common.make(s)
                        if t["struck"]:
                            world.dec.kinds, world.dec.budget, world.dec.p_fault = ["nomem"], 1, 0.3
                            world.compute_faults(True)
                            try:
                                round_trip(s, obj, t, {})
                            except MemoryError:
                                pass
                            finally:
                                world.dec.kinds, world.dec.budget = [], 0
                                world.compute_faults(False)
                        res.append(round_trip(s, obj, t, mine))
                    except Exception as e:  # noqa: BLE001
                        res.append(e)

            if len(p["threads"]) == 1:
                work(0)
            else:
                ts = [threading.Thread(target=work, args=(k,)) for k in range(len(p["threads"]))]
                for t in ts:
                    t.start()
                for t in ts:
                    t.join()
            return results

        out = world.process(prog, env={"NCPU": str(p["ncpu"])}, trace=len(p["threads"]) > 1)
        if out.kind == "abort":
            raise Violation("no-progress", str(out.exc))
        if not out.ok:
            raise Violation("fails", f"after {story}: {common.exc_text(out.exc)}")
        for k, res in out.value.items():
            for t, r in zip(p["threads"][k], res):
                d = f"{t['trip']} round trip of {t['shape']} coefficients on {common.describe(pool[t['spec']])}"
                if isinstance(r, Exception):
                    raise Violation("fails", f"{d} after {story}: {common.exc_text(r)}")
                if r is None:
                    continue
                trips += 1
                tags += [t["trip"], pool[t["spec"]]["k"]]
                if not close(*r):
                    a, b = np.asarray(r[0]), np.asarray(r[1])
                    e = f"off by {np.abs(a - b).max():.3g}" if a.shape == b.shape else f"{b.shape[0]} coefficients for {a.shape[0]}"
                    raise Violation("round-trip", f"{d} after {story}: {e}")
        hands = mine
        story.append("use")
        seed = p["threads"][0][0]["seed"]
        if p["between"] == "damage":
            if damage(seed):
                story.append("damage")
                hands = {}
        elif p["between"] == "publish":
            if publish(seed):
                story.append("publication")
        elif p["between"] == "power":
            world.power_loss()
            story.append("power loss")
            hands = {}  # fields made by earlier processes from the bases that are still stored
    return {"nontrivial": trips > 0 and len(story) > 1, "tags": tags}


def c_ok(world):
    """Every stored array is intact (only such files would ever be published)."""
    return not common.unreadable(world)


def shrink(plan):
    for i in range(len(plan["events"])):
        p = copy.deepcopy(plan)
        del p["events"][i]
        yield p
    for i in range(len(plan["procs"])):
        if len(plan["procs"]) > 1:
            p = copy.deepcopy(plan)
            del p["procs"][i]
            yield p
    for i, pr in enumerate(plan["procs"]):
        for k in range(len(pr["threads"])):
            if len(pr["threads"]) > 1:
                p = copy.deepcopy(plan)
                del p["procs"][i]["threads"][k]
                yield p
            for j in range(len(pr["threads"][k])):
                if len(pr["threads"][k]) > 1:
                    p = copy.deepcopy(plan)
                    del p["procs"][i]["threads"][k][j]
                    yield p
    if plan["sched"]["p"] or plan["sched"]["next"]:
        yield dict(copy.deepcopy(plan), sched={"p": 0.0, "next": 0.0})


def warm(runner):
    common.warm_meshes()
