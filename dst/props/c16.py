"""The mesh basis, and all that was derived from it, survive any loss of the stored files."""

import copy
import os
import random
import threading

import numpy as np

from .. import fixtures
from .. import world as world_mod
from ..runner import Violation
from . import c06, common

ID = "C16"
RUNS = {"quick": 1100, "thorough": 40000}
RULE = ("one simulated run: on one machine the basis of a mesh, its Slepian functions, and Fourier and Slepian coefficients of fields are "
        "recorded; then 1 to 6 rounds of seeded harm (any subset of the stored mesh files deleted, damaged, reverted or taken over by "
        "the archive; a process killed, out of memory, or hit by disk errors or power loss in the middle of computing) each followed by "
        "a process with its own entropy, worker count, earlier calls and threads, that obtains the same objects again: basis, fields "
        "from the recorded coefficients and Slepian functions on the vertices must be the recorded ones; non-trivial when something "
        "stored was lost or damaged between recording and comparing")
ASSUMPTIONS = ["basis functions and fields may differ by 1e-7 relative to their size",
               "Slepian functions whose concentrations are closer than 1e-6 are compared as a subspace, others up to sign"]
ALL = ("bird", "cheetah", "cube", "dragon", "homer", "teapot")
HARM = ("delete", "delete", "own", "own", "damage", "damage", "publish", "revert", "kill", "power", "errors", "nomem", "all", "nothing")


def gen(rng, tier):
    small = rng.random() < 0.6
    m = rng.choice(ALL) if small else rng.choice(common.MESHES)
    b = rng.choice([4, 6, 8, 10] if tier == "quick" else [3, 4, 6, 8, 10, 16, 24])
    sizes = [b - 2, b - 1, b + 1, b + 2, b + 4, 2 * b, b // 2 + 1]
    others = [{"k": rng.choice(["mesh", "meshslep"]), "m": m, "b": max(3, rng.choice(sizes))} for _ in range(rng.choice([0, 1, 2, 3]))]
    others += [{"k": "cap", "L": 3, "t": 40.0}] * rng.choice([0, 0, 1])
    return {
        "small": small, "m": m, "b": b,
        "others": others, "early": rng.choice(["", "", "before", "same"]),
        "rounds": [{"harm": [[rng.choice(HARM), rng.getrandbits(30)] for _ in range(rng.choice([1, 1, 2, 3]))],
                    "what": rng.choice(["mesh", "slep", "slep", "slep"]), "ncpu": rng.choice([1, 2, 3, 4, 8, 16]),
                    "threads": rng.choice([1, 1, 1, 2, 3]), "before": rng.choice(["nothing", "nothing", "seed", "draw", "other"]),
                    "same": rng.random() < 0.3, "seed": rng.getrandbits(30)} for _ in range(rng.choice([1, 2, 2, 3, 6]))],
        "ncpu": rng.choice([1, 2, 4]), "entropy": rng.getrandbits(20),
        "fault": {"kinds": [], "budget": 0},
        "sched": {"p": rng.choice([0.0, 0.0, 0.01, 0.03]), "next": rng.choice([0.0, 0.3, 1.0])},
    }


def fields(nv, seed=5):
    """Some real functions on the vertices."""
    g = np.random.default_rng(seed)
    return [g.standard_normal(nv), np.linspace(-1, 1, nv), (np.arange(nv) % 7 == 3).astype(float)]


def see(spec, what, rec=None):
    """What a user sees of the mesh; with what was recorded earlier, also what that means now."""
    import sleplet
    import sleplet.harmonic_methods as hm
    import sleplet.slepian_methods as sm

    mesh = sleplet.meshes.Mesh(spec["m"], number_basis_functions=spec["b"])
    phi = np.array(mesh.basis_functions)
    out = {"evals": np.array(mesh.mesh_eigenvalues), "basis": phi, "region": np.array(mesh.mesh_region, bool),
           "flm": [np.array(hm.mesh_forward(mesh, u)) for u in fields(phi.shape[1])],
           "normals": np.array(sleplet.meshes.MeshField(mesh).coefficients)}
    given = rec or out
    out["fields"] = [np.array(hm.mesh_inverse(mesh, c)) for c in [*given["flm"], given["normals"]]]
    if what == "mesh":
        return out
    s = sleplet.meshes.MeshSlepian(mesh)
    n = out["N"] = int(s.N)
    ev = np.array(s.slepian_functions)[:n]
    out["lam"] = np.array(s.slepian_eigenvalues)
    out["slep"] = ev @ phi  # on the vertices
    out["analysed"] = [np.array(sm.slepian_mesh_forward(s, u_i=c)) for c in given["flm"]]
    out["projected"] = [np.array(sm.slepian_mesh_inverse(s, c)) for c in out["analysed"]]
    return out


def off(a, b):
    if a.shape != b.shape:
        return float("inf")
    return float(np.abs(a - b).max(initial=0) / max(1e-300, np.abs(a).max(initial=0)))


def compare(old, new, note):
    """Everything seen now against what was seen at first."""
    def bad(x):
        raise Violation("inconsistent", f"{x} {note}")

    if off(old["evals"], new["evals"]) > 1e-7:
        bad("mesh eigenvalues changed")
    if old["basis"].shape != new["basis"].shape:
        bad(f"basis of shape {new['basis'].shape} instead of {old['basis'].shape}")
    if not np.isfinite(new["basis"]).all():
        bad("basis not finite")
    for i, (a, b) in enumerate(zip(old["basis"], new["basis"])):
        if off(a, b) > 1e-7:
            s = "with the opposite sign" if off(a, -b) <= 1e-7 else f"off by {off(a, b):.3g}"
            bad(f"basis function {i} is another one ({s})")
    for i, (a, b) in enumerate(zip(old["fields"], new["fields"])):
        if off(a, b) > 1e-7:
            bad(f"recorded Fourier coefficients {i} now describe another field (off by {off(a, b):.3g})")
    for i, (a, b) in enumerate(zip([*old["flm"], old["normals"]], [*new["flm"], new["normals"]])):
        if off(a, b) > 1e-7:
            bad(f"field {i} now has other Fourier coefficients (off by {off(a, b):.3g})")
    if "slep" not in old or "slep" not in new:
        return
    if old["N"] != new["N"]:
        bad(f"Shannon number {new['N']} instead of {old['N']}")
    if off(old["lam"], new["lam"]) > 1e-7:
        bad("concentrations changed")
    n = old["N"]
    if new["slep"].shape != old["slep"].shape:
        bad(f"Slepian functions of shape {new['slep'].shape} instead of {old['slep'].shape}")
    lam = old["lam"]
    r = new["region"]
    i = 0
    while i < n:
        j = i + 1
        while j < len(lam) and abs(lam[j] - lam[j - 1]) < 1e-6:
            j += 1
        if j <= n:  # the whole group is there
            a, b = old["slep"][i:j], new["slep"][i:j]
            d = min(off(a, b), off(a, -b)) if j == i + 1 else off(a.T @ a, b.T @ b)
            if d > 1e-6:
                bad(f"Slepian functions {i}..{j - 1} are other functions on the mesh (off by {d:.3g})")
        i = j
    g = (new["slep"] * r) @ new["slep"].T
    d = np.abs(g - np.diag(lam[:n])).max(initial=0)
    if d > 1e-6:
        bad(f"Slepian functions on the mesh no longer have their concentrations (off by {d:.3g})")
    gap = n == len(lam) or n == 0 or lam[n - 1] - lam[n] > 1e-6
    for i, (a, b) in enumerate(zip(old["projected"], new["projected"])):
        if gap and off(a, b) > 1e-6:
            bad(f"projection of field {i} on the Slepian functions changed (off by {off(a, b):.3g})")


def run(world, plan):
    world_mod.SMALL_MESHES = 160 if plan["small"] else None
    try:
        return body(world, plan)
    finally:
        world_mod.SMALL_MESHES = None


def body(world, plan):
    fixtures.publish_standard(world)
    spec = {"m": plan["m"], "b": plan["b"]}
    what = f"({'thinned ' if plan['small'] else ''}{plan['m']} b={plan['b']})"
    tags, story = [plan["m"]], []
    elsewhere, _ = world.aside(None, lambda: see(spec, "slep"), env={"NCPU": "2"})

    def others():
        for s in plan["others"]:
            common.build(s)

    if plan["early"] == "before":
        out = world.process(others)
        if not out.ok:
            raise Violation("fails", f"{what} {common.exc_text(out.exc)}")
    out = world.process(lambda: (others() if plan["early"] == "same" else None, see(spec, "slep"))[1],
                        env={"NCPU": str(plan["ncpu"])})
    for o in (elsewhere[0], out):
        if not o.ok:
            raise Violation("fails", f"{what} {common.exc_text(o.exc)}")
    first = out.value
    compare(elsewhere[0].value, first, f"compared with another machine, after {plan['early'] and plan['others']} {what}")
    earliest = world.listing()
    harmed = False

    def harm(kind, seed, inside=False):
        nonlocal harmed
        r = random.Random(seed)
        names = [n for n in common.data_files(world) if n.endswith(".npy")]
        some = r.sample(names, min(len(names), r.choice([1, 1, 2, 3, 4])))
        at = lambda n: os.path.join(world.data, n)  # noqa: E731
        if kind == "own":
            own = [n for n in names if f"_{spec['m']}_b{spec['b']}_" in n]
            some, kind = r.sample(own, r.choice([1, 2, len(own), len(own)]) if len(own) > 1 else len(own)), "delete"
        if kind == "all":
            some, kind = names, "delete"
        if kind == "delete":
            for n in some:
                world.remove(at(n))
            world.dec.fired["damage_delete"] = world.dec.fired.get("damage_delete", 0) + len(some)
        elif kind == "damage":
            for n in some:
                k = r.choice(c06.KINDS)
                data = world.listing()[n]
                world.remove(at(n)) if k == "delete" else world.put(at(n), c06.damaged(data, k, r.getrandbits(30)) if data else b"")
                world.dec.fired[f"damage_{k}"] = world.dec.fired.get(f"damage_{k}", 0) + 1
        elif kind == "publish":
            if common.unreadable(world):
                return
            files = world.listing()
            for n in some:
                world.archive.publish(n, files[n])
                if r.random() < 0.7:
                    world.remove(at(n))
        elif kind == "revert":  # an older copy comes back
            for n in r.sample(sorted(earliest), min(len(earliest), 2)):
                world.put(at(n), earliest[n])
        elif kind in ("kill", "power", "errors", "nomem") and not inside:
            harm("delete", seed + 1)  # something has to be computed
            world.dec.budget, world.dec.p_fault = (3, 0.2) if kind == "errors" else (1, 0.12)
            world.dec.kinds = ["ENOSPC", "EIO", "EACCES", "short"] if kind == "errors" else [kind]
            world.fs.crash_kinds = [kind] if kind in ("kill", "power") else []
            world.compute_faults(kind == "nomem")
            o = world.process(lambda: see(spec, "slep"), env={"NCPU": str(1 + seed % 5)})
            world.dec.kinds = []
            world.calm()
            kind = f"{kind}: {o.kind}"
        else:
            return
        harmed = True
        story.append(kind)

    for i, rd in enumerate(plan["rounds"]):
        for kind, seed in rd["harm"]:
            harm(kind, seed)

        def prog(rd=rd):
            res = []
            if rd["before"] == "seed":
                np.random.seed(rd["seed"])
                random.seed(rd["seed"])
            elif rd["before"] == "draw":
                np.random.standard_normal(rd["seed"] % 50)
            elif rd["before"] == "other":
                others()

            def once():
                if rd["threads"] == 1:
                    res.append(see(spec, rd["what"], first))
                    return
                got = [None] * rd["threads"]

                def work(k):
                    try:
                        got[k] = see(spec, rd["what"] if k % 2 == 0 else "mesh", first)
                    except Exception as e:  # noqa: BLE001
                        got[k] = e

                ts = [threading.Thread(target=work, args=(k,)) for k in range(rd["threads"])]
                for t in ts:
                    t.start()
                for t in ts:
                    t.join()
                res.extend(got)

            once()
            if rd["same"]:  # files are lost under a running process
                for kind, seed in rd["harm"]:
                    harm(kind, seed + 7, inside=True)
                once()
            return res

        out = world.process(prog, env={"NCPU": str(rd["ncpu"])}, trace=rd["threads"] > 1)
        if out.kind == "abort":
            raise Violation("no-progress", str(out.exc))
        note = f"in round {i} after {', '.join(story) or 'nothing'} {what}"
        if not out.ok:
            raise Violation("fails", f"{note}: {common.exc_text(out.exc)}")
        for v in out.value:
            if isinstance(v, Exception):
                raise Violation("fails", f"{note}: {common.exc_text(v)}")
            compare(first, v, note)
        tags.append(rd["what"])
        story.append("use")
    return {"nontrivial": harmed, "tags": tags + [s.split(":")[0] for s in story]}


def shrink(plan):
    for i, rd in enumerate(plan["rounds"]):
        if len(plan["rounds"]) > 1:
            p = copy.deepcopy(plan)
            del p["rounds"][i]
            yield p
        for j in range(len(rd["harm"])):
            p = copy.deepcopy(plan)
            del p["rounds"][i]["harm"][j]
            yield p
        for k, v in (("threads", 1), ("same", False), ("before", "nothing"), ("ncpu", 1), ("what", "mesh")):
            if rd[k] != v:
                p = copy.deepcopy(plan)
                p["rounds"][i][k] = v
                yield p
    if plan["others"]:
        yield dict(copy.deepcopy(plan), others=[])
        if plan["early"]:
            yield dict(copy.deepcopy(plan), early="")
    if plan["b"] > 4:
        yield dict(copy.deepcopy(plan), b=4)
    if plan["sched"]["p"] or plan["sched"]["next"]:
        yield dict(copy.deepcopy(plan), sched={"p": 0.0, "next": 0.0})


def warm(runner):
    common.warm_meshes()
