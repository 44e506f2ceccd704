"""A plot command's figure depends only on its arguments and settings."""

import copy
import os
import random
import sys

import numpy as np

from .. import fixtures
from .. import world as world_mod
from ..runner import Violation
from . import c06, c13, common, figs

ID = "C15"
RUNS = {"quick": 700, "thorough": 20000}
RULE = ("one simulated run: 1 to 4 processes each run 1 to 4 whole sphere or mesh plot commands (command line and environment "
        "settings) with seeded worker counts and schedules on a shared store, after events (killed, failing or completed earlier "
        "commands, damage, publication, outages); every figure is compared with the one the same command shows alone on a fresh "
        "machine; non-trivial when a compared command was not the first thing to happen")
ASSUMPTIONS = ["figures may differ by rounding (1e-9), magnified where a nearly constant field is normalised",
               "meshes are thinned out to about 160 triangles so that whole mesh commands are affordable",
               "custom masks are given by the user for the plotted resolution"]

SPHERE = {
    "identity": (), "dirac_delta": (), "earth": (), "africa": (), "south_america": (), "wmap": (),
    "slepian_identity": (), "slepian_dirac_delta": (), "slepian_africa": (), "slepian_south_america": (),
    "gaussian": (((0, 3),),), "elongated_gaussian": (((0, 1), (0, 1)),), "squashed_gaussian": (((0, 1), (0, 1)),),
    "harmonic_gaussian": (((0, 1), (0, 1)),), "spherical_harmonic": "ylm", "slepian": "rank",
    "axisymmetric_wavelets": "wav", "ridgelets": "ridge", "slepian_wavelets": "wav",
    "axisymmetric_wavelet_coefficients_earth": "wav", "axisymmetric_wavelet_coefficients_africa": "wav",
    "axisymmetric_wavelet_coefficients_south_america": "wav", "slepian_wavelet_coefficients_africa": "wav",
    "slepian_wavelet_coefficients_south_america": "wav", "noise_earth": (((-5, 10),),), "slepian_noise_africa": (((-5, 10),),),
    "slepian_noise_south_america": (((-5, 10),),),
}
MESH = {"basis_functions": "rank", "field": (), "noise_field": (((-5, 10),),), "slepian_field": (), "slepian_functions": "rank0",
        "slepian_noise_field": (((-5, 10),),), "slepian_wavelets": "wav", "slepian_wavelet_coefficients": "wav"}
MESHES = ("bird", "teapot", "cheetah", "cube", "dragon", "homer")
ENVS = ({"THETA_MAX": "40"}, {"THETA_MAX": "40", "POLAR_GAP": "true"}, {"THETA_MAX": "41"}, {"THETA_MAX": "90"},
        {"THETA_MIN": "20", "THETA_MAX": "60", "PHI_MIN": "30", "PHI_MAX": "200"}, {"THETA_MAX": "90", "PHI_MAX": "180"},
        {"SLEPIAN_MASK": "blob1"}, {"SLEPIAN_MASK": "africa"}, {})
NEEDS = ("earth", "africa", "south_america", "wmap")


def extra(rng, how, L):
    if how == "ylm":
        ell = rng.randrange(L)
        return [ell, rng.randint(-ell, ell)]
    if how == "rank":
        return [rng.choice([0, 0, 1, 2])]
    if how == "rank0":
        return [0]
    if how in ("wav", "ridge"):
        w = [rng.choice([2, 3]), rng.choice([0, 1])]
        return w + ([rng.choice([0, 2])] if how == "ridge" else []) + [rng.choice([0, 0, 0, 0, 1])]
    return [rng.randint(*r) for r in how[0]] if how else []


def gen_command(rng, near=None):
    if near is not None and rng.random() < 0.5:  # a variation of another command
        c = copy.deepcopy(near)
        if c["cli"] == "sphere" and rng.random() < 0.6:
            c["env"] = dict(rng.choice(ENVS))
        elif rng.random() < 0.6:
            o = rng.choice(["-u", "-z", "-z"])
            if o in c["opts"] and not (c["cli"] == "sphere" and o == "-z"):
                c["opts"] = {k: v for k, v in c["opts"].items() if k != o}
            else:
                c["opts"] = dict(c["opts"], **{o: None})
        else:
            how = (SPHERE if c["cli"] == "sphere" else MESH)[c["fn"] if c["cli"] == "sphere" else c["opts"]["-m"]]
            e = extra(rng, how, c.get("L", 4))
            if e:
                c["extra"] = e
        return fit(rng, c)
    if rng.random() < 0.3:
        m = rng.choice(sorted(MESH))
        c = {"cli": "mesh", "fn": rng.choice(MESHES), "opts": {"-m": m}, "env": {}, "extra": []}
        if rng.random() < 0.6:
            c["extra"] = extra(rng, MESH[m], 4)
        for o, p in (("-r", 0.3), ("-u", 0.4), ("-z", 0.3)):
            if rng.random() < p:
                c["opts"][o] = None
        if rng.random() < 0.3 and "noise" not in m:
            c["opts"]["-n"] = rng.choice([-5, 0, 10])
        return c
    fn = rng.choice(sorted(SPHERE))
    if rng.random() < 0.35:
        fn = rng.choice(["slepian", "slepian", "slepian_identity", "slepian_wavelets", "slepian_dirac_delta"])
    c = {"cli": "sphere", "fn": fn, "L": rng.randint(3, 5), "opts": {}, "env": dict(rng.choice(ENVS)), "extra": []}
    if rng.random() < 0.6:
        c["extra"] = extra(rng, SPHERE[fn], c["L"])
    o = c["opts"]
    o["-z"] = None
    if rng.random() < 0.15:
        del o["-z"]
    for k, p, v in (("-a", 0.3, [0, 0.25, 0.5, 1.1]), ("-b", 0.3, [0, 0.3, 0.75]), ("-g", 0.2, [0, 0.5]), ("-m", 0.5, ["north", "rotate", "translate"]),
                    ("-n", 0.3, [-5, 0, 10]), ("-o", 0.2, [None]), ("-p", 0.3, ["africa", "south_america"]), ("-r", 0.3, [None]),
                    ("-s", 0.1, [2]), ("-t", 0.5, ["abs", "real", "imag", "sum"]), ("-u", 0.4, [None]), ("-c", 0.12, ["earth", "south_america", "wmap"])):
        if rng.random() < p:
            o[k] = rng.choice(v)
    return fit(rng, c)


def fit(rng, c):
    """Keep masked regions cheap, and Slepian functions among those that are stored."""
    if c["cli"] == "mesh":
        return c
    if c["fn"].startswith("slepian_") and c["fn"].endswith("america"):
        c["env"] = {}
    if c["fn"].startswith("slepian_") and c["fn"].endswith("africa"):
        c["env"] = {"SLEPIAN_MASK": "africa"}
    if c["fn"].startswith("slepian") and c["opts"].get("-m") == "rotate" and rng.random() < 0.8:
        c["opts"]["-m"] = "translate"  # Slepian functions cannot be rotated
    arb = is_masked(c)
    if arb:
        c["L"] = 3
        c["opts"]["-z"] = None
    if c["fn"] == "slepian" and c["extra"]:
        c["extra"] = [min(c["extra"][0], max(0, shannon(c) - 1))]  # see BEYOND
    return c


def shannon(c):
    e = {k: float(v) * np.pi / 180 for k, v in c["env"].items() if k.startswith(("THETA", "PHI"))}
    if is_masked(c):
        return 1
    t0, t1, p0, p1 = e.get("THETA_MIN", 0), e.get("THETA_MAX", np.pi), e.get("PHI_MIN", 0), e.get("PHI_MAX", 2 * np.pi)
    return common.oracle.shannon((np.cos(t0) - np.cos(t1)) * (p1 - p0), c["L"])


def is_masked(c):
    e = c["env"]
    uses = c["fn"].startswith("slepian") or "-r" in c["opts"]
    return c["cli"] == "sphere" and uses and (not e or "SLEPIAN_MASK" in e)


def needs_archive(c):
    if c["cli"] == "mesh":
        return False
    return any(w in c["fn"] for w in NEEDS) or "-c" in c["opts"] or (is_masked(c) and "blob" not in str(c["env"]))


def argv(c, over=()):
    opts = {**c["opts"], **dict(over)}
    out = [c["fn"]]
    if c["cli"] == "sphere":
        out += ["-L", str(c["L"])]
    if c["extra"]:
        out += ["-e", *[str(x) for x in c["extra"]]]
    for k, v in sorted(opts.items()):
        out += [k] if v is None else [k, str(v)]
    return out


def gen(rng, tier):
    if rng.random() < 0.02:
        cmd = {"cli": "sphere", "fn": "slepian", "L": rng.choice([3, 4]), "opts": {"-z": None}, "env": dict(ENVS[4])}
        cmd["extra"] = [shannon(cmd) + rng.choice([0, 1])]
        return {"beyond": cmd, "procs": [], "sched": {"p": 0.0, "next": 0.0}, "fault": {"kinds": [], "budget": 0}}
    procs, last = [], None
    for _ in range(rng.choice([1, 1, 2, 2, 3])):
        cmds = []
        for _ in range(rng.choice([1, 1, 2, 3])):
            last = gen_command(rng, last)
            cmds.append(dict(last, struck=rng.random() < 0.12))
            if rng.random() < 0.25:
                cmds.append(dict(last, struck=False))  # the same again
        procs.append({"cmds": cmds, "ncpu": rng.choice([1, 2, 3, 4, 8]),
                      "before": rng.choice(["nothing", "nothing", "kill", "power", "damage", "publish", "build"]),
                      "seed": rng.getrandbits(30), "outage": rng.random() < 0.4})
    return {"procs": procs, "fault": {"kinds": [], "budget": 0},
            "sched": {"p": rng.choice([0.0, 0.01, 0.05]), "next": rng.choice([0.0, 0.3, 1.0])}}


def show(c):
    env = " ".join(f"{k}={v}" for k, v in c["env"].items())
    return f"{env + ' ' if env else ''}{c['cli']} {' '.join(argv(c))}"


def command(c, over=()):
    """Run the whole command (in a simulated process); what it showed."""
    import sleplet._scripts.plotting_on_mesh as mesh
    import sleplet._scripts.plotting_on_sphere as sphere

    old, olde, err = sys.argv, {k: os.environ.get(k) for k in ALL_ENV}, sys.stderr
    for k in ALL_ENV:
        os.environ.pop(k, None)
    os.environ.update(c["env"])
    sys.argv = [c["cli"], *argv(c, over)]
    sys.stderr = open(os.devnull, "w")
    try:
        return figs.shown(sphere.main if c["cli"] == "sphere" else mesh.main)
    finally:
        sys.stderr.close()
        sys.argv, sys.stderr = old, err
        for k, v in olde.items():
            os.environ.pop(k, None)
            if v is not None:
                os.environ[k] = v


ALL_ENV = ("POLAR_GAP", "SLEPIAN_MASK", "PHI_MAX", "PHI_MIN", "THETA_MAX", "THETA_MIN")


def give_masks(world):
    for L in range(3, 6):
        for res in (L, 2 * L):
            p = os.path.join(world.data, f"slepian_masks_blob1_L{res}.npy")
            world.put(p, fixtures.npy(common.custom_mask("blob1", res)))


def alone(world, c):
    """What the command shows on a fresh machine, and how much normalising magnifies rounding in it."""

    def prep(w):
        fixtures.publish_standard(w)
        give_masks(w)
        w.sim.now = 86400.0 * 37

    def fn():
        try:
            got = command(c)
        except (Exception, SystemExit) as e:  # noqa: BLE001
            if type(e).__name__ == "ValidationError" and getattr(e, "title", "") in ("PlotSphere", "PlotMesh"):
                raise Violation("no-figure", f"[{show(c)}]: the command gives the plot what it rejects: {common.exc_text(e)}") from None
            return e, 1.0
        if "-u" in c["opts"] or (c["fn"] == "slepian" and c["extra"] and c["extra"][0] >= shannon(c)):
            return got, 1.0
        raw = command(c, {"-u": None}.items())
        full = command(c, {"-u": None, "-t": "abs"}.items()) if c["cli"] == "sphere" else raw
        return got, figs.gain(raw, full)

    outs, _ = world.aside(prep, fn)
    if isinstance(outs[0].exc, Violation):
        raise outs[0].exc
    if not outs[0].ok:
        raise Violation("fault-free", f"{show(c)} alone: {common.exc_text(outs[0].exc)}")
    return outs[0].value


def compare(c, got, ref, story):
    want, g = ref
    a, b = isinstance(want, BaseException), isinstance(got, BaseException)
    if a or b:
        if a and b and type(want) is type(got):
            return
        raise Violation("fails", f"[{show(c)}] {'raises ' + common.exc_text(got) if b else 'shows a figure'} after [{'; '.join(story)}]; "
                        f"alone it {'raises ' + common.exc_text(want) if a else 'shows a figure'}")
    got, want = figs.blur(copy.deepcopy(got), g), figs.blur(copy.deepcopy(want), g)
    d = c13.differ(want, got)
    if d:
        raise Violation("figure", f"[{show(c)}] after [{'; '.join(story)}]: {d}")


def run(world, plan):
    world_mod.FIGURES = []
    world_mod.SMALL_MESHES = 160
    try:
        return run2(world, plan)
    finally:
        world_mod.FIGURES = None
        world_mod.SMALL_MESHES = None


def run2(world, plan):
    fixtures.publish_standard(world)
    give_masks(world)
    given = set(common.data_files(world))
    refs, story, tags, later = {}, [], [], 0

    if plan.get("beyond"):
        return beyond(world, plan["beyond"])

    def ref(c):
        k = repr(sorted((k, v) for k, v in c.items() if k != "struck"))
        if k not in refs:
            refs[k] = alone(world, c)
        return refs[k]

    def names():
        return [n for n in common.data_files(world) if n not in given and n.endswith(".npy")]

    for p in plan["procs"]:
        r = random.Random(p["seed"])
        first = p["cmds"][0]
        if p["before"] in ("kill", "power", "build"):
            if p["before"] != "build":
                world.dec.kinds, world.dec.budget, world.dec.p_fault = [p["before"]], 1, r.choice([0.03, 0.15])
                world.fs.crash_kinds = [p["before"]]
            out = world.process(lambda c=first: guarded(c), env={"NCPU": str(r.randint(1, 4))})
            world.dec.kinds = []
            world.calm()
            story.append(f"{p['before']}: {show(first)} ({out.kind})")
        elif p["before"] == "damage" and names():
            hit = r.sample(names(), min(len(names()), r.choice([1, 2, 4])))
            for n in hit:
                kind = r.choice(c06.KINDS)
                path = os.path.join(world.data, n)
                if kind == "delete":
                    world.remove(path)
                else:
                    data = world.listing()[n]
                    world.put(path, c06.damaged(data, kind, r.getrandbits(30)) if data else b"")
                world.dec.fired[f"damage_{kind}"] = world.dec.fired.get(f"damage_{kind}", 0) + 1
            story.append(f"damage to {hit}")
        elif p["before"] == "publish" and names() and not common.unreadable(world):
            files = world.listing()
            for n in names():
                world.archive.publish(n, files[n])
                if r.random() < 0.7:
                    world.remove(os.path.join(world.data, n))
            story.append("publication of what was stored")
        published = any(s.startswith("publication") for s in story)
        world.net.outage = p["outage"] and not published and not any(needs_archive(c) for c in p["cmds"])

        def prog(p=p):
            out = []
            for c in p["cmds"]:
                if c["struck"]:
                    world.dec.kinds, world.dec.budget, world.dec.p_fault = ["nomem"], 1, 0.1
                    world.compute_faults(True)
                out.append(guarded(c))
                if c["struck"]:
                    world.dec.kinds, world.dec.budget = [], 0
                    world.compute_faults(False)
            return out

        out = world.process(prog, env={"NCPU": str(p["ncpu"])}, trace=True)
        world.net.outage = False
        if out.kind == "abort":
            raise Violation("no-progress", f"{[show(c) for c in p['cmds']]}: {out.exc}")
        if not out.ok:
            raise Violation("fails", f"{[show(c) for c in p['cmds']]}: {common.exc_text(out.exc)}")
        for c, got in zip(p["cmds"], out.value):
            if not (c["struck"] and isinstance(got, Exception) and "simulated" in str(got)):
                compare(c, got, ref(c), story)
                later += bool(story)
                tags += [c["cli"], f"raised {type(got).__name__}" if isinstance(got, BaseException) else "shown"]
            story.append(show(c) + (" (hit by a failing allocation)" if c["struck"] else ""))
    return {"nontrivial": later > 0, "tags": tags}


def beyond(world, c):
    """Only the functions below the Shannon number of a rectangle are stored: can the others be plotted again?"""
    want = alone(world, c)[0]
    for story in ([], [show(c)]):
        out = world.process(lambda: guarded(c))
        if not out.ok:
            raise Violation("fails", f"[{show(c)}]: {common.exc_text(out.exc)}")
        if story and isinstance(out.value, IndexError) and not isinstance(want, BaseException):
            raise Violation("beyond-stored", f"[{show(c)}] asks for a function beyond the Shannon number of a rectangle: it shows a figure "
                            f"on an empty store and raises {common.exc_text(out.value)} once the eigensolutions are stored")
        if isinstance(out.value, BaseException) != isinstance(want, BaseException):
            compare(c, out.value, (want, 1.0), story)
    return {"nontrivial": True, "tags": ["beyond"]}


def guarded(c):
    try:
        return command(c)
    except (Exception, SystemExit) as e:  # noqa: BLE001
        return e


def shrink(plan):
    for i in range(len(plan["procs"])):
        if len(plan["procs"]) > 1:
            p = copy.deepcopy(plan)
            del p["procs"][i]
            yield p
    for i, pr in enumerate(plan["procs"]):
        for j in range(len(pr["cmds"])):
            if len(pr["cmds"]) > 1:
                p = copy.deepcopy(plan)
                del p["procs"][i]["cmds"][j]
                yield p
        for j, c in enumerate(pr["cmds"]):
            for k in c["opts"]:
                if k != "-z":
                    p = copy.deepcopy(plan)
                    del p["procs"][i]["cmds"][j]["opts"][k]
                    yield p
        for k, v in (("before", "nothing"), ("outage", False), ("ncpu", 1)):
            if pr[k] != v:
                p = copy.deepcopy(plan)
                p["procs"][i][k] = v
                yield p
    if plan["sched"]["p"] or plan["sched"]["next"]:
        yield dict(copy.deepcopy(plan), sched={"p": 0.0, "next": 0.0})


def warm(runner):
    pass
