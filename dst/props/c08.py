"""Published data is verified and preferred, whatever the network does."""

import copy
import io
import os

import numpy as np

from .. import fixtures
from ..net import BODY_FAULTS, CATALOGUE_FAULTS
from ..runner import Violation
from . import common

ID = "C08"
RUNS = {"quick": 1500, "thorough": 40000}
RULE = ("one simulated run: topography, spectrum, masks or eigensolutions are published; other, distinguishable copies of the same "
        "names lie in the data directory and (stale or damaged) in the download cache; downloads are refused, time out, break, "
        "stall, arrive truncated, corrupted, swapped or are throttled at seeded requests; results must be exactly the published "
        "data or (faults beyond the budget) an error; non-trivial when a network fault fired or a wrong copy was in place")
ASSUMPTIONS = ["the catalogue itself (names and checksums) is authentic: the property is relative to what it says"]
RETRIES = 3

FILE = [f"{k}@net.file" for k in BODY_FAULTS]
ANY = FILE + [f"{k}@net.{s}" for k in CATALOGUE_FAULTS for s in ("doi", "catalogue", "page")]


def gen(rng, tier):
    x = rng.random()
    if x < 0.5:
        s = {"k": "map", "c": rng.choice(["Earth", "Wmap", "Africa", "SouthAmerica", "NoiseEarth"]), "L": rng.choice([3, 4, 5])}
    elif x < 0.6:
        s = {"k": "arb", "L": 2, "m": rng.choice(common.EARTH_MASKS)}
    else:
        s = common.small(common.gen_spec(rng, kinds=("cap", "gap", "latlon", "mesh", "meshslep"), Lmax=4))
    mode = rng.choice(["survive", "survive", "anything", "quiet"])
    plan = {
        "spec": s, "mode": mode,
        "local": rng.random() < 0.6,
        "cache": rng.choice(["empty", "empty", "stale", "cut", "flip", "zero", "good"]),
        "mask": rng.random() < 0.5,
        "later_down": rng.random() < 0.5,
        "between": rng.choice([None, None, "stale", "cut", "flip", "zero", "gone", "untouched"]) if mode != "anything" else None,
        "ncpu": rng.choice([1, 2, 4]),
    }
    if mode == "survive":
        n = rng.choice([1, 2, 3, 3])
        plan["fault"] = {"kinds": FILE, "budget": n, "p": 1.0 if rng.random() < 0.6 else 0.4}
    elif mode == "anything":
        plan["fault"] = {"kinds": rng.choice([ANY, FILE]), "budget": rng.choice([2, 4, 8, 40]),
                         "p": rng.choice([0.1, 0.3, 0.7, 1.0])}
    return plan


def _twist(name, data, how):
    """Another valid solution under the same name: other phases, same subspaces."""
    if not name.endswith("eigenvectors.npy"):
        return data
    a = np.load(io.BytesIO(data))
    w = -1.0 if how else 1.0
    if np.iscomplexobj(a):
        w = np.exp(1j * (0.3 + how))
    return fixtures.npy(a * w)


def run(world, plan):
    s = plan["spec"]
    common.put_masks(world, [s])
    d = common.describe(s)
    cache = os.path.join(world.cache, "sleplet")
    published = {}
    variant = 0
    if common.uses_archive(s):
        published[fixtures.EARTH] = fixtures.earth_mat(0)
        published[fixtures.WMAP] = fixtures.wmap_mat(0)
        others = {fixtures.EARTH: (fixtures.earth_mat(1), fixtures.earth_mat(2)),
                  fixtures.WMAP: (fixtures.wmap_mat(1), fixtures.wmap_mat(2))}
        if s["k"] == "arb" and plan["mask"]:
            # a published mask that is not the one the published topography gives
            variant = 1
            n = common.mask_file(s["m"], s["L"])
            published[n] = fixtures.npy(np.array(common.earth_mask(s["m"], 2 * s["L"], 1)))
            others[n] = (fixtures.npy(np.array(common.earth_mask(s["m"], 2 * s["L"], 2))),
                         fixtures.npy(np.array(common.earth_mask(s["m"], 2 * s["L"], 0))))
    else:
        files, _ = common.stored_files(world, s, publish=False)
        published = {n: _twist(n, b, 0) for n, b in files.items()}
        others = {n: (_twist(n, b, 1), _twist(n, b, 2)) for n, b in files.items()}

    def wrong(n, b, how):
        if how == "stale":
            return others[n][0] if others[n][0] != b else b[:-1] + bytes([b[-1] ^ 1])
        return {"cut": b[: len(b) * 2 // 3], "flip": b[:-9] + bytes([b[-9] ^ 16]) + b[-8:], "zero": bytes(len(b)), "good": b}.get(how)

    for n, b in published.items():
        world.archive.publish(n, b)
        if plan["local"]:
            world.put(os.path.join(world.data, n), others[n][1])
        bad = wrong(n, b, plan["cache"])
        if bad is not None:
            world.put(os.path.join(cache, n), bad)

    def setup(w):
        common.put_masks(w, [s])
        for n, b in published.items():
            w.archive.publish(n, b)

    # the same machine without other copies and without faults
    outs, quiet = world.aside(setup, lambda: common.build(s))
    if not outs[0].ok:
        raise Violation("fault-free", f"{d}: {common.exc_text(outs[0].exc)}")
    baseline = outs[0].value
    if s["k"] not in ("map", "arb"):
        unused = sorted(set(published) - set(quiet.net.downloads))
        if unused:
            raise Violation("not-preferred", f"{d}: published {unused} are not downloaded")

    def exact(res):
        """Is the result made of the published bytes?"""
        if s["k"] == "arb":
            return True  # judged by its mask
        return all(common.agree(res[k], baseline[k]) for k in res)

    def good(res, note, klass="unverified"):
        common.judge_or(klass, s, res, variant, note=note)
        if not exact(res):
            raise Violation("not-preferred", f"{d}: the result is not the published one {note}")

    between = plan.get("between")

    def prog():
        first = common.build(s)
        if not between:
            return first, None
        # the cached copies are harmed while the program goes on
        for n, b in published.items():
            path = os.path.join(cache, n)
            if n in world.listing(cache):
                if between == "gone":
                    world.remove(path)
                elif between != "untouched":
                    world.put(path, wrong(n, b, between))
        return first, common.build(s)

    out = world.process(prog, env={"NCPU": str(plan["ncpu"])})
    again = None
    if out.ok:
        out.value, again = out.value
    fired = dict(world.dec.fired)
    note = f"after network faults {fired}, cache {plan['cache']}, local copy {plan['local']}"
    if out.kind == "abort":
        raise Violation("no-progress", f"{d}: {out.exc}")
    tags = [s["k"], plan["mode"], "cache=" + plan["cache"]]
    catalogue_ok = world.net.catalogue_hits > 0
    mixed = (plan["mode"] == "anything" and plan["fault"]["kinds"] != FILE and plan["local"]
             and (s["k"] == "arb" or s.get("c") in ("Africa", "SouthAmerica", "NoiseEarth")))
    if out.ok:
        tags.append("returned")
        if plan["mode"] != "anything" or plan["fault"]["kinds"] == FILE:
            good(out.value, note)
            if again is not None:
                good(again, f"when built again in the same process with its cached copies {between}, {note}")
        else:
            # the catalogue may have been unreachable at first: then a local copy or a computed one is right, and
            # something made of several files may mix local and published ones
            ok = mixed
            for v in {variant, 2, 0} if plan["local"] or s["k"] == "arb" else {variant}:
                try:
                    common.judge(s, out.value, v)
                    ok = True
                except common.oracle.Mismatch as e:
                    err = e
            if not ok:
                raise Violation("unverified", f"{err} {note}")
            if s["k"] == "map" and not exact(out.value) and not plan["local"]:
                raise Violation("unverified", f"{d}: the result is not the published one {note}")
    else:
        tags.append("raised " + type(out.exc).__name__)
        if plan["mode"] != "anything":
            raise Violation("not-survived", f"{d}: {common.exc_text(out.exc)} {note}")
    per = {}
    for _, kind, name in world.net.requests:
        per[kind, name] = per.get((kind, name), 0) + 1
    for (kind, name), k in per.items():
        # a file may be asked for by every construction step that needs it, each with its own retries
        limit = (RETRIES + 1) * (8 if between else 4) if kind == "file" else 150
        if k > limit:
            raise Violation("unbounded", f"{d}: {k} requests for {kind} {name} {note}")
    # whatever is in the cache under its final name now was verified, or was there before
    world.calm()
    now = world.listing(cache) if os.path.isdir(cache) else {}
    got = [n for n in published if now.get(n) == published[n]]
    down = plan["later_down"] and len(got) == len([n for n in published if n in now]) and out.ok and catalogue_ok
    if down:
        world.dec.budget = 10**6
        world.dec.kinds = ["http500@net.file", "refused@net.file"]
        world.dec.p_fault = 1.0
        world.dec.at = set()
        n0 = world.net.downloads.copy()
    later = world.process(lambda: common.build(s))
    world.calm()
    if later.ok and mixed:
        pass  # a mask made from the local topography may have been stored meanwhile
    elif later.ok:
        good(later.value, "in a later process", klass="later-unverified")
    elif not down:
        raise Violation("later-fails", f"{d}: a later process with a working network: {common.exc_text(later.exc)} ({note})")
    elif plan["mode"] != "anything":
        raise Violation("later-fails", f"{d}: verified copies are in the cache but {common.exc_text(later.exc)} ({note})")
    if down and later.ok and world.net.downloads != n0:
        raise Violation("later-unverified", "a file was downloaded although none could be")
    now = world.listing(cache) if os.path.isdir(cache) else {}
    if later.ok and not between and plan["cache"] in ("stale", "cut", "flip", "zero"):
        used = {n for _, k, n in world.net.requests if k == "file"}
        for n in used & set(published):
            if now.get(n) != published[n]:
                raise Violation("not-replaced", f"{d}: the {plan["cache"]} cached copy of {n} is still there")
    return {"nontrivial": bool(fired) or plan["local"] or plan["cache"] not in ("empty", "good"), "tags": tags}


def shrink(plan):
    for k, v in (("between", None), ("local", False), ("cache", "empty"), ("later_down", False), ("ncpu", 1), ("mask", False)):
        if plan[k] != v:
            yield dict(copy.deepcopy(plan), **{k: v})
    if plan["spec"].get("L", 3) > 3:
        p = copy.deepcopy(plan)
        p["spec"]["L"] -= 1
        yield p


def warm(runner):
    common.warm_meshes()
