"""Objects built by simulated programs, and the independent judgement of what they got."""

import functools
import math
import os
import zlib

import numpy as np

from .. import fixtures, oracle
from ..runner import Violation

MESHES = ("bird", "teapot", "cheetah")


# --------------------------------------------------------------------------------------
# building through the public API (runs inside a simulated process)
# --------------------------------------------------------------------------------------
def rad(x):
    return float(x) * math.pi / 180.0


def make(spec):
    import sleplet

    k = spec["k"]
    if k == "cap":
        kw = {}
        if spec.get("gap"):
            kw["gap"] = True
        if spec.get("order") is not None:
            kw["order"] = spec["order"]
        return sleplet.slepian.SlepianPolarCap(spec["L"], rad(spec["t"]), **kw)
    if k == "latlon":
        a = spec["a"]
        return sleplet.slepian.SlepianLimitLatLon(
            spec["L"], theta_min=rad(a[0]), theta_max=rad(a[1]), phi_min=rad(a[2]), phi_max=rad(a[3]))
    if k == "arb":
        return sleplet.slepian.SlepianArbitrary(spec["L"], spec["m"])
    if k == "mesh":
        return sleplet.meshes.Mesh(spec["m"], number_basis_functions=spec["b"])
    if k == "meshslep":
        return sleplet.meshes.MeshSlepian(sleplet.meshes.Mesh(spec["m"], number_basis_functions=spec["b"]))
    if k == "map":
        return getattr(sleplet.functions, spec["c"])(spec["L"], **spec.get("kw", {}))
    raise ValueError(k)


def extract(spec, obj):
    """What a user of the object sees, as plain copies."""
    k = spec["k"]
    if k in ("cap", "latlon", "arb"):
        out = {"N": int(obj.N), "evals": np.array(obj.eigenvalues), "evecs": np.array(obj.eigenvectors),
               "mask": np.array(obj.mask)}
        if k == "cap":
            out["order"] = np.array(obj.order)
        return out
    if k == "mesh":
        return {"evals": np.array(obj.mesh_eigenvalues), "basis": np.array(obj.basis_functions),
                "b": int(obj.number_basis_functions), "nv": int(obj.vertices.shape[0])}
    if k == "meshslep":
        m = obj.mesh
        return {"N": int(obj.N), "evals": np.array(obj.slepian_eigenvalues), "evecs": np.array(obj.slepian_functions),
                "mevals": np.array(m.mesh_eigenvalues), "basis": np.array(m.basis_functions),
                "region": np.array(m.mesh_region)}
    if k == "map":
        return {"coefficients": np.array(obj.coefficients), "snr": obj.snr,
                "name": obj.name}
    raise ValueError(k)


def build(spec):
    return extract(spec, make(spec))


# --------------------------------------------------------------------------------------
# custom masks
# --------------------------------------------------------------------------------------
@functools.lru_cache(None)
def custom_mask(name, res):
    """A deterministic mask, at resolution `res`, of the region a user called `name`; names that look alike have their own masks."""
    plain = name in ("blob0", "blob1", "blob2", "blob3")
    stem = name if plain else "".join(c for c in name.lower() if c.isalpha())
    rng = np.random.default_rng(1000 + int(name[4:]) if plain else zlib.crc32(stem.encode()))
    turn = 0.0 if plain else zlib.crc32(name.encode()) % 628 / 100  # alike: the same shape elsewhere
    th, ph = oracle.grid(res)
    mask = np.zeros(th.shape, dtype=bool)
    for _ in range(2):
        t0, p0, r = rng.uniform(0.3, 2.8), rng.uniform(0, 2 * np.pi) + turn, rng.uniform(0.7, 1.1)
        d = np.cos(th) * np.cos(t0) + np.sin(th) * np.sin(t0) * np.cos(ph - p0)
        mask |= d >= np.cos(r)
    return mask


def mask_file(name, L):
    return f"slepian_masks_{name}_L{2 * L}.npy"


def put_masks(world, specs, durable=True):
    """A user's own masks lie in the data directory before anything runs."""
    for s in specs:
        if has_own_mask(s):
            p = os.path.join(world.data, mask_file(s["m"], s["L"]))
            if not os.path.exists(p):
                world.put(p, fixtures.npy(custom_mask(s["m"], 2 * s["L"])))


EARTH_MASKS = ("africa", "south_america")


def has_own_mask(spec):
    """The region is a mask of the user's own."""
    return spec["k"] == "arb" and spec["m"] not in EARTH_MASKS


def uses_archive(spec):
    """Cannot be computed from nothing: needs the published topography or spectrum."""
    return (spec["k"] == "arb" and spec["m"] in EARTH_MASKS) or spec["k"] == "map"


# --------------------------------------------------------------------------------------
# independent references
# --------------------------------------------------------------------------------------
@functools.lru_cache(64)
def _cap_d(L, t, gap):
    return oracle.d_polar(L, t, gap)


@functools.lru_cache(64)
def _latlon_d(L, a):
    return oracle.d_latlon(L, *a)


@functools.lru_cache(64)
def _mask_d(L, name, variant):
    return oracle.d_mask(L, arb_mask(name, 2 * L, variant))


@functools.lru_cache(64)
def arb_mask(name, res, variant=0):
    if name in EARTH_MASKS:
        return earth_mask(name, res, variant)
    return custom_mask(name, res)


@functools.lru_cache(64)
def earth_flm(L, variant=0):
    """The published topography, as the library documents it: real signal, inverted, band-limited."""
    raw = fixtures.earth_coeffs(variant)[: L * L].copy()
    for ell in range(1, L):
        for m in range(1, ell + 1):
            raw[ell * ell + ell - m] = (-1) ** m * np.conj(raw[ell * ell + ell + m])
    return raw.conj()


@functools.lru_cache(64)
def earth_mask(name, res, variant=0):
    import pyssht as ssht

    d = math.pi / 180
    if name == "africa":
        euler, rng = (44 * d, 87 * d, 341 * d), 41 * d
    else:
        euler, rng = (54 * d, 108 * d, 63 * d), 40 * d
    f = ssht.inverse(ssht.rotate_flms(earth_flm(res, variant), *euler, res), res, Method="MWSS", Reality=True)
    th, _ = oracle.grid(res)
    return (th <= rng) & (f >= 0)


@functools.lru_cache(8)
def _mesh_files(name):
    """Vertices, faces and region, read without sleplet (igl reads and subdivides)."""
    import igl
    import tomllib

    from ..runner import REPO_SRC

    base = os.path.join(REPO_SRC, "sleplet", "_data")
    with open(os.path.join(base, f"meshes_regions_{name}.toml"), "rb") as f:
        c = tomllib.load(f)
    v, f = igl.read_triangle_mesh(os.path.join(base, f"meshes_polygons_{c['FILENAME']}"))
    v, f = igl.upsample(v, f, number_of_subdivs=c["UPSAMPLE"])
    r = np.ones(len(v), bool)
    for i, ax in enumerate("XYZ"):
        r &= (v[:, i] >= c[f"{ax}MIN"]) & (v[:, i] <= c[f"{ax}MAX"])
    return v, f, r


@functools.lru_cache(8)
def _mesh_laplacian(name):
    """Cotangent Laplacian from first principles."""
    import scipy.sparse as sp

    v, f, _ = _mesh_files(name)
    n = len(v)
    rows, cols, vals = [], [], []
    for a, b, c in ((0, 1, 2), (1, 2, 0), (2, 0, 1)):
        i, j, k = f[:, a], f[:, b], f[:, c]
        e1, e2 = v[i] - v[k], v[j] - v[k]
        cot = np.einsum("ij,ij->i", e1, e2) / np.linalg.norm(np.cross(e1, e2), axis=1)
        w = 0.5 * cot
        rows += [i, j, i, j]
        cols += [j, i, i, j]
        vals += [-w, -w, w, w]
    return sp.csr_matrix((np.concatenate(vals), (np.concatenate(rows), np.concatenate(cols))), shape=(n, n))


@functools.lru_cache(32)
def _mesh_evals(name, b):
    import scipy.sparse.linalg as sla

    Lp = _mesh_laplacian(name)
    n = Lp.shape[0]
    w = sla.eigsh(Lp, k=b + 3, which="LM", sigma=-1e-3, v0=np.linspace(1, 2, n), return_eigenvectors=False)
    return np.sort(w)[:b]


def warm_meshes(names=MESHES, bs=(6, 8, 10)):
    for n in names:
        for b in bs:
            _mesh_evals(n, b)


def check_mesh_basis(name, b, evals, basis, what):
    need = oracle.need
    v, _, _ = _mesh_files(name)
    need(evals.shape == (b,), f"{what}: {evals.shape[0]} eigenvalues instead of {b}")
    need(basis.shape == (b, len(v)), f"{what}: basis has shape {basis.shape}")
    need(np.isfinite(evals).all() and np.isfinite(basis).all(), f"{what}: not finite")
    ref = _mesh_evals(name, b)
    d = np.abs(np.sort(evals) - ref).max()
    need(d <= 1e-6, f"{what}: eigenvalues differ from the direct computation by {d:.3g}")
    r = np.abs(_mesh_laplacian(name) @ basis.T - basis.T * evals).max()
    need(r <= 1e-6, f"{what}: not eigenfunctions of the mesh Laplacian (residual {r:.3g})")
    g = np.abs(basis @ basis.T - np.eye(b)).max()
    need(g <= 1e-6, f"{what}: basis functions are not orthonormal (error {g:.3g})")


# --------------------------------------------------------------------------------------
# judging a result
# --------------------------------------------------------------------------------------
def describe(spec):
    k = spec["k"]
    if k == "cap":
        g = "gap" if spec.get("gap") else "cap"
        o = f" order {spec['order']}" if spec.get("order") is not None else ""
        return f"{g} {spec['t']} deg L={spec['L']}{o}"
    if k == "latlon":
        return f"rectangle {spec['a']} deg L={spec['L']}"
    if k == "arb":
        return f"mask {spec['m']} L={spec['L']}"
    if k in ("mesh", "meshslep"):
        return f"{k} {spec['m']} b={spec['b']}"
    return f"{spec['c']} L={spec['L']}"


def judge(spec, res, variant=0, tol=1e-7):
    """Raises oracle.Mismatch when a result is not what the independent computation gives."""
    what = describe(spec)
    need = oracle.need
    k = spec["k"]
    if k == "cap":
        L, t = spec["L"], rad(spec["t"])
        D = _cap_d(L, t, bool(spec.get("gap")))
        area = 2 * math.pi * (1 - math.cos(t))
        n = oracle.shannon(area, L)
        th, _ = oracle.grid(L)
        m = th <= t
        if spec.get("gap"):
            m = m | (th >= math.pi - t)
        need(np.array_equal(np.asarray(res["mask"], bool), m), f"{what}: wrong mask")
        _, emm = oracle.elm(L)
        if spec.get("order") is not None:
            o = spec["order"]
            sub = np.ix_(emm == o, emm == o)
            ev = np.asarray(res["evecs"])
            need(ev.ndim == 2 and ev.shape[1] == L * L, f"{what}: eigenvectors have shape {ev.shape}")
            need(len(ev) == L - abs(o), f"{what}: {len(ev)} eigenvectors instead of {L - abs(o)}")
            need(np.abs(ev[:, emm != o]).max(initial=0) <= tol, f"{what}: eigenvector outside its order")
            oracle.check_eigen(D[sub], res["evals"], ev[:, emm == o], tol=tol, what=what)
            need(np.array_equal(res["order"], o), f"{what}: order is {res['order']}")
            return
        oracle.check_eigen(D, res["evals"], res["evecs"], tol=tol, what=what, min_rows=n if L > 16 else L * L)
        orders = np.asarray(res["order"])
        need(orders.shape == (L * L,), f"{what}: orders have shape {orders.shape}")
        ev = np.asarray(res["evecs"])
        outside = np.abs(ev) * (emm[None, :] != orders[: len(ev), None])
        need(outside.max(initial=0) <= tol, f"{what}: orders do not belong to the eigenvectors")
        cnt = {o: int((orders == o).sum()) for o in range(-(L - 1), L)}
        need(all(cnt[o] == L - abs(o) for o in cnt), f"{what}: wrong multiset of orders")
        for o in cnt:  # every eigenvalue belongs to the order it is listed under
            sub = np.ix_(emm == o, emm == o)
            ref = np.linalg.eigvalsh(D[sub])[::-1]
            d = np.abs(np.sort(np.asarray(res["evals"])[orders == o])[::-1] - ref).max()
            need(d <= tol, f"{what}: eigenvalues of order {o} differ by {d:.3g}")
        return
    if k == "latlon":
        L, a = spec["L"], tuple(rad(x) for x in spec["a"])
        D = _latlon_d(L, a)
        area = (a[3] - a[2]) * (math.cos(a[0]) - math.cos(a[1]))
        n = oracle.shannon(area, L)
        need(res["N"] == n, f"{what}: Shannon number {res['N']} instead of {n}")
        oracle.check_eigen(D, res["evals"], res["evecs"], tol=tol, what=what, min_rows=n)
        return
    if k == "arb":
        L = spec["L"]
        m = arb_mask(spec["m"], 2 * L, variant)
        need(np.array_equal(np.asarray(res["mask"], bool), np.asarray(m, bool)), f"{what}: wrong mask")
        D = _mask_d(L, spec["m"], variant)
        n = oracle.shannon(oracle.area_mask(L, m), L)
        need(res["N"] == n, f"{what}: Shannon number {res['N']} instead of {n}")
        oracle.check_eigen(D, res["evals"], res["evecs"], tol=tol, what=what, min_rows=n)
        return
    if k == "mesh":
        check_mesh_basis(spec["m"], spec["b"], res["evals"], res["basis"], what)
        need(res["b"] == spec["b"], f"{what}: number of basis functions")
        return
    if k == "meshslep":
        b = spec["b"]
        check_mesh_basis(spec["m"], b, res["mevals"], res["basis"], what)
        _, _, r = _mesh_files(spec["m"])
        need(np.array_equal(np.asarray(res["region"], bool), r), f"{what}: wrong region")
        D = (res["basis"] * r) @ res["basis"].T
        n = round(r.sum() / r.shape[0] * b)
        need(res["N"] == n, f"{what}: Shannon number {res['N']} instead of {n}")
        oracle.check_eigen(D, res["evals"], res["evecs"], tol=tol, what=what, min_rows=n)
        return
    if k == "map":
        ref = map_reference(spec, variant)
        if ref is not None:
            c = np.asarray(res["coefficients"])
            need(c.shape == ref.shape, f"{what}: {c.shape} coefficients")
            d = np.abs(c - ref).max()
            need(d <= 1e-8 * max(1, np.abs(ref).max()), f"{what}: coefficients differ by {d:.3g}")
        return
    raise ValueError(k)


def map_reference(spec, variant=0):
    import pyssht as ssht

    L = spec["L"]
    c = spec["c"]
    if spec.get("kw"):
        return None
    if c == "Earth":
        return earth_flm(L, variant)
    if c in ("Africa", "SouthAmerica"):
        name = "africa" if c == "Africa" else "south_america"
        e = (44, 87, 341) if c == "Africa" else (54, 108, 63)
        f = ssht.inverse(ssht.rotate_flms(earth_flm(L, variant), *[x * math.pi / 180 for x in e], L), L,
                         Method="MWSS", Reality=True)
        return ssht.forward(np.where(earth_mask(name, L, variant), f, 0), L, Method="MWSS", Reality=True)
    return None


def judge_or(klass, spec, res, variant=0, note=""):
    try:
        judge(spec, res, variant)
    except oracle.Mismatch as e:
        raise Violation(klass, f"{e}{' ' + note if note else ''}") from None


def agree(a, b, tol=1e-10):
    """Equal up to rounding (transforms choose their code by the alignment of arrays)."""
    if isinstance(a, np.ndarray) or isinstance(b, np.ndarray):
        a, b = np.asarray(a), np.asarray(b)
        return a.shape == b.shape and bool(np.allclose(a, b, rtol=0, atol=tol * max(1.0, np.abs(b).max(initial=0))))
    if isinstance(a, float) and isinstance(b, float):
        return abs(a - b) <= 1e-9 * max(1.0, abs(b))
    return a == b


def exc_text(e):
    return f"{type(e).__name__}: {str(e)[:160]}"


# --------------------------------------------------------------------------------------
# random object pools
# --------------------------------------------------------------------------------------
def gen_spec(rng, kinds=("cap", "gap", "order", "latlon", "arb", "mesh", "meshslep"), Lmax=5, wide=False):
    k = rng.choice(kinds)
    if k in ("cap", "gap", "order"):
        L = rng.randint(2, Lmax)
        s = {"k": "cap", "L": L, "t": rng.choice([20.0, 40.0, 55.5, 70.25, 90.0, 120.0])}
        if wide and rng.random() < 0.4:
            s["t"] = round(rng.uniform(5, 175), rng.choice([0, 1, 2]))
        if k == "gap":
            s["gap"] = True
            s["t"] = rng.choice([20.0, 40.0, 55.5, 70.25])
            if wide and rng.random() < 0.4:
                s["t"] = round(rng.uniform(5, 85), rng.choice([0, 1, 2]))
        if k == "order":
            s["order"] = rng.randint(-(L - 1), L - 1)
            if rng.random() < 0.3:
                s["gap"] = True
                s["t"] = 40.0
        return s
    if k == "latlon":
        L = rng.randint(2, min(Lmax, 4))
        a = rng.choice([[20, 60, 30, 200], [0, 90, 0, 180], [45, 135, 10, 350], [10.5, 70.25, 0, 360], [30, 180, 90, 270]])
        if wide and rng.random() < 0.5:
            nd = rng.choice([0, 1])
            t = sorted(round(rng.uniform(0, 180), nd) for _ in range(2))
            ph = sorted(round(rng.uniform(0, 360), nd) for _ in range(2))
            if t[1] - t[0] >= 5 and ph[1] - ph[0] >= 5:
                a = [t[0], t[1], ph[0], ph[1]]
        return {"k": "latlon", "L": L, "a": a}
    if k == "arb":
        return {"k": "arb", "L": rng.randint(2, 3), "m": f"blob{rng.randint(0, 3)}"}
    if k in ("mesh", "meshslep"):
        return {"k": k, "m": rng.choice(MESHES), "b": rng.choice([6, 8, 10])}
    raise ValueError(k)


def data_files(world):
    if not os.path.isdir(world.data):
        return []
    return sorted(f for f in os.listdir(world.data) if os.path.isfile(os.path.join(world.data, f)))


def looked_for(world, bad):
    return [b for b in bad if world.fs.rel(os.path.join(world.data, b.split(" (")[0])) in world.fs.asked]


def unreadable(world, allowed=(), everything=False):
    """Files in the data directory that are not a readable array, under names that have been looked for.

    With `everything`, filter later, when the names have had a chance to be looked for, with `looked_for`.
    """
    import io

    bad = []
    for name, data in world.listing().items():
        if name in allowed or not name.endswith(".npy"):
            continue
        if not everything and not looked_for(world, [name]):
            continue
        try:
            np.load(io.BytesIO(data))
        except Exception as e:  # noqa: BLE001
            bad.append(f"{name} ({len(data)} bytes: {type(e).__name__})")
    return bad


# --------------------------------------------------------------------------------------
# helpers shared by several checks
# --------------------------------------------------------------------------------------
def small(spec):
    """Keep the masked-region solver cheap."""
    if spec["k"] == "arb":
        spec["L"] = 2
    return spec


def gen_any(rng, kinds=("cap", "gap", "order", "latlon", "arb", "mesh", "meshslep"), Lmax=4, earth=0.0, maps=0.0):
    """A spec; sometimes one that needs published data."""
    x = rng.random()
    if x < maps:
        return {"k": "map", "c": rng.choice(["Earth", "Africa", "SouthAmerica", "Wmap", "NoiseEarth"]), "L": rng.choice([3, 4, 5])}
    if x < maps + earth:
        return {"k": "arb", "L": rng.choice([2, 3]) if rng.random() < 0.9 else 4, "m": rng.choice(EARTH_MASKS)}
    return small(gen_spec(rng, kinds=kinds, Lmax=Lmax))


def key(spec):
    import json

    return json.dumps(spec, sort_keys=True)


def stored_files(world, spec, env=None, publish=True, variant=0):
    """The files (name -> bytes) a fault-free run of `spec` leaves in an empty data directory elsewhere."""

    def setup(w):
        put_masks(w, [spec])
        if publish:
            fixtures.publish_standard(w, variant)

    outs, w = world.aside(setup, lambda: build(spec), env=env)
    if not outs[0].ok:
        raise Violation("fault-free", f"{describe(spec)} fails without any fault: {exc_text(outs[0].exc)}")
    given = {mask_file(spec["m"], spec["L"])} if has_own_mask(spec) else set()
    return {n: d for n, d in w.final_listing.items() if n not in given}, outs[0].value
