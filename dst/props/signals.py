"""Signals on the sphere and on meshes, built through the public classes."""

import numpy as np

from . import common

MESH_CLASSES = ("MeshField", "MeshNoiseField", "MeshBasisFunctions", "MeshSlepianField", "MeshSlepianFunctions",
                "MeshSlepianNoiseField", "MeshSlepianWavelets", "MeshSlepianWaveletCoefficients")
FLM = ("Identity", "DiracDelta", "Gaussian", "HarmonicGaussian", "SphericalHarmonic", "ElongatedGaussian",
       "SquashedGaussian", "Ridgelets", "AxisymmetricWavelets")
FLM_EARTH = ("Earth", "Africa", "SouthAmerica", "NoiseEarth", "Wmap", "AxisymmetricWaveletCoefficientsEarth",
             "AxisymmetricWaveletCoefficientsAfrica", "AxisymmetricWaveletCoefficientsSouthAmerica")
FP = ("Slepian", "SlepianIdentity", "SlepianDiracDelta", "SlepianWavelets")
FP_EARTH = ("SlepianAfrica", "SlepianSouthAmerica", "SlepianNoiseAfrica", "SlepianNoiseSouthAmerica",
            "SlepianWaveletCoefficientsAfrica", "SlepianWaveletCoefficientsSouthAmerica")
ALL = FLM + FLM_EARTH + FP + FP_EARTH + MESH_CLASSES
REGIONS = ({"theta_max": 40.0}, {"theta_max": 90.0}, {"theta_max": 55.0, "gap": True},
           {"theta_min": 20.0, "theta_max": 60.0, "phi_min": 30.0, "phi_max": 200.0},
           {"theta_max": 90.0, "phi_max": 180.0})


def make(spec):
    """Build the signal (inside a simulated process)."""
    import sleplet

    g, kw = spec["g"], dict(spec.get("kw", {}))
    if g == "mesh":
        m = sleplet.meshes.Mesh(spec["m"], number_basis_functions=spec["b"])
        return getattr(sleplet.meshes, spec["c"])(m, **kw)
    if spec.get("region"):
        kw["region"] = region(spec["region"])
    return getattr(sleplet.functions, spec["c"])(spec["L"], **kw)


def region(r):
    import sleplet

    return sleplet.slepian.Region(**{k: (v if k in ("gap", "mask_name") else common.rad(v)) for k, v in r.items()})


def extract(obj):
    out = {"coefficients": np.array(obj.coefficients), "name": obj.name, "snr": obj.snr,
           "wavelets": np.array(obj.wavelets), "wavelet_coefficients": np.array(obj.wavelet_coefficients)}
    u = getattr(obj, "_unnoised_coefficients", None)
    if u is not None:
        out["unnoised"] = np.array(u)
    return out


def build(spec):
    return extract(make(spec))


def describe(spec):
    kw = ",".join(f"{k}={v}" for k, v in spec.get("kw", {}).items())
    r = ",".join(f"{k}={v}" for k, v in (spec.get("region") or {}).items())
    where = f"{spec['m']} b={spec['b']}" if spec["g"] == "mesh" else f"L={spec['L']}"
    return f"{spec['c']}({where}{' ' + kw if kw else ''}{' region ' + r if r else ''})"


def uses_archive(spec):
    return spec["c"] in FLM_EARTH or spec["c"] in FP_EARTH


def gen(rng, earth=0.4, noise=0.75, mesh=0.25):
    """A random signal; `noise` is the share that carries noise."""
    noisy = rng.random() < noise
    snr = rng.choice([-10, -5, 0, 2.5, 10])
    x = rng.random()
    if x < mesh:
        c = rng.choice(MESH_CLASSES)
        s = {"g": "mesh", "c": c, "m": rng.choice(common.MESHES), "b": rng.choice([6, 8, 10])}
        kw = {}
        if c in ("MeshNoiseField", "MeshSlepianNoiseField"):
            if rng.random() < 0.6:
                kw["SNR"] = snr
        elif noisy:
            kw["noise"] = snr
        if c in ("MeshBasisFunctions", "MeshSlepianFunctions"):
            r = common._mesh_files(s["m"])[2]
            n = round(r.sum() / len(r) * s["b"]) if c == "MeshSlepianFunctions" else s["b"]
            kw["rank"] = rng.randrange(min(3, max(1, n)))  # what is beyond the Shannon number is not stored
        s["kw"] = kw
        return s
    kw = {}
    if rng.random() < 0.5:
        c = rng.choice(FLM_EARTH if rng.random() < earth else FLM)
        s = {"g": "flm", "c": c, "L": rng.randint(4, 7)}
        if c == "SphericalHarmonic":
            kw["ell"] = rng.randrange(s["L"])
            kw["m"] = rng.randint(-kw["ell"], kw["ell"])
        elif c == "Gaussian":
            kw["sigma"] = rng.choice([1.0, 3.5, 10])
        elif c in ("AxisymmetricWavelets", "Ridgelets") or c.startswith("Axisym"):
            kw["B"], kw["j_min"] = rng.choice([(2, 0), (2, 1), (3, 0), (3, 1)])
            if c == "Ridgelets":
                kw["spin"] = rng.choice([0, 2])
        if c == "NoiseEarth":
            if rng.random() < 0.6:
                kw["SNR"] = snr
        elif noisy:
            kw["noise"] = snr
        if c in FLM_EARTH and c != "Wmap" and rng.random() < 0.2:
            kw["smoothing"] = 2
        s["kw"] = kw
        return s
    c = rng.choice(FP_EARTH if rng.random() < earth else FP)
    if c in FP_EARTH:
        s = {"g": "fp", "c": c, "L": 3, "region": {"mask_name": "africa" if "Africa" in c else "south_america"}}
        if "WaveletCoefficients" in c:
            kw["B"], kw["j_min"] = 2, rng.choice([0, 1])
    else:
        r = dict(rng.choice(REGIONS))
        s = {"g": "fp", "c": c, "L": rng.randint(3, 4), "region": r}
        if c == "SlepianWavelets":
            kw["B"], kw["j_min"] = rng.choice([(2, 0), (2, 1), (3, 0), (3, 1)])
    if c.startswith("SlepianNoise"):
        if rng.random() < 0.6:
            kw["SNR"] = snr
    elif noisy:
        kw["noise"] = snr
    s["kw"] = kw
    return s


def twin(rng, spec):
    """The same signal but for one thing."""
    s = {k: dict(v) if isinstance(v, dict) else v for k, v in spec.items()}
    kw = s["kw"]
    ways = [k for k in ("noise", "SNR", "smoothing", "B", "sigma", "rank") if k in kw]
    if s["g"] == "flm":
        ways += ["L", "L"]
    elif s["g"] == "mesh":
        ways += ["b", "m"]
    elif s.get("region") and "mask_name" not in s["region"]:
        ways += ["L", "region"]
    if not ways:
        return s
    w = rng.choice(ways)
    if w in ("noise", "SNR"):
        kw[w] = rng.choice([v for v in (-10, -5, 0, 2.5, 10) if v != kw[w]])
    elif w == "smoothing":
        kw[w] = 5 - kw[w]
    elif w == "B":
        kw["B"] = 5 - kw["B"]
    elif w == "sigma":
        kw[w] += 1.0
    elif w == "rank":
        kw[w] = 0
    elif w == "L":
        s["L"] = s["L"] + 1 if s["g"] == "flm" else 7 - s["L"]
    elif w == "b":
        s["b"] = rng.choice([6, 8, 10])
        if "rank" in kw:
            kw["rank"] = 0
    elif w == "m":
        s["m"] = rng.choice(common.MESHES)
        if "rank" in kw:
            kw["rank"] = 0
    elif w == "region":
        s["region"] = dict(rng.choice(REGIONS))
    return s


# no spherical or mesh transform is involved: not one bit may differ.  Everything else may
# differ by rounding, because FFTs choose their code by the alignment of the arrays.
EXACT = {"Identity", "DiracDelta", "Gaussian", "HarmonicGaussian", "SphericalHarmonic", "AxisymmetricWavelets", "Wmap", "Earth",
         "NoiseEarth"}


def exact(spec):
    return spec["c"] in EXACT and "smoothing" not in spec.get("kw", {})


def same_name(x, y):
    """File names carry eigenvalues with seven digits."""
    import re

    if x == y:
        return True
    pat = r"lam(-?\d(?:[-.]\d+)?)e(-?\d+)"
    if re.sub(pat, "lam", x) != re.sub(pat, "lam", y):
        return False
    f, g = ([float(m.replace("-", ".", 1) if not m.startswith("-") else "-" + m[1:].replace("-", ".", 1)) * 10.0 ** int(e)
             for m, e in re.findall(pat, z)] for z in (x, y))
    return len(f) == len(g) and all(abs(p - q) <= 1e-9 + 2e-6 * max(abs(p), abs(q)) for p, q in zip(f, g))


def same(a, b, exact=False, tol=1e-11):
    """None, or which part of two extracted results differs."""
    for k in sorted(set(a) | set(b)):
        x, y = a.get(k), b.get(k)
        if isinstance(x, np.ndarray) and isinstance(y, np.ndarray):
            if x.shape != y.shape or x.dtype != y.dtype:
                return f"{k}: {x.dtype}{x.shape} and {y.dtype}{y.shape}"
            if x.tobytes() != y.tobytes():
                d = np.abs(x - y).max() if x.size else 0
                if exact or not d <= tol * max(1.0, np.abs(x).max()):
                    return f"{k} differ by up to {d:.3g}"
        elif isinstance(x, str) and isinstance(y, str):
            if not same_name(x, y):
                return f"{k}: {x!r} and {y!r}"
        elif isinstance(x, float) and isinstance(y, float):
            if x != y and not (x != x and y != y) and (exact or not abs(x - y) <= 1e-9 * max(1.0, abs(x))):
                return f"{k}: {x!r} and {y!r}"
        elif x is not y and x != y:
            return f"{k}: {x!r} and {y!r}"
    return None


def alone(world, spec, env=None, setup=None):
    """The same request as the only one ever made, on another machine."""
    from .. import fixtures
    from ..runner import Violation

    def prep(w):
        fixtures.publish_standard(w)
        w.sim.now = 86400.0 * 37
        if setup:
            setup(w)

    outs, _ = world.aside(prep, lambda: build(spec), env=env)
    if not outs[0].ok:
        raise Violation("fault-free", f"{describe(spec)} fails alone: {common.exc_text(outs[0].exc)}")
    return outs[0].value
