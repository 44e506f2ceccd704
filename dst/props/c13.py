"""Library calls never modify their inputs or other live objects."""

import copy
import threading

import numpy as np

from .. import fixtures
from .. import world as world_mod
from ..runner import Violation
from . import common, figs, signals

ID = "C13"
RUNS = {"quick": 1100, "thorough": 24000}
RULE = ("one simulated run: a process holds 10 to 20 arrays and objects (fields, coefficients, wavelets, bases, signals, meshes) and makes "
        "4 to 16 public calls on them and on earlier results, some struck by a failing allocation; everything it holds is compared "
        "before and after every call; a second process makes the same calls from 2 to 4 threads on shared data under seeded "
        "line-level preemption and gets the same results; non-trivial when threads interleaved inside calls")
ASSUMPTIONS = ["attributes with a leading underscore and attributes that appear later are the library's own caches, except the "
               "coefficients without noise", "results of two executions may differ by rounding (1e-9 relative)"]
# a map that is asked to convolve or translate notes that it is no longer real-valued; transforms of the map then change
TAKES_NOTE = ("translate", "convolve", "cli")
READS_NOTE = ("max_amplitude", "noisy_amplitude", "plot_fn", "cli")
N_TRACKS = (2, 2, 3, 4)

# name: (kinds of the inputs, kind of the result)
SPHERE = {
    "invert": (("flm",), None), "rotate_africa": (("flm",), "flm"), "rotate_america": (("flm",), "flm"),
    "s_inverse": (("fp",), "field"), "s_forward_flm": (("flm",), "fp"), "s_forward_f": (("field",), "fp"),
    "s_forward_mask": (("field",), "fp"), "s_p": ((), None), "choose": ((), None),
    "w_forward": (("fp",), "wc"), "w_inverse": (("wc",), None), "aw_forward": (("flm",), "awc"), "aw_inverse": (("awc",), "flm"),
    "non_zero": (("wc",), None), "snr": (("flm", "flm"), None), "sigma": (("flm",), None),
    "hard_h": (("awc",), "awc"), "hard_w": (("wc",), "wc"), "hard_f": (("fp",), "fp"),
    "sigma_j": (("flm",), None), "s_sigma_j": (("fp",), None),
    "max_amplitude": (("fn",), None), "noisy_amplitude": (("fn",), None), "plot": (("field",), None), "plot_fn": (("fn",), None),
    "translate": (("fn",), "flm"), "convolve": (("fn", "flm"), None), "rotate": (("hfn",), "flm"), "new_signal": ((), None),
    "random": ((), "flm"), "kappas": ((), None), "cli": (("fn",), None), "plot_again": (("plot",), None),
    "smooth": (("flm",), "flm"), "sift": (("flm", "flm"), "flm"), "sift_w": (("awc", "flm"), "awc"), "masked": (("flm",), "flm"),
    "area": (("field", "field"), None), "normalised": (("field",), None), "outside": (("field",), None),
}
MESH = {
    "m_forward": (("u",), "ui"), "m_inverse": (("ui",), "u"), "ms_inverse": (("fp",), "u"), "ms_forward_u": (("u",), "fp"),
    "ms_forward_ui": (("ui",), "fp"), "ms_forward_mask": (("u",), "fp"), "w_forward": (("fp",), "wc"), "w_inverse": (("wc",), None),
    "hard_m": (("wc",), "wc"), "sigma_m": (("fp",), None), "plot_m": (("u",), None), "plot_mfn": (("mfn",), None),
    "noisy_m": (("mfn",), None), "new_mesh_signal": ((), None), "new_slepian": ((), None), "new_mesh": ((), None),
    "snr": (("ui", "ui"), None), "cli_m": (("mfn",), None), "plot_again": (("plot",), None),
    "sift": (("ui", "ui"), "ui"), "sift_w": (("wc", "fp"), "wc"), "masked_m": (("ui",), "ui"), "area_m": (("u", "u"), None), "faces": (("u",), None),
}
HEAP = {"sphere": {"flm": ["flm0", "flm1", "flm_real"], "field": ["field0", "field_real", "field_const"], "fp": ["fp0", "fp_long", "fp_sparse"],
                   "wc": ["wc0"], "awc": ["awc0"], "fn": ["fn0", "fn1", "sfn0"], "hfn": ["fn0", "fn1"], "plot": ["plot0", "plot1"]},
        "mesh": {"u": ["u0", "u1", "u_const"], "ui": ["ui0", "ui1"], "fp": ["fp0", "fp_long"], "wc": ["wc0"], "mfn": ["mfn0", "mfn1"],
                 "plot": ["plot0", "plot1"]}}


def gen(rng, tier):
    theme = rng.choice(["sphere", "sphere", "mesh"])
    table = SPHERE if theme == "sphere" else MESH
    tracks = []
    for _ in range(rng.choice(N_TRACKS)):
        track, have = [], {k: list(v) for k, v in HEAP[theme].items()}
        for i in range(rng.randint(2, 4)):
            name = rng.choice(sorted(table))
            ins, out = table[name]
            track.append({"op": name, "in": [rng.choice(have[k]) for k in ins], "p": rng.randrange(1 << 20),
                          "struck": rng.random() < 0.12})
            if out and not (name == "translate" and track[-1]["in"] == ["sfn0"]):  # those are Slepian coefficients
                have[out].append(f"r{i}")
        tracks.append(track)
    plan = {"theme": theme, "tracks": tracks, "seed": rng.randrange(1 << 30), "ncpu": rng.choice([1, 2, 4]),
            "sched": {"p": rng.choice([0.003, 0.02, 0.1]), "next": rng.choice([0.0, 0.3, 1.0]), "hot": rng.choice([0, 0, 8, 20, 50]), "stall": rng.choice([0.0, 0.3, 0.9])},
            "fault": {"kinds": [], "budget": 0}, "B": rng.choice([2, 3]), "j_min": rng.choice([0, 1])}
    if theme == "sphere":
        plan["L"] = rng.randint(3, 5)
        plan["region"] = dict(rng.choice(signals.REGIONS + ({"mask_name": "blob1"},)))
        while True:
            fns = [signals.gen(rng, earth=0.15, mesh=0) for _ in range(6)]
            h = [s for s in fns if s["g"] == "flm"]
            if len(h) >= 2:
                break
        for s in h[:2]:
            if s["c"] != "SphericalHarmonic":
                s["L"] = plan["L"]
        plan["fns"] = h[:2]
        plan["sfn"] = rng.choice(["Slepian", "SlepianIdentity", "SlepianDiracDelta", "SlepianWavelets"])
    else:
        plan["m"], plan["b"] = rng.choice(common.MESHES), rng.choice([6, 8, 10])
        plan["fns"] = [s for s in (signals.gen(rng, earth=0, mesh=1.0) for _ in range(2))]
    return plan


def heap(plan):
    import pyssht as ssht
    import sleplet
    import sleplet.wavelet_methods as wm

    g = np.random.default_rng(plan["seed"])
    h = {}

    def cplx(*shape):
        return g.standard_normal(shape) + 1j * g.standard_normal(shape)

    if plan["theme"] == "sphere":
        L = plan["L"]
        h["region"] = signals.region(plan["region"])
        s = h["slepian"] = sleplet.slepian_methods.choose_slepian_method(L, h["region"])
        shape = ssht.sample_shape(L, Method="MWSS")
        h["flm0"], h["flm1"] = cplx(L * L), cplx(L * L)
        h["field_real"] = g.standard_normal(shape)
        h["flm_real"] = ssht.forward(h["field_real"], L, Method="MWSS", Reality=True)
        h["field_real"] = ssht.inverse(h["flm_real"], L, Method="MWSS", Reality=True)
        h["field0"] = ssht.inverse(h["flm0"], L, Method="MWSS")
        h["field_const"] = np.full(shape, 2.0 + 0j)
        h["fp0"], h["fp_long"] = cplx(s.N), cplx(L * L)
        h["fp_sparse"] = np.where(np.arange(L * L) % 3 == 1, cplx(L * L), 0)
        h["wav"] = wm.create_kappas(L * L, plan["B"], plan["j_min"])
        h["wc0"] = wm.slepian_wavelet_forward(h["fp0"], h["wav"], s.N)
        h["aw"] = np.array(sleplet.functions.AxisymmetricWavelets(L, B=plan["B"], j_min=plan["j_min"]).wavelets)
        h["awc0"] = wm.axisymmetric_wavelet_forward(L, h["flm0"], h["aw"])
        for i, f in enumerate(plan["fns"]):
            h[f"fn{i}"] = signals.make(f)
        h["sfn0"] = getattr(sleplet.functions, plan["sfn"])(L, region=h["region"], noise=3.0)
        h["notes"] = [{"x": 0.1, "y": 0.2, "z": 0.9, "text": "here"}, {"x": 0.3, "y": 0.2, "z": 0.8}]
        h["plot0"] = sleplet.plotting.PlotSphere(h["field0"], L, "held", normalise=False, plot_type="abs", annotations=h["notes"],
                                                 upsample=bool(plan["seed"] & 1), region=h["region"] if plan["seed"] & 2 and
                                                 "mask_name" not in plan["region"] else None)
        h["plot1"] = sleplet.plotting.PlotSphere(h["field_real"], L, "real", normalise=False, reality=True, amplitude=2.0,
                                                 annotations=h["notes"], upsample=bool(plan["seed"] & 4))
    else:
        m = h["mesh"] = sleplet.meshes.Mesh(plan["m"], number_basis_functions=plan["b"])
        ms = h["ms"] = sleplet.meshes.MeshSlepian(m)
        n = len(m.vertices)
        h["u0"], h["u1"], h["u_const"] = g.standard_normal(n), g.standard_normal(n), np.full(n, 3.0)
        h["ui0"], h["ui1"] = g.standard_normal(plan["b"]), g.standard_normal(plan["b"])
        h["fp0"], h["fp_long"] = g.standard_normal(ms.N), g.standard_normal(plan["b"])
        h["wav"] = wm.create_kappas(plan["b"], 2, 0)
        h["wc0"] = wm.slepian_wavelet_forward(h["fp0"], h["wav"], ms.N)
        for i, f in enumerate(plan["fns"]):
            h[f"mfn{i}"] = signals.make(dict(f, m=plan["m"], b=plan["b"], kw=dict(f["kw"], **({"rank": 0} if "rank" in f["kw"] else {}))))
        h["plot0"] = sleplet.plotting.PlotMesh(m, "held", h["u0"], normalise=False, region=bool(plan["seed"] & 1))
        h["plot1"] = sleplet.plotting.PlotMesh(m, "constant", h["u_const"], normalise=False, amplitude=2.0, region=True)
    return h


def call(plan, h, o, x):
    """One public call on heap `h` with inputs `x`; the result."""
    import sleplet
    import sleplet.harmonic_methods as hm
    import sleplet.noise as nz
    import sleplet.plot_methods as pm
    import sleplet.slepian_methods as sm
    import sleplet.wavelet_methods as wm

    n, p, L = o["op"], o["p"], plan.get("L")
    s, m, ms = h.get("slepian"), h.get("mesh"), h.get("ms")
    flag = [bool(p >> i & 1) for i in range(12)]
    kind = ("real", "imag", "abs", "sum")[p >> 12 & 3]
    ang = (0.3 + (p & 15) / 8, 0.2 + (p >> 4 & 15) / 8)
    if n == "invert":
        return hm.invert_flm_boosted(x[0], L, L + (p & 3), spin=p >> 3 & 1)
    if n == "rotate_africa":
        return hm.rotate_earth_to_africa(x[0], L)
    if n == "rotate_america":
        return hm.rotate_earth_to_south_america(x[0], L)
    if n == "random":
        return hm.compute_random_signal(L, np.random.default_rng(p), var_signal=2.0)
    if n == "s_inverse":
        return sm.slepian_inverse(x[0], L, s)
    if n == "s_forward_flm":
        return sm.slepian_forward(L, s, flm=x[0], n_coeffs=max(1, s.N - 1) if flag[0] else None)
    if n == "s_forward_f":
        return sm.slepian_forward(L, s, f=x[0])
    if n == "s_forward_mask":
        mask = s.mask if s.mask.shape == x[0].shape else np.ones(x[0].shape)
        return sm.slepian_forward(L, s, f=x[0], mask=mask)
    if n == "s_p":
        return sm.compute_s_p_omega(L, s)
    if n == "choose":
        return np.array(sm.choose_slepian_method(L, h["region"]).eigenvalues)
    if n == "w_forward":
        return wm.slepian_wavelet_forward(x[0], h["wav"], (s or ms).N)
    if n == "w_inverse":
        return wm.slepian_wavelet_inverse(x[0], h["wav"], (s or ms).N)
    if n == "aw_forward":
        return wm.axisymmetric_wavelet_forward(L, x[0], h["aw"])
    if n == "aw_inverse":
        return wm.axisymmetric_wavelet_inverse(L, x[0], h["aw"])
    if n == "non_zero":
        return wm.find_non_zero_wavelet_coefficients(x[0], axis=1)
    if n == "kappas":
        return wm.create_kappas(L * L, plan["B"], plan["j_min"])
    if n == "snr":
        return nz.compute_snr(x[0], x[1], "Test")
    if n == "sigma":
        return nz.compute_sigma_noise(x[0], 5.0, denominator=7 if flag[0] else None)
    if n == "hard_h":
        return nz.harmonic_hard_thresholding(L, x[0], np.full(len(x[0]), 0.2), 1 + (p & 3))
    if n == "hard_w":
        return nz.slepian_wavelet_hard_thresholding(L, x[0], np.full(len(x[0]), 0.2), 1 + (p & 3), s)
    if n == "hard_f":
        return nz.slepian_function_hard_thresholding(L, x[0], 0.3, 1 + (p & 3), s)
    if n == "sigma_j":
        return nz._compute_sigma_j(x[0], h["aw"], 4.0)
    if n == "s_sigma_j":
        return nz._compute_slepian_sigma_j(L, x[0], h["wav"], 4.0, s)
    if n == "max_amplitude":
        return pm.find_max_amplitude(x[0], plot_type=kind, upsample=flag[0])
    if n == "noisy_amplitude":
        return pm.compute_amplitude_for_noisy_sphere_plots(x[0])
    if n in ("plot", "plot_fn"):
        f, LL, kw = x[0], L, {}
        if n == "plot_fn":
            f, LL = pm._coefficients_to_field_sphere(x[0], x[0].coefficients), x[0].L
            kw = {"reality": x[0].reality, "spin": x[0].spin}
        elif o["in"] == ["field_real"]:
            kw = {"reality": flag[6]}
        return figures(lambda norm, kind: sleplet.plotting.PlotSphere(
            f, LL, "x", normalise=norm, upsample=flag[1] and flag[2], plot_type=kind, region=h["region"] if flag[3] and
            "mask_name" not in plan["region"] else None, amplitude=1.5 if flag[4] else None,
            annotations=h["notes"] if flag[5] else [], **kw).execute(), flag[0], kind)
    if n == "smooth":
        return sleplet._smoothing.apply_gaussian_smoothing(x[0], L, 1 + (p & 7))
    if n in ("sift", "sift_w"):
        f, g = x
        n_c = min(f.shape[-1], g.shape[-1])
        return sleplet._convolution_methods.sifting_convolution(f[..., :n_c], g[:n_c], shannon=max(1, n_c - 1) if flag[0] and n == "sift" else None)
    if n == "masked":
        return sleplet._mask_methods.ensure_masked_flm_bandlimited(x[0], L, h["region"], reality=False, spin=0)
    if n == "masked_m":
        return sleplet._mask_methods.ensure_masked_bandlimit_mesh_signal(m, x[0])
    if n == "area":
        w = sleplet._integration_methods.calc_integration_weight(L)
        if flag[0] and s.mask.shape == w.shape:
            return sleplet._integration_methods.integrate_region_sphere(s.mask, w, *x)
        return sleplet._integration_methods.integrate_whole_sphere(w, *x)
    if n == "area_m":
        if flag[0]:
            return sleplet._integration_methods.integrate_region_mesh(m.mesh_region, m.vertices, m.faces, *x)
        return sleplet._integration_methods.integrate_whole_mesh(m.vertices, m.faces, *x)
    if n == "faces":
        return sleplet._mesh_methods.average_functions_on_vertices_to_faces(m.faces, x[0])
    if n == "normalised":
        return pm._normalise_function(np.real(x[0]) if flag[0] else np.abs(x[0]), normalise=flag[1]) if o["in"] != ["field_const"] else None
    if n == "outside":
        return pm._set_outside_region_to_minimum(np.insert(np.real(x[0]), x[0].shape[1], np.real(x[0])[:, 0], axis=1), L, h["region"])
    if n == "plot_again":
        return figs.shown(x[0].execute)
    if n == "cli":
        import sleplet._scripts.plotting_on_sphere as cli

        f = x[0]
        method = "north" if hasattr(f, "slepian") or not flag[0] else "rotate"
        g = h["fn1"] if flag[1] and h["fn1"].L == f.L else None
        return figures(lambda norm, kind: cli.plot(
            f, g, alpha_pi_frac=0.5, beta_pi_frac=0.25, gamma_pi_frac=0.1, annotations=flag[2], normalise=norm,
            method="translate" if flag[4] else method, plot_type=kind, upsample=flag[5] and flag[6], earth_view="africa", amplitude=None), flag[3], kind)
    if n == "translate":
        f = x[0]
        if hasattr(f, "slepian"):
            a, b = pm._calc_nearest_grid_point(f.L, 0.4, 0.3)
            return f.translate(a, b, shannon=f.slepian.N)
        return f.translate(*ang)
    if n == "convolve":
        f = x[0]
        return f.convolve(f.coefficients, x[1][: len(f.coefficients)] if len(x[1]) >= len(f.coefficients) else f.coefficients,
                          shannon=f.slepian.N if hasattr(f, "slepian") else None)
    if n == "rotate":
        return x[0].rotate(*ang, gamma=0.5)
    if n == "new_signal":
        f = (sleplet.functions.HarmonicGaussian, sleplet.functions.Gaussian, sleplet.functions.SlepianIdentity)[p % 3]
        return signals.extract(f(L, region=h["region"], noise=1.0 if flag[5] else None))
    if n == "m_forward":
        return hm.mesh_forward(m, x[0])
    if n == "m_inverse":
        return hm.mesh_inverse(m, x[0])
    if n == "ms_inverse":
        return sm.slepian_mesh_inverse(ms, x[0])
    if n == "ms_forward_u":
        return sm.slepian_mesh_forward(ms, u=x[0])
    if n == "ms_forward_ui":
        return sm.slepian_mesh_forward(ms, u_i=x[0])
    if n == "ms_forward_mask":
        return sm.slepian_mesh_forward(ms, u=x[0], mask=True)
    if n == "hard_m":
        return nz.slepian_mesh_hard_thresholding(ms, x[0], np.full(len(x[0]), 0.1), 1 + (p & 3))
    if n == "sigma_m":
        return nz.compute_slepian_mesh_sigma_j(ms, x[0], h["wav"], 4.0)
    if n in ("plot_m", "plot_mfn"):
        f = x[0] if n == "plot_m" else pm._coefficients_to_field_mesh(x[0], x[0].coefficients)
        return figures(lambda norm, _: sleplet.plotting.PlotMesh(
            m, "x", f, normalise=norm, region=flag[1], amplitude=1.5 if flag[2] else None).execute(), flag[0], "abs")
    if n == "cli_m":
        import sleplet._scripts.plotting_on_mesh as cli

        return figures(lambda norm, _: cli.plot(x[0], normalise=norm, amplitude=None), flag[0], "abs")
    if n == "noisy_m":
        return pm.compute_amplitude_for_noisy_mesh_plots(x[0])
    if n == "new_mesh_signal":
        c = signals.MESH_CLASSES[p % len(signals.MESH_CLASSES)]
        return signals.extract(getattr(sleplet.meshes, c)(m, region=flag[8], **({} if "Noise" in c or not flag[9] else {"noise": 2.0})))
    if n == "new_slepian":
        return np.array(sleplet.meshes.MeshSlepian(m).slepian_functions[: ms.N])
    if n == "new_mesh":
        return np.array(sleplet.meshes.Mesh(plan["m"], number_basis_functions=plan["b"]).basis_functions)
    raise ValueError(n)


def figures(fn, normalise, kind):
    """What a plot call showed; colours that are nothing but magnified rounding errors are left out."""
    got = figs.shown(lambda: fn(normalise, kind))
    if normalise:
        raw = figs.shown(lambda: fn(False, kind))
        full = figs.shown(lambda: fn(False, "abs")) if kind != "abs" else raw
        got = figs.blur(got, figs.gain(raw, full))
    return got


def flat(x, path="", out=None, seen=None):
    """The arrays and plain values that can be reached from x."""
    out = {} if out is None else out
    seen = set() if seen is None else seen
    if isinstance(x, np.ndarray):
        out[path] = x
    elif isinstance(x, (bool, int, float, complex, str, bytes, type(None), np.generic)):
        out[path] = x
    elif id(x) in seen:
        pass
    elif isinstance(x, dict):
        seen.add(id(x))
        out[f"{path}#"] = len(x)
        for k, v in x.items():
            flat(v, f"{path}.{k}", out, seen)
    elif isinstance(x, (list, tuple)):
        seen.add(id(x))
        out[f"{path}#"] = len(x)
        for i, v in enumerate(x):
            flat(v, f"{path}[{i}]", out, seen)
    elif type(x).__module__.startswith("sleplet"):
        seen.add(id(x))
        for k, v in vars(x).items():
            if not k.startswith("_") or k == "_unnoised_coefficients":
                flat(v, f"{path}.{k}", out, seen)
    return out


def snapshot(h):
    return {k: v.copy() if isinstance(v, np.ndarray) else v for k, v in flat(h).items()}


def changed(before, h, allowed):
    now = flat(h)
    for k, v in before.items():
        if k not in now:
            return f"{k} is gone"
        w = now[k]
        if isinstance(v, np.ndarray):
            if not isinstance(w, np.ndarray) or v.shape != w.shape or v.dtype != w.dtype:
                return f"{k} was replaced"
            if v.tobytes() != w.tobytes():
                return f"{k} changed ({int((v != w).sum())} of {v.size} values)"
        elif v is not w and v != w and not (v != v and w != w):
            if k in allowed and v is True and w is False:
                continue
            return f"{k} changed from {v!r} to {w!r}"
    return None


def differ(a, b):
    """None, or how two results differ."""
    a, b = flat(a), flat(b)
    if a.keys() != b.keys():
        return f"parts {sorted(a.keys() ^ b.keys())[:4]}"
    for k, v in a.items():
        w = b[k]
        if isinstance(v, (np.ndarray, float, complex, np.number)) and not isinstance(v, bool):
            v, w = np.asarray(v), np.asarray(w)
            if v.shape != w.shape:
                return f"{k}: shapes {v.shape} and {w.shape}"
            if v.dtype.kind in "fc" or w.dtype.kind in "fc":
                scale = max(1.0, float(np.abs(v[np.isfinite(v)]).max(initial=0)))
                if not np.allclose(v, w, rtol=1e-9, atol=1e-9 * scale, equal_nan=True):
                    return f"{k} differs by up to {np.nanmax(np.abs(v - w)):.3g}"
            elif not np.array_equal(v, w):
                return f"{k} differs"
        elif isinstance(v, str) and isinstance(w, str):
            if not signals.same_name(v, w):
                return f"{k}: {v!r} and {w!r}"
        elif v != w:
            return f"{k}: {v!r} and {w!r}"
    return None


def inputs(h, res, o):
    out = []
    for r in o["in"]:
        v = res[int(r[1:])] if r[0] == "r" and r[1:].isdigit() else h[r]
        if isinstance(v, Exception) or v is None:
            return None
        out.append(v)
    return out


def title(o):
    return f"{o['op']}({', '.join(o['in'])})"


def run(world, plan):
    fixtures.publish_standard(world)
    common.put_masks(world, [{"k": "arb", "m": "blob1", "L": plan.get("L", 3)}])
    world_mod.FIGURES = []
    one = {}

    def sequential():
        h = heap(plan)
        results = {}
        for t, track in enumerate(plan["tracks"]):
            results[t] = res = []
            for i, o in enumerate(track):
                x = inputs(h, res, o)
                if x is None:
                    res.append(None)
                    continue
                everything = {"heap": h, "result": results}
                before = snapshot(everything)
                allowed = {f"{k}.reality" for k in [f".heap.{n}" for n in o["in"]]} if o["op"] in TAKES_NOTE else set()
                for struck in ([True, False] if o["struck"] else [False]):
                    how = ""
                    if struck:
                        world.dec.kinds, world.dec.budget, world.dec.p_fault = ["nomem"], 1, 0.2
                        world.compute_faults(True)
                    try:
                        r = call(plan, h, o, x)
                    except Exception as e:  # noqa: BLE001
                        r, how = e, f" failing with {common.exc_text(e)}"
                    world.dec.budget = 0
                    world.compute_faults(False)
                    d = changed(before, everything, allowed)
                    if d:
                        raise Violation("modifies", f"{title(o)}{how} in track {t} step {i}: {d}")
                res.append(r)
        return results

    def threaded():
        h = heap(plan)
        before = snapshot({"heap": h})
        results = {t: [] for t in range(len(plan["tracks"]))}

        def work(t):
            res = results[t]
            for o in plan["tracks"][t]:
                x = inputs(h, res, o)
                try:
                    res.append(None if x is None else call(plan, h, o, x))
                except Exception as e:  # noqa: BLE001
                    res.append(e)

        ts = [threading.Thread(target=work, args=(t,)) for t in results]
        for t in ts:
            t.start()
        for t in ts:
            t.join()
        asked = {f".heap.{n}.reality" for track in plan["tracks"] for o in track if o["op"] in TAKES_NOTE for n in o["in"]}
        d = changed(before, {"heap": h}, asked)
        if d:
            raise Violation("modifies", f"calls from {len(ts)} threads: {d}")
        return results

    env = {"NCPU": str(plan["ncpu"])}
    try:
        for klass, prog in (("sequential", sequential), ("threads", threaded)):
            s0 = world.sim.switch_count
            out = world.process(prog, env=env, trace=klass == "threads")
            if out.kind == "abort":
                raise Violation("no-progress", str(out.exc))
            if isinstance(out.exc, Violation):
                raise out.exc
            if not out.ok:
                raise Violation("fault-free", f"{klass}: {common.exc_text(out.exc)}")
            one[klass] = out.value
        switched = world.sim.switch_count - s0
    finally:
        world_mod.FIGURES = None
    errors, asked = 0, {}
    for t, track in enumerate(plan["tracks"]):
        for o in track:
            if o["op"] in TAKES_NOTE:
                asked.setdefault(o["in"][0], set()).add(t)
    for t, track in enumerate(plan["tracks"]):
        for i, o in enumerate(track):
            a, b = one["sequential"][t][i], one["threads"][t][i]
            if isinstance(a, Exception) or isinstance(b, Exception):
                errors += 1
                if type(a) is not type(b):
                    raise Violation("interferes", f"{title(o)} in track {t} of {len(plan['tracks'])}: {text(a)} one at a time, {text(b)} in threads")
                continue
            if o["op"] in READS_NOTE and asked.get(o["in"][0], set()) - {t}:
                continue  # whether the map still counts as real-valued depends on who came first
            d = differ(a, b)
            if d:
                raise Violation("interferes", f"{title(o)} in track {t} of {len(plan['tracks'])} gives another result in threads: {d}")
    ops = {o["op"] for t in plan["tracks"] for o in t}
    return {"nontrivial": switched > 2 * len(plan["tracks"]), "tags": sorted(ops) + (["raised"] if errors else [])}


def text(x):
    return common.exc_text(x) if isinstance(x, Exception) else "a result"


def shrink(plan):
    for t in range(len(plan["tracks"])):
        if len(plan["tracks"]) > 1:
            p = copy.deepcopy(plan)
            del p["tracks"][t]
            yield p
    for t, track in enumerate(plan["tracks"]):
        if len(track) > 1 and not any(f"r{len(track) - 1}" in o["in"] for o in track):
            p = copy.deepcopy(plan)
            del p["tracks"][t][-1]
            yield p
    if any(o["struck"] for t in plan["tracks"] for o in t):
        p = copy.deepcopy(plan)
        for t in p["tracks"]:
            for o in t:
                o["struck"] = False
        yield p
    if plan["ncpu"] != 1:
        yield dict(copy.deepcopy(plan), ncpu=1)


def warm(runner):
    common.warm_meshes()
