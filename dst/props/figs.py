"""What a plot command showed, as plain arrays and values, and how two of them compare."""

import base64
import threading

import numpy as np

from .. import world as world_mod

COLOURS = ("surfacecolor", "intensity")


def plain(x):
    """Plotly's description of a figure with its packed arrays unpacked."""
    if isinstance(x, dict):
        if set(x) <= {"dtype", "bdata", "shape"} and "bdata" in x:
            a = np.frombuffer(base64.b64decode(x["bdata"]), dtype=np.dtype(x["dtype"]))
            shape = x.get("shape")
            return a.reshape([int(n) for n in str(shape).split(",")]) if shape else a
        return {k: plain(v) for k, v in x.items()}
    if isinstance(x, (list, tuple)):
        return [plain(v) for v in x]
    return x


def shown(fn):
    """The figures shown by this thread while fn runs."""
    me, n = threading.get_ident(), len(world_mod.FIGURES)
    fn()
    return [{"fig": plain(f.to_plotly_json()), "kw": dict(kw)} for f, kw, who in world_mod.FIGURES[n:] if who == me]


def colours(figs):
    return [t[c] for f in figs for t in f["fig"]["data"] for c in COLOURS if c in t]


def seen(c):
    """The values that are not marked as outside the region."""
    c = np.asarray(c, float)
    return c[c > -1e5]


def gain(raw, full):
    """How strongly normalising a figure amplifies rounding: full size of the field over spread of what is shown."""
    out = 1.0
    for r, f in zip(colours(raw), colours(full)):
        r, f = seen(r), seen(f)
        if r.size and f.size:
            spread = float(np.ptp(r))
            out = max(out, float(np.abs(f).max()) / spread if spread > 0 else np.inf)
    return out


def blur(figs, g):
    """Drop the colours of figures that show nothing but rounding errors blown up to full range."""
    if g <= 1e4:
        return figs
    for f in figs:
        for t in f["fig"]["data"]:
            for c in COLOURS:
                if c in t:
                    t[c] = np.asarray(t[c]).shape
    return figs
