"""The simulated world around sleplet: imports it behind the seams, runs simulated processes."""

import builtins
import collections
import copy
import enum
import functools
import gc
import importlib
import logging
import os
import pkgutil
import random
import shutil
import sys
import tempfile
import threading
import time
import types
import warnings

from . import engine
from .engine import Decisions, HarnessError, Proc, Sim, SimAbort, SimCrash

for _v in ("OPENBLAS_NUM_THREADS", "OMP_NUM_THREADS", "MKL_NUM_THREADS", "NUMBA_NUM_THREADS", "BLIS_NUM_THREADS"):
    os.environ[_v] = "1"
for _v in ("NCPU", "POLAR_GAP", "SLEPIAN_MASK", "PHI_MAX", "PHI_MIN", "THETA_MAX", "THETA_MIN", "http_proxy",
           "https_proxy", "HTTP_PROXY", "HTTPS_PROXY", "ALL_PROXY", "all_proxy"):
    os.environ.pop(_v, None)
os.environ["TQDM_DISABLE"] = "1"

SLEPLET_MODULES = []
PREFIX = ""
PRISTINE = None
COMPUTE = {"on": False, "solved": 0}  # faults inside numerical libraries; eigenproblems solved so far
_installed = False


def install():
    """Import everything and put the seams in place.  Call once, in the zygote."""
    global _installed, PREFIX, PRISTINE
    if _installed:
        return
    _installed = True
    sys.setswitchinterval(1000.0)
    engine.install_threading()
    warnings.simplefilter("ignore")
    logging.disable(logging.CRITICAL)
    # everything sleplet stands on, so that the seams are in place before it binds any of it by name
    for name in ("numpy", "pooch", "requests", "scipy.io", "scipy.linalg", "scipy.special", "scipy.sparse.linalg", "numba", "pydantic",
                 "plotly.graph_objs", "plotly.io", "igl", "gmpy2", "pyssht", "pys2let", "platformdirs", "tomli", "tqdm",
                 "multiprocess.shared_memory", "multiprocess.pool", "multiprocessing.shared_memory", "concurrent.futures", "tempfile",
                 "shutil", "zipfile", "uuid", "secrets"):
        importlib.import_module(name)
    import tqdm

    tqdm.tqdm.monitor_interval = 0
    # its default lock is a real inter-process semaphore
    tqdm.std.TqdmDefaultWriteLock.create_mp_lock = classmethod(lambda cls: setattr(cls, "mp_lock", None))
    tqdm.std.TqdmDefaultWriteLock.mp_lock = None
    tqdm.std.TqdmDefaultWriteLock.th_lock = threading.RLock()
    tqdm.std.tqdm._lock = tqdm.std.TqdmDefaultWriteLock()

    from . import fs, nb, net, shm

    fs.install()
    shm.install()
    net.install()
    _patch_time()
    _patch_entropy()
    _patch_compute()
    import plotly.io as pio

    pio.show = _pio_show
    _patch_geometry()
    nb.thread_ids()
    real_caches = functools.lru_cache, functools.cache
    functools.lru_cache, functools.cache = _lru_cache, _cache

    import sleplet

    for info in pkgutil.walk_packages(sleplet.__path__, "sleplet."):
        importlib.import_module(info.name)
    functools.lru_cache, functools.cache = real_caches
    SLEPLET_MODULES[:] = [m for n, m in sorted(sys.modules.items()) if n == "sleplet" or n.startswith("sleplet.")]
    PREFIX = os.path.dirname(os.path.realpath(sleplet.__file__)) + os.sep

    nb.install(SLEPLET_MODULES)
    PRISTINE = Image.take()


FIGURES = None
SMALL_MESHES = None  # thin the bundled meshes out to about this many triangles (after their subdivision)


def _patch_geometry():
    import igl

    real = igl.read_triangle_mesh
    cut = {}

    @functools.wraps(real)
    def read(path, *a, **k):
        v, f = real(path, *a, **k)
        if not SMALL_MESHES:
            return v, f
        key = (str(path), SMALL_MESHES)
        if key not in cut:
            n = SMALL_MESHES // 4 if len(f) < 3000 else SMALL_MESHES  # the coarse ones are subdivided once
            v, f = igl.decimate(v, f, n)[:2]
            cut[key] = v, f
        v, f = cut[key]
        return v.copy(), f.copy()

    igl.read_triangle_mesh = read


def _pio_show(fig, *args, **kw):
    if FIGURES is not None:
        FIGURES.append((fig, kw, threading.get_ident()))


def _lru_cache(maxsize=128, typed=False):
    """functools.lru_cache with one cache for each simulated process."""
    if callable(maxsize):
        return _cached_function(maxsize, 128, typed)
    return lambda fn: _cached_function(fn, maxsize, typed)


def _cache(fn):
    return _cached_function(fn, None, False)


def _cached_function(fn, maxsize, typed):
    key_of = functools._make_key
    outside = [collections.OrderedDict(), 0, 0]
    me = object()

    def state():
        sim = engine.SIM
        if sim is None or sim.current is None:
            return outside
        caches = sim.current.proc.__dict__.setdefault("lru_caches", {})
        if me not in caches:
            caches[me] = [collections.OrderedDict(), 0, 0]
        return caches[me]

    @functools.wraps(fn)
    def cached(*args, **kwargs):
        s = state()
        key = key_of(args, kwargs, typed)
        if key in s[0]:
            s[1] += 1
            s[0].move_to_end(key)
            return s[0][key]
        s[2] += 1
        value = fn(*args, **kwargs)
        if maxsize is None or maxsize > 0:
            s[0].setdefault(key, value)
            while maxsize is not None and len(s[0]) > maxsize:
                s[0].popitem(last=False)
        return value

    def cache_clear():
        s = state()
        s[0].clear()
        s[1:] = [0, 0]

    cached.cache_clear = cache_clear
    cached.cache_parameters = lambda: {"maxsize": maxsize, "typed": typed}
    cached.cache_info = lambda: functools._CacheInfo(state()[1], state()[2], maxsize, len(state()[0]))
    return cached


def _cur():
    sim = engine.SIM
    return sim if sim is not None and sim.current is not None else None


def _patch_time():
    real = {n: getattr(time, n) for n in ("sleep", "time", "monotonic", "perf_counter", "time_ns", "monotonic_ns")}

    def sleep(s):
        sim = _cur()
        return sim.sleep(s) if sim else real["sleep"](s)

    def mk(name, base, scale):
        def f():
            sim = _cur()
            if not sim:
                return real[name]()
            v = base + sim.now
            return int(v * 1e9) if scale else v

        return f

    time.sleep = sleep
    time.time = mk("time", 1.7e9, False)
    time.time_ns = mk("time_ns", 1.7e9, True)
    time.monotonic = mk("monotonic", 1e4, False)
    time.monotonic_ns = mk("monotonic_ns", 1e4, True)
    time.perf_counter = mk("perf_counter", 1e4, False)
    threading._time = time.monotonic


def _patch_entropy():
    import uuid

    import numpy as np

    real_rng = np.random.default_rng
    real_ss = np.random.SeedSequence

    @functools.wraps(real_rng)
    def default_rng(seed=None):
        if seed is None:
            sim = _cur()
            if sim:
                seed = sim.current.proc.entropy.getrandbits(64)
        return real_rng(seed)

    np.random.default_rng = default_rng
    for m in list(sys.modules.values()):
        n = getattr(m, "__name__", "") or ""
        if (n.startswith("scipy") or n.startswith("sleplet")) and getattr(m, "default_rng", None) is real_rng:
            m.default_rng = default_rng
    real_urandom = os.urandom

    def urandom(n):
        sim = _cur()
        if sim:
            return sim.current.proc.entropy.getrandbits(8 * n).to_bytes(n, "little") if n else b""
        return real_urandom(n)

    os.urandom = urandom
    random._urandom = urandom
    uuid.uuid4 = lambda: uuid.UUID(bytes=os.urandom(16), version=4)
    # every process has its own string hashing (as seen by sleplet's own calls of hash)
    real_hash = builtins.hash

    def salted(obj):
        h = real_hash(obj)
        if isinstance(obj, (str, bytes)) or (isinstance(obj, tuple) and any(isinstance(x, (str, bytes)) for x in obj)):
            sim = _cur()
            if sim and sys._getframe(1).f_code.co_filename.startswith(PREFIX):
                p = sim.current.proc
                salt = p.__dict__.get("hash_salt")
                if salt is None:
                    salt = p.hash_salt = random.Random(f"hash:{p.global_seed}").getrandbits(61)
                return real_hash((h, salt))
        return h

    builtins.hash = salted
    # tempfile names: drawn from the simulated process's entropy
    class Names:
        characters = "abcdefghijklmnopqrstuvwxyz0123456789_"

        def __init__(self):
            self._r = random.Random(0)

        def __iter__(self):
            return self

        def __next__(self):
            sim = _cur()
            r = sim.current.proc.entropy if sim else self._r
            return "".join(r.choice(self.characters) for _ in range(8))

    tempfile._RandomNameSequence = Names
    tempfile._name_sequence = Names()


def _patch_compute():
    """Fault sites inside numerical libraries: an allocation inside them may fail."""
    import gmpy2
    import igl
    import numpy as np
    import pyssht
    import scipy.linalg
    import scipy.sparse.linalg as sla

    def wrap(mod, name):
        f = getattr(mod, name, None)
        if f is None:
            return

        @functools.wraps(f)
        def g(*a, **k):
            if name.startswith("eig"):
                COMPUTE["solved"] += 1
            if COMPUTE["on"]:
                sim = _cur()
                if sim:
                    if sim.dec.fault(f"compute.{name}", ["nomem"]):
                        sim.event(f"compute.{name} fails")
                        raise MemoryError(f"simulated: {name}")
            return f(*a, **k)

        setattr(mod, name, g)

    for n in ("inverse", "forward", "create_ylm", "generate_dl", "sample_positions"):
        wrap(pyssht, n)
    for n in ("factorial", "sqrt"):
        wrap(gmpy2, n)
    wrap(np.linalg, "eigh")
    wrap(np.linalg, "eig")
    wrap(scipy.linalg, "eigh")
    wrap(scipy.linalg, "eig")
    wrap(sla, "eigsh")
    for n in ("cotmatrix", "doublearea", "average_onto_faces"):
        wrap(igl, n)


# --------------------------------------------------------------------------------------
# process images: everything in sleplet's modules that a fresh interpreter would have
# --------------------------------------------------------------------------------------
_CONT = (dict, list, set, collections.OrderedDict, collections.defaultdict, collections.deque)


def _fresh(v, memo):
    """A copy of a module-level value as a fresh process would have it."""
    t = type(v)
    i = id(v)
    if i in memo:
        return memo[i][0]
    if t in _CONT:
        if t is collections.defaultdict:
            out = collections.defaultdict(v.default_factory)
        else:
            out = t()
        memo[i] = (out, v)
        if isinstance(v, dict):
            for k, x in v.items():
                out[k] = _fresh(x, memo)
        elif t is set:
            out.update(v)
        else:
            out.extend(_fresh(x, memo) for x in v)
        return out
    if t is engine.SimLock:
        out = engine.SimLock()
        memo[i] = (out, v)
        return out
    if t.__module__ == "threading" and hasattr(v, "__dict__") and not isinstance(v, (type, threading.Thread)):
        out = t.__new__(t)
        memo[i] = (out, v)
        for k, x in vars(v).items():
            # bound methods of an inner lock must be rebound
            s = getattr(x, "__self__", None)
            if callable(x) and s is not None and id(s) in memo:
                out.__dict__[k] = getattr(memo[id(s)][0], x.__name__)
            else:
                out.__dict__[k] = _fresh(x, memo)
        return out
    if t is threading.local:
        out = threading.local()
        memo[i] = (out, v)
        return out
    if t.__module__ in ("numpy.random._generator", "numpy.random.mtrand", "random"):
        if t.__name__ in ("Generator", "RandomState", "Random"):
            out = copy.deepcopy(v)
            memo[i] = (out, v)
            return out
    if t in _ATOMS:
        return v
    f = _COPY.get(t.__name__ if t.__module__ in _COPY_FROM else "")
    if f is not None:
        out = f(v, memo)
        memo[i] = (out, v)
        return out
    if _ours(t):
        return _fresh_object(v, t, memo)
    return v


_ATOMS = (str, int, float, bool, complex, bytes, type(None), type, types.FunctionType, types.ModuleType, types.BuiltinFunctionType)


def _ours(t):
    return any(c.__module__.partition(".")[0] == "sleplet" for c in t.__mro__) and not issubclass(
        t, (type, enum.Enum, BaseException, threading.Thread))


def _fresh_object(v, t, memo):
    """A module-level object of one of sleplet's own classes."""
    try:
        out = t.__new__(t) if issubclass(t, (dict, list, set, collections.deque)) else object.__new__(t)
    except TypeError:
        return v
    memo[id(v)] = (out, v)
    if isinstance(v, dict):
        for k, x in list(dict.items(v)):
            dict.__setitem__(out, k, _fresh(x, memo))
    elif isinstance(v, set):
        set.update(out, v)
    elif isinstance(v, (list, collections.deque)):
        out.extend(_fresh(x, memo) for x in v)
    for k, x in getattr(v, "__dict__", {}).items():
        out.__dict__[k] = _fresh_cached(x, memo) if hasattr(x, "cache_parameters") else _fresh(x, memo)
    for c in t.__mro__:
        slots = c.__dict__.get("__slots__", ())
        for k in (slots,) if isinstance(slots, str) else slots:
            if k not in ("__dict__", "__weakref__") and hasattr(v, k):
                object.__setattr__(out, k, _fresh(getattr(v, k), memo))
    return out


def _fresh_pooch(v, memo):
    out = copy.copy(v)
    out.registry = dict(v.registry)
    out.urls = dict(v.urls)
    return out


def _fresh_cached(v, memo):
    return functools.update_wrapper(functools.lru_cache(**v.cache_parameters())(_fresh(v.__wrapped__, memo)), v.__wrapped__)


# what a module may also keep its state in
_COPY_FROM = ("numpy", "builtins", "functools", "itertools", "weakref", "collections", "pooch.core", "concurrent.futures.thread",
              "types", "_queue", "queue", "contextvars", "_contextvars")
_COPY = {
    "ndarray": lambda v, memo: v.copy() if v.flags.writeable else v,
    "bytearray": lambda v, memo: bytearray(v),
    "tuple": lambda v, memo: tuple(_fresh(x, memo) for x in v) if any(_mutable(x) for x in v) else v,
    "method": lambda v, memo: types.MethodType(v.__func__, _fresh(v.__self__, memo)),
    "partial": lambda v, memo: functools.partial(_fresh(v.func, memo), *[_fresh(x, memo) for x in v.args],
                                                 **{k: _fresh(x, memo) for k, x in v.keywords.items()}),
    "count": lambda v, memo: copy.copy(v),
    "cycle": lambda v, memo: copy.copy(v),
    "Counter": lambda v, memo: collections.Counter(v),
    "WeakValueDictionary": lambda v, memo: type(v)(),
    "WeakKeyDictionary": lambda v, memo: type(v)(),
    "WeakSet": lambda v, memo: type(v)(),
    "Pooch": _fresh_pooch,
    "ThreadPoolExecutor": lambda v, memo: type(v)(v._max_workers, v._thread_name_prefix),
    "Queue": lambda v, memo: type(v)(v.maxsize),
    "SimpleQueue": lambda v, memo: type(v)(),
    "ContextVar": lambda v, memo: v,
}


def _skip_class_attr(k):
    return k.startswith("__") and k.endswith("__")


def _mutable(v):
    t = type(v)
    return t in _CONT or t is engine.SimLock or t.__module__ == "threading" or (
        t.__module__ in ("numpy.random._generator", "numpy.random.mtrand", "random")
        and t.__name__ in ("Generator", "RandomState", "Random")) or (
        t not in _ATOMS and (_ours(t) or (t.__module__ in _COPY_FROM and t.__name__ in _COPY and t.__name__ != "tuple")
                             or (t is tuple and any(_mutable(x) for x in v))))


class Image:
    """Saved module state of one simulated process."""

    def __init__(self, mods, classes, funcs):
        self.mods, self.classes, self.funcs = mods, classes, funcs

    _known = None
    _plain_funcs = {}

    @classmethod
    def _plain(cls, f):
        """A function without closure, cache or mutable defaults."""
        r = cls._plain_funcs.get(id(f))
        if r is None:
            r = not hasattr(f, "cache_clear") and not f.__closure__ and not any(
                _mutable(v) for v in (*(f.__defaults__ or ()), *(f.__kwdefaults__ or {}).values()))
            cls._plain_funcs[id(f)] = r
        return r

    @classmethod
    def _walk(cls):
        if cls._known is None:
            cls._known = cls._walk_now()
        return cls._known

    @staticmethod
    def _walk_now():
        classes, funcs, seen = [], [], set()

        def fn(f):
            f = getattr(f, "__func__", f)
            f = getattr(f, "fget", f) or f
            while hasattr(f, "__wrapped__") and id(f) not in seen:
                if hasattr(f, "cache_clear"):
                    funcs.append(f)
                    seen.add(id(f))
                if isinstance(f, type(fn)) and id(f) not in seen:
                    seen.add(id(f))
                    funcs.append(f)
                f = f.__wrapped__
            if id(f) in seen:
                return
            if isinstance(f, type(fn)) or hasattr(f, "cache_clear"):
                seen.add(id(f))
                funcs.append(f)
                for c in getattr(f, "__closure__", None) or ():
                    try:
                        v = c.cell_contents
                    except ValueError:
                        continue
                    if (isinstance(v, type(fn)) or hasattr(v, "cache_clear")) and str(
                            getattr(v, "__module__", "")).startswith("sleplet"):
                        fn(v)

        for m in SLEPLET_MODULES:
            for v in list(vars(m).values()):
                if isinstance(v, type) and str(v.__module__).startswith("sleplet") and id(v) not in seen:
                    seen.add(id(v))
                    classes.append(v)
                    for cv in list(vars(v).values()):
                        if callable(cv) or isinstance(cv, (staticmethod, classmethod, property)):
                            fn(cv)
                elif callable(v) and not isinstance(v, type) and str(getattr(v, "__module__", "")).startswith("sleplet"):
                    fn(v)
        return classes, funcs

    @classmethod
    def take(cls):
        """Current state, by reference (containers are not copied)."""
        mods = [(m, dict(vars(m))) for m in SLEPLET_MODULES]
        cl, fu = cls._walk()
        classes = [(c, {k: v for k, v in vars(c).items() if not _skip_class_attr(k)}) for c in cl]
        funcs = []
        for f in fu:
            if cls._plain(f) and not f.__dict__:
                continue  # nothing in it can change between processes
            if hasattr(f, "cache_clear"):
                funcs.append((f, "lru", None, None))
            else:
                cells = []
                for c in f.__closure__ or ():
                    try:
                        cells.append(c.cell_contents)
                    except ValueError:
                        cells.append(_EMPTY)
                funcs.append((f, f.__defaults__, f.__kwdefaults__, (dict(f.__dict__), cells)))
        return cls(mods, classes, funcs)

    def fresh(self):
        """A copy in which every mutable thing is new."""
        memo = {}
        mods = [(m, {k: (v if k.startswith("__") else _fresh(v, memo)) for k, v in d.items()}) for m, d in self.mods]
        classes = [(c, {k: _fresh(v, memo) for k, v in d.items() if _mutable(v)}) for c, d in self.classes]
        funcs = []
        for f, d, kd, x in self.funcs:
            if d == "lru":
                funcs.append((f, d, kd, x))
            else:
                funcs.append((f, tuple(_fresh(v, memo) for v in d) if d else d,
                              {k: _fresh(v, memo) for k, v in kd.items()} if kd else kd,
                              ({k: _fresh(v, memo) for k, v in x[0].items()}, [_fresh(v, memo) for v in x[1]])))
        img = Image(mods, classes, funcs)
        img.classnames = {id(c): set(d) for c, d in self.classes}
        return img

    def load(self, clear_caches):
        for m, d in self.mods:
            cur = vars(m)
            for k in [k for k in cur if k not in d]:
                if k not in ("__dst_prange", "__dst_reduction"):
                    del cur[k]
            for k, v in d.items():
                if cur.get(k, _EMPTY) is not v:
                    cur[k] = v
        for c, d in self.classes:
            names = self.classnames.get(id(c)) if hasattr(self, "classnames") else None
            if names is not None:
                for k in [k for k in vars(c) if k not in names and not _skip_class_attr(k)]:
                    try:
                        delattr(c, k)
                    except (AttributeError, TypeError):
                        pass
            for k, v in d.items():
                if vars(c).get(k, _EMPTY) is not v:
                    try:
                        setattr(c, k, v)
                    except (AttributeError, TypeError):
                        pass
        if Image._known:
            mine = {id(f[0]) for f in self.funcs}
            for f in Image._known[1]:
                if f.__dict__ and id(f) not in mine and not hasattr(f, "cache_clear"):
                    f.__dict__.clear()
        for f, d, kd, x in self.funcs:
            if d == "lru":
                if clear_caches:
                    f.cache_clear()
                continue
            f.__defaults__ = d
            f.__kwdefaults__ = kd
            fd = f.__dict__
            for k in [k for k in fd if k not in x[0]]:
                del fd[k]
            fd.update(x[0])
            for c, v in zip(f.__closure__ or (), x[1]):
                if v is not _EMPTY:
                    try:
                        if c.cell_contents is not v:
                            c.cell_contents = v
                    except ValueError:
                        c.cell_contents = v


class _E:
    pass


_EMPTY = _E()


class Outcome:
    def __init__(self, kind, value=None, exc=None, leaks=None):
        self.kind, self.value, self.exc, self.leaks = kind, value, exc, leaks

    @property
    def ok(self):
        return self.kind == "ok"

    def __repr__(self):
        return f"<{self.kind} {type(self.exc).__name__ if self.exc else ''} {str(self.exc)[:200] if self.exc else ''}>"


@functools.lru_cache(None)
def failing_lines(path):
    """Lines of a source file where running out of memory is fair: a statement doing work, not a cleanup.

    Excluded are lines that allocate nothing, `with` lines (reached again on the way out, before the
    release) and the bodies of exception handlers and finally clauses.
    """
    import ast

    with open(path, "rb") as f:
        tree = ast.parse(f.read())
    lines = set()

    def visit(body):
        for st in body:
            if isinstance(st, (ast.Pass, ast.Break, ast.Continue, ast.Global, ast.Nonlocal)):
                continue
            if isinstance(st, ast.Try):
                visit(st.body)
                visit(st.orelse)
            elif isinstance(st, (ast.With, ast.AsyncWith)):
                visit(st.body)
            elif isinstance(st, (ast.FunctionDef, ast.AsyncFunctionDef, ast.ClassDef)):
                visit(st.body)
            elif isinstance(st, (ast.If, ast.For, ast.While)):
                lines.update(range(st.lineno, st.body[0].lineno))
                visit(st.body)
                visit(st.orelse)
            else:
                lines.update(range(st.lineno, (st.end_lineno or st.lineno) + 1))

    visit(tree.body)
    return lines


class World:
    """One simulated machine: a disk, a network, and the processes run on it."""

    def __init__(self, plan, dec, root):
        from . import fs, net, shm

        self.plan = plan
        self.dec = dec
        self.root = root
        self.data = os.path.join(root, "data")
        self.cache = os.path.join(root, "cache")
        self.home = os.path.join(root, "home")
        self.tmp = os.path.join(root, "tmp")
        for d in (root, self.home, self.tmp):
            os.mkdir(d) if not os.path.isdir(d) else None
        if plan.get("mkdirs", True):
            for d in (self.data, self.cache):
                os.mkdir(d)
        self.sim = Sim(dec, trace_prefixes=(PREFIX,), opcodes=bool(plan.get("opcodes")),
                       max_ticks=int(plan.get("max_ticks", 3_000_000)))
        self.fs = fs.FS = fs.SimFS(root)
        self.fs.crash_kinds = []
        shm.reset()
        self.shm = shm
        self.archive = net.Archive()
        self.net = net.NET = net.SimNet(self.archive)
        self.procs = []
        self.nproc = 0
        self.base_env = {
            "XDG_DATA_HOME": self.data, "XDG_CACHE_HOME": self.cache, "HOME": self.home, "TMPDIR": self.tmp,
        }
        self.saved_env = dict(os.environ)
        tempfile.tempdir = self.tmp
        self.sim.on_switch_proc = self._switch_proc
        self.entropy_seed = plan.get("entropy", 0)
        COMPUTE["on"], COMPUTE["solved"] = False, 0
        gc.collect()
        gc.disable()

    def close(self):
        from . import fs, net, shm

        fs.FS = None
        net.NET = None
        os.environ.clear()
        os.environ.update(self.saved_env)
        gc.enable()

    # -- processes -----------------------------------------------------------------
    def _new_proc(self, env, interruptible):
        import numpy as np

        p = Proc(self.nproc, env)
        self.nproc += 1
        p.pid = 4000 + 17 * (self.entropy_seed % 1000) + self.nproc
        p.interruptible = interruptible
        p.entropy = random.Random(f"{self.entropy_seed}:{p.key}")
        p.image = PRISTINE.fresh()
        p.fresh = True
        p.np_state = None
        p.py_state = None
        p.global_seed = p.entropy.getrandbits(32)
        self.procs.append(p)
        return p

    def _switch_proc(self, old, new):
        import numpy as np

        if old is not None and not old.dead and old.tasks:
            old.image = Image.take()
            old.np_state = np.random.get_state()
            old.py_state = random.getstate()
            old.env_now = dict(os.environ)
        new.image.load(new.fresh)
        if new.fresh:
            np.random.seed(new.global_seed)
            random.seed(new.global_seed)
            env = dict(self.saved_env)
            env.update(self.base_env)
            env.update(new.env)
        else:
            np.random.set_state(new.np_state)
            random.setstate(new.py_state)
            env = new.env_now
        new.fresh = False
        os.environ.clear()
        os.environ.update(env)
        engine_cft_reset()

    def processes(self, specs, timeout_note=""):
        """Run several simulated processes at the same time; each spec is a dict."""
        outs = []
        sim = self.sim
        if sim.aborting:
            raise HarnessError("world used after abort")
        for spec in specs:
            p = self._new_proc(spec.get("env"), spec.get("interruptible", False))
            t = sim.spawn(self._main(p, spec), spec.get("name", "main"), p, trace=bool(spec.get("trace")))
            t.is_main = True
            outs.append((p, t))
        sim.run()
        sim.loaded_proc = None if len(specs) > 1 else sim.loaded_proc
        res = []
        for p, t in outs:
            if sim.aborting:
                kind, exc = "abort", RuntimeError(sim.aborting)
            elif isinstance(t.exc, (SimCrash,)) or p.dead and t.exc is not None:
                kind, exc = "crash", t.exc
            elif isinstance(t.exc, SimAbort):
                kind, exc = "abort", t.exc
            elif t.exc is not None:
                kind, exc = "raise", t.exc
            else:
                kind, exc = "ok", None
            if exc is not None and isinstance(exc, HarnessError):
                raise exc
            res.append(Outcome(kind, t.result, exc, getattr(p, "leaks", None)))
            p.dead = True
            self.fs.end_of_process(p)
            self.shm.end_of_process(p)
        if self.fs.pending_power:
            for p in self.procs:
                self.fs.end_of_process(p)
            self.fs.apply_power_loss(self.dec)
        return res

    def process(self, fn, **spec):
        spec["fn"] = fn
        return self.processes([spec])[0]

    def _main(self, p, spec):
        fn = spec["fn"]

        def main():
            try:
                return fn()
            finally:
                if not p.dead and not self.sim.aborting:
                    if spec.get("leaks"):
                        p.leaks = self._leaks(p)
                p.exiting = True

        return main

    def _leaks(self, p):
        sim = self.sim
        gc.collect()
        segs, hands = self.shm.leaked(p)
        threads = [t.key for t in p.tasks if t.state != "done" and t is not sim.current]
        return {"segments": segs, "handles": hands, "threads": threads, "files": self.fs.open_of(p)}

    # -- faults at the level of source lines -----------------------------------------------
    def arm_line_faults(self, targets, names=("thread", "prange"), exc=MemoryError, files=None):
        """targets: [worker number, tick]; the n-th worker task started runs out of memory at that line (of one of `files`)."""
        pending = [list(t) for t in targets]
        sim = self.sim
        order = {}

        def hook(t, frame, event):
            if not pending or t.name not in names:
                return
            if files and os.path.basename(frame.f_code.co_filename) not in files:
                return
            n = order.setdefault(t.key, len(order))
            for p in pending:
                if p[0] == n and t.ticks >= p[1] and frame.f_lineno in failing_lines(frame.f_code.co_filename):
                    pending.remove(p)
                    self.dec.fired["line_nomem"] = self.dec.fired.get("line_nomem", 0) + 1
                    sim.event(f"line fault {frame.f_code.co_name}:{frame.f_lineno - frame.f_code.co_firstlineno}")
                    raise exc("simulated: out of memory")

        sim.line_faults = hook

    def compute_faults(self, on):
        COMPUTE["on"] = on

    def calm(self):
        """No more faults of any kind."""
        self.dec.budget = 0
        self.sim.line_faults = None
        COMPUTE["on"] = False
        self.fs.full = False
        self.fs.crash_kinds = []
        self.net.outage = False

    def power_loss(self):
        """The machine loses power while nothing runs: what was not flushed may be lost."""
        self.sim.probe("crash.power")
        self.dec.fired["power"] = self.dec.fired.get("power", 0) + 1
        self.fs.apply_power_loss(self.dec)

    # -- a second, undisturbed machine ---------------------------------------------------
    def aside(self, setup, *fns, env=None, tag="b"):
        """Run functions one after another, each in its own process, on a fresh machine without faults."""
        from . import fs, net, shm

        saved = fs.FS, net.NET, shm.SEGMENTS, shm.HANDLES, tempfile.tempdir, dict(os.environ)
        self.asides = getattr(self, "asides", 0) + 1
        root = os.path.join(os.path.dirname(self.root), f"{tag}{self.asides}")
        os.mkdir(root)
        w = World({"entropy": 17 + self.asides}, Decisions(seed=0), root)
        try:
            if setup:
                setup(w)
            outs = [w.process(f, env=env) for f in fns]
            w.final_listing = w.listing() if os.path.isdir(w.data) else {}
            return outs, w
        finally:
            w.close()
            fs.FS, net.NET, shm.SEGMENTS, shm.HANDLES, tempfile.tempdir = saved[:5]
            os.environ.clear()
            os.environ.update(saved[5])
            gc.disable()
            shutil.rmtree(root, ignore_errors=True)

    # -- harness access to the disk ---------------------------------------------------
    def listing(self, d=None):
        from .fs import R

        out = {}
        base = d or self.data
        for dp, dn, fn in os.walk(base):
            dn.sort()
            for f in sorted(fn):
                p = os.path.join(dp, f)
                with R["open"](p, "rb") as fh:
                    out[os.path.relpath(p, base)] = fh.read()
        return out

    def put(self, path, data):
        from .fs import R

        os.makedirs(os.path.dirname(path), exist_ok=True)
        with R["open"](path, "wb") as fh:
            fh.write(data)
            st = R["fstat"](fh.fileno())
        self.fs.inodes.pop((st.st_dev, st.st_ino), None)

    def remove(self, path):
        from .fs import R

        R["unlink"](path)


def engine_cft_reset():
    import concurrent.futures.thread as cft

    cft._shutdown = False


def fresh_root(tag=""):
    base = "/dev/shm" if os.access("/dev/shm", os.W_OK) else tempfile.gettempdir()
    return tempfile.mkdtemp(prefix=f"dst{tag}-", dir=base)
