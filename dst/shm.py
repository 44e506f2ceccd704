"""Shared-memory seam: named segments kept in this process, one mapping per handle.

Every handle maps the segment at its own address.  When a handle is closed its address
range is replaced by a private page of NaNs: reading through a stale array gives NaN and
writes through it are lost, as deterministic a stand-in as one can have for touching
unmapped memory.
"""

import ctypes
import errno
import mmap
import os

from . import engine
from .fs import R

_libc = ctypes.CDLL(None, use_errno=True)
_libc.mmap.restype = ctypes.c_void_p
_libc.mmap.argtypes = [ctypes.c_void_p, ctypes.c_size_t, ctypes.c_int, ctypes.c_int, ctypes.c_int, ctypes.c_long]
_libc.munmap.argtypes = [ctypes.c_void_p, ctypes.c_size_t]
_PROT = mmap.PROT_READ | mmap.PROT_WRITE
_MAP_FIXED = 0x10
_FAILED = ctypes.c_void_p(-1).value

SEGMENTS = None  # name -> Segment, of the simulated machine
HANDLES = None
REAL = {}


class Segment:
    def __init__(self, name, size, proc):
        self.name, self.size, self.proc = name, size, proc
        self.fd = os.memfd_create("dst-shm")
        os.ftruncate(self.fd, size)
        self.linked = True


def reset():
    global SEGMENTS, HANDLES
    SEGMENTS, HANDLES = {}, []


class SimSharedMemory:
    _n = 0

    def __init__(self, name=None, create=False, size=0, *, track=True):
        sim = engine.SIM
        if SEGMENTS is None or sim is None or sim.current is None:
            raise engine.HarnessError("shared memory used outside a simulation")
        sim.point("shm")
        self._closed = True
        self._name = None
        if create:
            if size < 0:
                raise ValueError("'size' must be a positive integer")
            if size == 0:
                raise ValueError("'size' must be a positive number different from zero")
            k = sim.dec.fault("shm.create", ["ENOSPC", "ENOMEM", "EMFILE"])
            if k:
                sim.event(f"shm create fails {k}")
                e = getattr(errno, k)
                raise OSError(e, os.strerror(e))
            if name is None:
                SimSharedMemory._n += 1
                name = f"/psm_{SimSharedMemory._n:08x}"
            elif not name.startswith("/"):
                name = "/" + name
            if name in SEGMENTS:
                raise FileExistsError(errno.EEXIST, os.strerror(errno.EEXIST), name)
            seg = Segment(name, size, sim.current.proc)
            SEGMENTS[name] = seg
            sim.event(f"shm create {size}")
        else:
            if name is None:
                raise ValueError("'name' can only be None if create=True")
            if not name.startswith("/"):
                name = "/" + name
            k = sim.dec.fault("shm.attach", ["EMFILE", "ENOMEM"])
            if k:
                sim.event(f"shm attach fails {k}")
                e = getattr(errno, k)
                raise OSError(e, os.strerror(e))
            seg = SEGMENTS.get(name)
            if seg is None or not seg.linked:
                raise FileNotFoundError(errno.ENOENT, os.strerror(errno.ENOENT), name)
            sim.event("shm attach")
        self._seg = seg
        self._name = name
        self._len = max(mmap.PAGESIZE, -(-seg.size // mmap.PAGESIZE) * mmap.PAGESIZE)
        addr = _libc.mmap(None, self._len, _PROT, mmap.MAP_SHARED, seg.fd, 0)
        if addr in (None, _FAILED):
            raise engine.HarnessError("mmap failed")
        self._addr = addr
        self._view = memoryview((ctypes.c_char * seg.size).from_address(addr)).cast("B")
        self._closed = False
        self._proc = sim.current.proc
        HANDLES.append(self)

    @property
    def name(self):
        return self._name[1:] if self._name.startswith("/") else self._name

    @property
    def size(self):
        return self._seg.size

    @property
    def buf(self):
        return None if self._closed else self._view

    def close(self):
        if self._closed:
            return
        self._closed = True
        sim = engine.SIM
        if sim is not None and sim.current is not None:
            sim.event("shm close")
        a = _libc.mmap(self._addr, self._len, _PROT, mmap.MAP_PRIVATE | mmap.MAP_ANONYMOUS | _MAP_FIXED, -1, 0)
        if a != self._addr:
            raise engine.HarnessError("remap failed")
        ctypes.memset(self._addr, 0xFF, self._len)

    def unlink(self):
        sim = engine.SIM
        if not self._name:
            return
        if not self._seg.linked:
            raise FileNotFoundError(errno.ENOENT, os.strerror(errno.ENOENT), self._name)
        self._seg.linked = False
        SEGMENTS.pop(self._name, None)
        if sim is not None and sim.current is not None:
            sim.event("shm unlink")
            sim.point("shm.unlink")

    def __reduce__(self):
        return (self.__class__, (self.name, False, self.size))

    def __repr__(self):
        return f"{self.__class__.__name__}({self.name!r}, size={self.size})"


def leaked(proc):
    """Segments still linked and handles still mapped by a process."""
    segs = [s.name for s in SEGMENTS.values() if s.proc is proc and s.linked]
    hands = [h.name for h in HANDLES if h._proc is proc and not h._closed]
    return segs, hands


def end_of_process(proc):
    for h in HANDLES:
        if h._proc is proc:
            h.close()


def install():
    import multiprocess.shared_memory as a
    import multiprocessing.shared_memory as b

    REAL["a"], REAL["b"] = a.SharedMemory, b.SharedMemory
    a.SharedMemory = SimSharedMemory
    b.SharedMemory = SimSharedMemory
