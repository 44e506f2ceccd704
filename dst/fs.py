"""File-system seam.

All Python-level file calls on paths below a scratch root go through `SimFS`: each is a
scheduling point and a fault site.  The scratch directory itself is the volatile view
(what a running process sees); beside it the durable state is modelled (what survives a
power loss): file contents count as durable once fsynced, directory operations are lost
in a suffix of their order unless the directory was fsynced.
"""

import builtins
import errno
import io
import os
import re
import stat as stat_mod

from . import engine
from .engine import SimCrash

R = {}  # the real functions, filled by install()
BUF = 8192

ERRNO = {
    "ENOSPC": errno.ENOSPC,
    "EIO": errno.EIO,
    "EACCES": errno.EACCES,
    "EMFILE": errno.EMFILE,
    "EROFS": errno.EROFS,
    "EDQUOT": errno.EDQUOT,
}

# which errors a site can return
SITE_FAULTS = {
    "open_r": ["EIO", "EACCES", "EMFILE"],
    "open_w": ["ENOSPC", "EIO", "EACCES", "EMFILE", "EROFS", "EDQUOT"],
    "read": ["EIO"],
    "write": ["ENOSPC", "EIO", "EDQUOT", "short"],
    "close": ["EIO", "ENOSPC"],
    "fsync": ["EIO", "ENOSPC"],
    "fsync_dir": ["EIO"],
    "rename": ["EIO", "ENOSPC", "EACCES"],
    "unlink": ["EIO", "EACCES"],
    "mkdir": ["ENOSPC", "EACCES", "EROFS", "EIO"],
    "rmdir": ["EIO"],
    "stat": ["EIO", "EACCES"],
    "listdir": ["EIO", "EACCES"],
    "truncate": ["EIO", "ENOSPC"],
    "chmod": [],
    "link": ["EIO"],
}

FS = None  # the active SimFS


class Inode:
    __slots__ = ("durable", "dirty", "unflushed")

    def __init__(self, durable=b"", dirty=True):
        self.durable = durable
        self.dirty = dirty
        self.unflushed = False  # flushing it failed: the kernel may drop what was written


class SimFS:
    def __init__(self, root):
        self.root = os.path.realpath(root)
        self.prefix = self.root + os.sep
        self.inodes = {}
        self.journal = []
        self.fds = {}
        self.names = {}
        self.stats = {}
        self.crash_kinds = []  # subset of {"kill", "power"} enabled
        self.writes_log = []  # (proc, op, relative path) of every mutation
        self.reads_log = []
        self.asked = set()  # paths looked for before they existed, or by another process than their maker's
        self.maker = {}
        self.on_open = None
        self.open_handles = {}
        self.pending_power = False
        self.dead_files = []
        self.never = set()  # (fault, site) pairs switched off
        self.full = False  # a full disk: everything that needs space fails until it is reset

    # -- helpers ------------------------------------------------------------------
    def covers(self, path):
        if type(path) is int:
            return False
        try:
            p = os.fspath(path)
        except TypeError:
            return False
        if isinstance(p, bytes):
            p = os.fsdecode(p)
        return p.startswith(self.prefix) or p == self.root

    def rel(self, path):
        p = os.fspath(path)
        if isinstance(p, bytes):
            p = os.fsdecode(p)
        return p[len(self.prefix):] if p.startswith(self.prefix) else "."

    def label(self, path):
        """Stable name of a path for logs: random temporary names are numbered."""
        rel = self.rel(path)
        base = os.path.basename(rel)
        if base in self.names:
            base = self.names[base]
        elif _is_random_name(base):
            self.names[base] = f"<tmp{len(self.names)}>"
            base = self.names[base]
        return os.path.join(os.path.dirname(rel), base)

    def ask(self, path, proc):
        rel = self.rel(path)
        if rel not in self.asked and (self.maker.get(rel) != proc.key or not _lexists(path)):
            self.asked.add(rel)

    def op(self, site, path, detail=""):
        """Scheduling point, crash point and fault site in front of one operation."""
        sim = engine.SIM
        if sim is None or sim.current is None:
            return None
        sim.point(site)
        if site in ("stat", "open_r"):
            self.ask(path, sim.current.proc)
        self.stats[site] = self.stats.get(site, 0) + 1
        sim.event(f"{site} {self.label(path)} {detail}")
        if self.full and (site in ("write", "mkdir") or site == "open_w" and not _lexists(path)):
            sim.probe("disk_full_hit")
            raise OSError(errno.ENOSPC, os.strerror(errno.ENOSPC), os.fspath(path))
        kinds = [k for k in SITE_FAULTS.get(site, ()) if (k, site) not in self.never]
        if site not in ("stat", "read", "open_r", "listdir") or sim.dec.replay or getattr(self, "crash_on_reads", True):
            kinds += [k for k in self.crash_kinds]
        if sim.current.proc.interruptible and sim.current.is_main and site in ("open_w", "write", "fsync", "rename"):
            kinds.append("interrupt")
        k = sim.dec.fault(f"fs.{site}", kinds)
        if k is None:
            return None
        sim.event(f"  fault {k}")
        if k in ("kill", "power"):
            if site == "write":
                return k  # the caller tears the write first
            self.crash(k)
        if k == "short":
            return k
        if k == "interrupt":
            raise KeyboardInterrupt
        raise OSError(ERRNO[k], os.strerror(ERRNO[k]), os.fspath(path))

    def crash(self, kind):
        sim = engine.SIM
        p = sim.current.proc
        if kind == "power":
            for t in sim.tasks:
                t.proc.dead = True
            self.pending_power = True
        else:
            p.dead = True
        sim.probe(f"crash.{kind}")
        for t in sim.tasks:
            if t.proc.dead:
                sim.wake(t)
        raise SimCrash(kind)

    # -- durable state --------------------------------------------------------------
    def ino(self, fd):
        st = R["fstat"](fd)
        key = (st.st_dev, st.st_ino)
        n = self.inodes.get(key)
        if n is None:
            # existed before the run: durable as it is
            data = b""
            try:
                with R["open"](f"/proc/self/fd/{fd}", "rb") as f:
                    data = f.read()
            except OSError:
                pass
            n = self.inodes[key] = Inode(data, dirty=False)
        return n

    def ino_path(self, path):
        try:
            st = R["stat"](path)
        except OSError:
            return None
        return self.inodes.get((st.st_dev, st.st_ino))

    def created(self, path):
        st = R["stat"](path)
        self.inodes[(st.st_dev, st.st_ino)] = Inode(b"", dirty=True)
        self.journal.append(("create", os.fspath(path)))

    def snapshot(self, path):
        try:
            st = R["lstat"](path)
            if not stat_mod.S_ISREG(st.st_mode):
                return None
            with R["open"](path, "rb") as f:
                data = f.read()
        except OSError:
            return None
        n = self.inodes.get((st.st_dev, st.st_ino))
        return (data, n.durable if n else data, n.dirty if n else False)

    def restore(self, path, snap):
        data, durable, dirty = snap
        with R["open"](path, "wb") as f:
            f.write(data)
            st = R["fstat"](f.fileno())
        self.inodes[(st.st_dev, st.st_ino)] = Inode(durable, dirty)

    def apply_power_loss(self, dec):
        """Turn the scratch directory into one of the states a power loss may leave."""
        self.pending_power = False
        n = len(self.journal)
        lost = 0
        if n:
            how = dec.detail("power.dirops", 4)
            if how == 1:
                lost = n
            elif how >= 2:
                lost = dec.detail("power.lost", n + 1)
        for entry in reversed(self.journal[n - lost:]):
            op = entry[0]
            try:
                if op == "create":
                    R["unlink"](entry[1])
                elif op == "rename":
                    _, src, dst, old = entry
                    R["rename"](dst, src)
                    if old is not None:
                        self.restore(dst, old)
                elif op == "unlink":
                    if entry[2] is not None:
                        self.restore(entry[1], entry[2])
                elif op == "mkdir":
                    R["rmdir"](entry[1])
                elif op == "rmdir":
                    R["mkdir"](entry[1])
            except OSError:
                pass
        self.journal = []
        for dp, dn, fn in sorted(os.walk(self.root)):
            for f in sorted(fn):
                p = os.path.join(dp, f)
                node = self.ino_path(p)
                if node is None or not node.dirty:
                    continue
                with R["open"](p, "rb") as fh:
                    cur = fh.read()
                how = dec.detail("power.file", 5)
                if how == 0:
                    new = cur
                elif how == 1:
                    new = node.durable
                elif how == 2:
                    new = b""
                elif how == 3:
                    new = cur[: dec.detail("power.prefix", len(cur) + 1)]
                else:
                    k = dec.detail("power.zero", len(cur) + 1)
                    new = cur[:k] + bytes(len(cur) - k)
                with R["open"](p, "wb") as fh:
                    fh.write(new)
                node.durable = new
                node.dirty = False

    def drop_unflushed(self, dec):
        """What could not be flushed leaves the page cache: the file now is what the disk has."""
        for dp, dn, fn in sorted(os.walk(self.root)):
            for f in sorted(fn):
                p = os.path.join(dp, f)
                node = self.ino_path(p)
                if node is None or not node.unflushed:
                    continue
                with R["open"](p, "rb") as fh:
                    cur = fh.read()
                k = dec.detail("unflushed", len(cur)) if cur else 0
                new = cur[:k] + bytes(len(cur) - k if dec.detail("unflushed.how", 2) else 0)
                with R["open"](p, "wb") as fh:
                    fh.write(new)
                node.durable, node.dirty, node.unflushed = new, False, False

    def sync(self):
        """Everything written so far has reached the disk."""
        self.journal = []
        for dp, dn, fn in os.walk(self.root):
            for f in fn:
                p = os.path.join(dp, f)
                n = self.ino_path(p)
                if n is not None and n.dirty:
                    with R["open"](p, "rb") as fh:
                        n.durable = fh.read()
                    n.dirty = False

    def end_of_process(self, proc):
        """The kernel closes what a process left open."""
        for fd, (p, own) in list(self.fds.items()):
            if own is proc:
                self.fds.pop(fd, None)
                try:
                    R["close"](fd)
                except OSError:
                    pass
        for k in [k for k, f in self.open_handles.items() if f._proc is proc]:
            self.open_handles.pop(k)._kill()

    def open_of(self, proc):
        return [self.label(f._path) for f in self.open_handles.values() if f._proc is proc] + [
            self.label(p) for fd, (p, own) in self.fds.items() if own is proc
        ]


_RANDOM = re.compile(r"(^|[^a-z0-9])tmp[a-z0-9_]{6,8}($|[^a-z0-9_])|[0-9a-f]{16,}|\.[0-9]{4,}\.")


def _is_random_name(base):
    return bool(_RANDOM.search(base))


def _proc():
    sim = engine.SIM
    return sim.current.proc if sim is not None and sim.current is not None else None


class SimFile(io.BufferedIOBase):
    """A binary file with its own 8 KB buffer over a real descriptor in the scratch root."""

    def __init__(self, fs, fd, path, mode, closefd=True):
        self._fs = fs
        self._fd = fd
        self._path = path
        self._mode = mode
        self._r = "r" in mode or "+" in mode
        self._w = any(c in mode for c in "wax+")
        self._wb = bytearray()
        self._rb = b""
        self._closefd = closefd
        self._dead = False
        self._append = "a" in mode
        self._proc = _proc()
        self.name = path
        fs.open_handles[id(self)] = self

    # python's open() attributes
    @property
    def mode(self):
        return self._mode

    @property
    def raw(self):
        return self

    def _kill(self):
        self._dead = True
        try:
            R["close"](self._fd)
        except OSError:
            pass

    def _check(self):
        if self.closed:
            raise ValueError("I/O operation on closed file.")
        if self._dead:
            raise SimCrash

    def fileno(self):
        self._check()
        return self._fd

    def isatty(self):
        return False

    def readable(self):
        return self._r

    def writable(self):
        return self._w

    def seekable(self):
        return True

    def _raw_read(self, n):
        self._fs.op("read", self._path, f"{n}")
        return R["read"](self._fd, n)

    def read(self, n=-1):
        self._check()
        if not self._r:
            raise io.UnsupportedOperation("not readable")
        if self._wb:
            self.flush()
        if n is None or n < 0:
            out = [self._rb]
            self._rb = b""
            while True:
                d = self._raw_read(65536)
                if not d:
                    return b"".join(out)
                out.append(d)
        out = self._rb[:n]
        self._rb = self._rb[n:]
        while len(out) < n:
            d = self._raw_read(max(n - len(out), BUF))
            if not d:
                break
            need = n - len(out)
            out += d[:need]
            self._rb = d[need:]
        return bytes(out)

    def read1(self, n=-1):
        self._check()
        if self._rb:
            n = len(self._rb) if n is None or n < 0 else n
            out, self._rb = self._rb[:n], self._rb[n:]
            return out
        return self._raw_read(BUF if n is None or n < 0 else n)

    def readinto(self, b):
        m = memoryview(b).cast("B")
        d = self.read(len(m))
        m[: len(d)] = d
        return len(d)

    def readinto1(self, b):
        m = memoryview(b).cast("B")
        d = self.read1(len(m))
        m[: len(d)] = d
        return len(d)

    def peek(self, n=0):
        self._check()
        if not self._rb:
            self._rb = self._raw_read(BUF)
        return self._rb

    def write(self, b):
        self._check()
        if not self._w:
            raise io.UnsupportedOperation("not writable")
        if self._rb:
            R["lseek"](self._fd, -len(self._rb), os.SEEK_CUR)
            self._rb = b""
        data = bytes(memoryview(b).cast("B")) if not isinstance(b, (bytes, bytearray)) else bytes(b)
        self._wb += data
        if len(self._wb) > BUF:
            self._flush()
        return len(data)

    def _flush(self):
        while self._wb:
            n = _write(self._fs, self._fd, self._path, bytes(self._wb))
            del self._wb[:n]

    def flush(self):
        self._check()
        self._flush()

    def seek(self, off, whence=0):
        self._check()
        if self._wb:
            self._flush()
        if whence == 1:
            off -= len(self._rb)
        self._rb = b""
        return R["lseek"](self._fd, off, whence)

    def tell(self):
        self._check()
        return R["lseek"](self._fd, 0, os.SEEK_CUR) - len(self._rb) + len(self._wb)

    def truncate(self, size=None):
        self._check()
        self._flush()
        if size is None:
            size = self.tell()
        self._fs.op("truncate", self._path, str(size))
        node = self._fs.ino(self._fd)
        node.dirty = True
        R["ftruncate"](self._fd, size)
        return size

    def close(self):
        if self.closed:
            return
        if self._dead:
            self._wb.clear()
            super().close()
            return
        sim = engine.SIM
        if sim is None or sim.current is None or sim.current.proc is not self._proc:
            # finalised outside the process it belongs to: nothing reaches the disk
            self._wb.clear()
        try:
            try:
                self._flush()
                # closing a file nothing was written to has nothing left to fail
                if self._closefd and self._w and R["fstat"](self._fd).st_size:
                    self._fs.op("close", self._path)
            finally:
                if self._closefd:
                    self._fs.fds.pop(self._fd, None)
                    try:
                        R["close"](self._fd)
                    except OSError:
                        pass
                self._fs.open_handles.pop(id(self), None)
        finally:
            self._wb.clear()
            try:
                io.BufferedIOBase.close(self)
            except BaseException:  # noqa: BLE001
                pass

    def __del__(self):
        try:
            if not self.closed:
                self.close()
        except BaseException:  # noqa: BLE001
            pass


def _write(fs, fd, path, data):
    k = fs.op("write", path, f"{len(data)}")
    sim = engine.SIM
    node = fs.ino(fd)
    if k in ("kill", "power"):
        n = len(data) * sim.dec.detail("torn", 5) // 4
        node.dirty = True
        if n:
            R["write"](fd, data[:n])
        fs.crash(k)
    node.dirty = True
    if k == "short":
        n = max(1, len(data) * (1 + sim.dec.detail("short", 3)) // 4)
        return R["write"](fd, data[:n])
    if sim is not None and sim.current is not None:
        fs.writes_log.append((sim.current.proc.key, "write", fs.label(path)))
    return R["write"](fd, data)


def _sim_open(file, mode="r", buffering=-1, encoding=None, errors=None, newline=None, closefd=True, opener=None):
    fs = FS
    if fs is None or engine.SIM is None or engine.SIM.current is None:
        return R["open"](file, mode, buffering, encoding, errors, newline, closefd, opener)
    if type(file) is int:
        ent = fs.fds.get(file)
        if ent is None:
            return R["open"](file, mode, buffering, encoding, errors, newline, closefd, opener)
        f = SimFile(fs, file, ent[0], mode, closefd)
        if closefd:
            fs.fds.pop(file, None)
        return _wrap(f, mode, encoding, errors, newline)
    if isinstance(file, (str, bytes)) or hasattr(file, "__fspath__"):
        path = os.path.abspath(os.fsdecode(os.fspath(file)))
    else:
        return R["open"](file, mode, buffering, encoding, errors, newline, closefd, opener)
    if not fs.covers(path):
        return R["open"](file, mode, buffering, encoding, errors, newline, closefd, opener)
    flags = 0
    plus = "+" in mode
    if "r" in mode:
        flags = os.O_RDWR if plus else os.O_RDONLY
    elif "w" in mode:
        flags = (os.O_RDWR if plus else os.O_WRONLY) | os.O_CREAT | os.O_TRUNC
    elif "x" in mode:
        flags = (os.O_RDWR if plus else os.O_WRONLY) | os.O_CREAT | os.O_EXCL
    elif "a" in mode:
        flags = (os.O_RDWR if plus else os.O_WRONLY) | os.O_CREAT | os.O_APPEND
    else:
        raise ValueError(f"invalid mode: {mode!r}")
    if opener is not None:
        fd = opener(os.fspath(file), flags | os.O_CLOEXEC)
        ent = fs.fds.pop(fd, None)
        path = ent[0] if ent else path
    else:
        fd = _os_open_covered(fs, path, flags, 0o666)
        fs.fds.pop(fd, None)
    f = SimFile(fs, fd, path, mode, closefd)
    return _wrap(f, mode, encoding, errors, newline)


def _wrap(f, mode, encoding, errors, newline):
    if "b" in mode:
        return f
    t = io.TextIOWrapper(f, encoding or "utf-8", errors, newline)
    return t


def _os_open_covered(fs, path, flags, mode, dir_fd=None):
    sim = engine.SIM
    write = flags & (os.O_WRONLY | os.O_RDWR | os.O_CREAT | os.O_TRUNC)
    existed = None
    fs.op("open_w" if write else "open_r", path, oct(flags & ~os.O_CLOEXEC))
    if write:
        existed = _lexists(path)
        if existed and flags & os.O_TRUNC and not (flags & os.O_EXCL):
            fd0 = R["os_open"](path, os.O_RDONLY)
            try:
                n = fs.ino(fd0)
            finally:
                R["close"](fd0)
            n.dirty = True
    fd = R["os_open"](path, flags, mode)
    if write and not existed:
        fs.created(path)
        fs.maker[fs.rel(path)] = sim.current.proc.key
        fs.writes_log.append((sim.current.proc.key, "create", fs.label(path)))
    elif write and flags & os.O_TRUNC:
        fs.writes_log.append((sim.current.proc.key, "truncate", fs.label(path)))
    elif not write:
        fs.reads_log.append((sim.current.proc.key, fs.label(path)))
    fs.fds[fd] = (path, _proc())
    return fd


def _active(path):
    fs = FS
    if fs is None or engine.SIM is None or engine.SIM.current is None or path is None:
        return None
    if type(path) is int:
        return None
    try:
        p = os.fspath(path)
    except TypeError:
        return None
    if isinstance(p, bytes):
        p = os.fsdecode(p)
    if not p.startswith("/"):
        return None
    return fs if fs.covers(p) else None


def install():
    """Patch the Python-level file functions."""
    R.update(
        open=builtins.open, os_open=os.open, close=os.close, read=os.read, write=os.write,
        lseek=os.lseek, fsync=os.fsync, fdatasync=os.fdatasync, ftruncate=os.ftruncate,
        truncate=os.truncate, rename=os.rename, replace=os.replace, unlink=os.unlink,
        remove=os.remove, mkdir=os.mkdir, rmdir=os.rmdir, stat=os.stat, lstat=os.lstat,
        fstat=os.fstat, listdir=os.listdir, scandir=os.scandir, access=os.access,
        chmod=os.chmod, utime=os.utime, link=os.link, symlink=os.symlink, getpid=os.getpid,
    )
    builtins.open = _sim_open
    io.open = _sim_open

    def os_open(path, flags, mode=0o777, *, dir_fd=None):
        fs = _active(path)
        if fs is None or dir_fd is not None:
            return R["os_open"](path, flags, mode, dir_fd=dir_fd)
        return _os_open_covered(fs, os.fspath(path), flags, mode)

    def os_close(fd):
        fs = FS
        if fs is not None and fd in fs.fds:
            ent = fs.fds.get(fd)
            sim = engine.SIM
            if sim is not None and sim.current is not None:
                try:
                    if R["fstat"](fd).st_size:
                        fs.op("close", ent[0])
                finally:
                    fs.fds.pop(fd, None)
                    R["close"](fd)
                return None
        return R["close"](fd)

    def os_write(fd, data):
        fs = FS
        if fs is not None and engine.SIM is not None and fd in fs.fds:
            return _write(fs, fd, fs.fds[fd][0], bytes(data))
        return R["write"](fd, data)

    def os_read(fd, n):
        fs = FS
        if fs is not None and engine.SIM is not None and fd in fs.fds:
            fs.op("read", fs.fds[fd][0], str(n))
        return R["read"](fd, n)

    def make_fsync(name):
        def f(fd):
            fs = FS
            if hasattr(fd, "fileno"):
                fd = fd.fileno()
            sim = engine.SIM
            if fs is None or sim is None or sim.current is None:
                return R[name](fd)
            path = fs.fds[fd][0] if fd in fs.fds else None
            if path is None:
                for h in fs.open_handles.values():
                    if h._fd == fd:
                        path = h._path
                        break
            if path is None:
                return R[name](fd)
            st = R["fstat"](fd)
            if stat_mod.S_ISDIR(st.st_mode):
                fs.op("fsync_dir", path)
                fs.journal = []
                return None
            node = fs.ino(fd)
            try:
                fs.op("fsync", path)
            except OSError:
                node.unflushed = True
                raise
            node.unflushed = False
            with R["open"](f"/proc/self/fd/{fd}", "rb") as fh:
                node.durable = fh.read()
            node.dirty = False
            return None

        return f

    def make_rename(name):
        def f(src, dst, *, src_dir_fd=None, dst_dir_fd=None):
            fs = _active(dst) or _active(src)
            if fs is None or src_dir_fd is not None or dst_dir_fd is not None:
                return R[name](src, dst, src_dir_fd=src_dir_fd, dst_dir_fd=dst_dir_fd)
            s, d = os.fspath(src), os.fspath(dst)
            fs.op("rename", d, f"<- {fs.label(s)}")
            old = fs.snapshot(d)
            R[name](s, d)
            fs.journal.append(("rename", s, d, old))
            fs.maker[fs.rel(d)] = engine.SIM.current.proc.key
            fs.writes_log.append((engine.SIM.current.proc.key, "rename", fs.label(d)))
            return None

        return f

    def make_unlink(name):
        def f(path, *, dir_fd=None):
            fs = _active(path) if dir_fd is None else None
            if fs is None:
                return R[name](path, dir_fd=dir_fd)
            p = os.fspath(path)
            fs.op("unlink", p)
            old = fs.snapshot(p)
            R[name](p)
            fs.journal.append(("unlink", p, old))
            fs.writes_log.append((engine.SIM.current.proc.key, "unlink", fs.label(p)))
            return None

        return f

    def os_mkdir(path, mode=0o777, *, dir_fd=None):
        fs = _active(path) if dir_fd is None else None
        if fs is None:
            return R["mkdir"](path, mode, dir_fd=dir_fd)
        fs.op("mkdir", path)
        R["mkdir"](path, mode)
        fs.journal.append(("mkdir", os.fspath(path)))
        return None

    def os_rmdir(path, *, dir_fd=None):
        fs = _active(path) if dir_fd is None else None
        if fs is None:
            return R["rmdir"](path, dir_fd=dir_fd)
        fs.op("rmdir", path)
        R["rmdir"](path)
        fs.journal.append(("rmdir", os.fspath(path)))
        return None

    def make_stat(name):
        real = R[name]

        def f(path, *args, **kw):
            fs = _active(path) if not kw.get("dir_fd") else None
            if fs is not None:
                fs.op("stat", path)
            return real(path, *args, **kw)

        return f

    def os_listdir(path="."):
        fs = _active(path)
        if fs is not None:
            fs.op("listdir", path)
            return sorted(R["listdir"](path))
        return R["listdir"](path)

    def os_truncate(path, length):
        fs = _active(path)
        if fs is None:
            return R["truncate"](path, length)
        fs.op("truncate", path, str(length))
        n = fs.ino_path(path)
        if n is not None:
            n.dirty = True
        return R["truncate"](path, length)

    def os_ftruncate(fd, length):
        fs = FS
        if fs is not None and engine.SIM is not None and fd in fs.fds:
            fs.op("truncate", fs.fds[fd][0], str(length))
            fs.ino(fd).dirty = True
        return R["ftruncate"](fd, length)

    def os_link(src, dst, **kw):
        fs = _active(dst)
        if fs is None:
            return R["link"](src, dst, **kw)
        fs.op("link", dst)
        R["link"](src, dst, **kw)
        fs.journal.append(("create", os.fspath(dst)))
        return None

    def os_access(path, mode, **kw):
        fs = _active(path)
        if fs is not None:
            fs.op("stat", path)
        return R["access"](path, mode, **kw)

    def os_getpid():
        sim = engine.SIM
        if sim is not None and sim.current is not None:
            return sim.current.proc.pid
        return R["getpid"]()

    os.open, os.close, os.write, os.read = os_open, os_close, os_write, os_read
    os.fsync, os.fdatasync = make_fsync("fsync"), make_fsync("fdatasync")
    os.rename, os.replace = make_rename("rename"), make_rename("replace")
    os.unlink, os.remove = make_unlink("unlink"), make_unlink("remove")
    os.mkdir, os.rmdir = os_mkdir, os_rmdir
    os.stat, os.lstat = make_stat("stat"), make_stat("lstat")
    os.listdir, os.truncate, os.ftruncate = os_listdir, os_truncate, os_ftruncate
    os.link, os.access, os.getpid = os_link, os_access, os_getpid

    import shutil

    shutil._USE_CP_SENDFILE = False
    if hasattr(shutil, "_USE_CP_COPY_FILE_RANGE"):
        shutil._USE_CP_COPY_FILE_RANGE = False
    import pathlib

    # pathlib keeps references taken at import
    assert pathlib.os is os


def _lexists(path):
    try:
        R["lstat"](path)
        return True
    except OSError:
        return False
