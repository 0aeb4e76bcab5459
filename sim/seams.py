"""The seams: file system, HDF5, network, clock, randomness, process identity and locks.

Installed once per worker process.  Each patched function passes straight through unless it is called
on the thread of a simulated task; there it becomes a step of the simulation (a possible switch point
and fault point).  File operations act on a real scratch directory below the world's root.
"""
import builtins
import errno
import fcntl
import gzip  # noqa: F401  (make sure it is loaded before the patch)
import io
import os
import posixpath
import random
import shutil
import stat as statmod
import sys
import tarfile
import tempfile
import threading
import time
import uuid  # noqa: F401
import weakref
import zipfile  # noqa: F401

from .engine import Bypass, SimCrash, TASKS, cur

real = {}
_get_ident = threading.get_ident

CRASH = [("crash",), ("kbd",)]
OPT = {
    "open_r": [("errno:EIO",), ("errno:EACCES",), ("errno:EMFILE",), ("mem",)] + CRASH,
    "open_w": [("errno:ENOSPC",), ("errno:EIO",), ("errno:EACCES",), ("errno:EROFS",), ("errno:EMFILE",), ("mem",)] + CRASH,
    "write": [("errno:ENOSPC",), ("errno:EIO",), ("torn:ENOSPC",), ("torn:EIO",), ("short",), ("torncrash",)] + CRASH,
    "read": [("errno:EIO",), ("errno:ESTALE",), ("short",), ("mem",)] + CRASH,
    "close_w": [("errno:EIO",), ("errno:EDQUOT",)] + CRASH,
    "replace": [("errno:EIO",), ("errno:EACCES",), ("errno:ENOSPC",)] + CRASH,
    "unlink": [("errno:EIO",), ("errno:EACCES",), ("errno:EBUSY",)] + CRASH,
    "mkdir": [("errno:EIO",), ("errno:EACCES",), ("errno:ENOSPC",)] + CRASH,
    "stat": [("errno:EIO",), ("errno:EACCES",)] + CRASH,
    "listdir": [("errno:EIO",), ("errno:EACCES",)] + CRASH,
    "meta": [("errno:EIO",), ("errno:EPERM",)] + CRASH,
    "net.connect": [("net:refuse",), ("net:timeout",), ("net:dns",), ("net:404",), ("net:403",), ("net:429",),
                    ("net:500",), ("net:503",), ("net:html",), ("net:empty",), ("net:reset",)] + CRASH,
    "net.read": [("net:reset",), ("net:timeout",), ("net:eof",), ("short",), ("mem",)] + CRASH,
    "h5.write": [("h5err:ENOSPC",), ("h5err:EIO",), ("crash",), ("kbd",)],
    "h5": CRASH,
    "compute": [("mem",), ("kbd",), ("crash",)],
}
KINDS = sorted({o[0].split(":")[0] for v in OPT.values() for o in v})
MUTATING = ("open_w", "write", "replace", "unlink", "mkdir", "meta", "close_w", "h5.write")


# ------------------------------------------------------------------------------ path helpers
def _abspath(path, dir_fd=None):
    """Absolute path of a call's argument, or None for file descriptors."""
    if isinstance(path, int):
        return None
    path = os.fspath(path)
    if isinstance(path, bytes):
        path = os.fsdecode(path)
    if not path.startswith("/"):
        base = real["readlink"]("/proc/self/fd/%d" % dir_fd) if dir_fd is not None else os.getcwd()
        path = posixpath.join(base, path)
    return posixpath.normpath(path) if "/.." not in path else path


def _inside(w, path):
    return path is not None and (path.startswith(w.prefix) or path == w.root)


def _resolve(path, follow):
    """Where an operation on *path* really lands."""
    with Bypass():
        if follow:
            return os.path.realpath(path)
        head, tail = posixpath.split(path)
        return posixpath.join(os.path.realpath(head), tail)


def _guard(t, path, what, follow=False):
    """A mutating operation must land inside the world; otherwise it is recorded and refused."""
    w = t.world
    if path in ("/dev/null", "/dev/tty", "/dev/stderr", "/dev/stdout"):
        return
    land = _resolve(path, follow)
    if not _inside(w, land):
        w.escapes.append((what, land))
        w.note("%s ESCAPE %s %s" % (t.name, what, w.rel(path)))
        raise PermissionError(errno.EPERM, "simulated machine: outside of the world", path)


def _stamp(w, path_or_fd):
    """Give written files a modification time of the simulated clock (with its granularity)."""
    g = w.knobs.get("mtime_granularity", 1e-6)
    ns = int(int(w.clock / g) * g * 1e9)
    try:
        real["utime"](path_or_fd, ns=(ns, ns))
    except OSError:
        pass


def _full(w, n=0):
    return w.faults_on and w.disk_left is not None and w.disk_left <= n


# ------------------------------------------------------------------------------ simulated files
class SimRaw(io.FileIO):
    """Raw file of a simulated process: every transfer is a step."""

    def __init__(self, t, file, mode, closefd=True, opener=None, path=None, h5=False):
        super().__init__(file, mode, closefd, opener)
        self.w, self.proc, self.path, self.h5 = t.world, t.proc, path, h5
        self.wrote = self.writable()
        self.lost = None
        if self.wrote:
            _stamp(self.w, self.fileno())

    def _t(self):
        t = cur()
        if t is None or t.world is not self.w:
            return None
        return t

    def readinto(self, b):
        t = self._t()
        if t is None or t.proc.dead:
            return super().readinto(b)
        f = self.w.step(t, "read", self.path, OPT["read"], switch=not self.h5)
        if f is not None and f[0] == "short" and len(b) > 1 and not self.h5:
            with memoryview(b).cast("B") as m:
                return super().readinto(m[:max(1, len(m) * f[1] // 1000)])
        return super().readinto(b)

    def readall(self):
        out = []
        while True:
            b = bytearray(65536)
            n = self.readinto(b)
            if not n:
                return b"".join(out)
            out.append(bytes(b[:n]))

    def read(self, size=-1):
        if size is None or size < 0:
            return self.readall()
        b = bytearray(size)
        n = self.readinto(b)
        return bytes(b[:n])

    def write(self, b):
        t = self._t()
        if t is None:
            if self.proc.dead:
                return len(b)
            return super().write(b)
        if t.proc.dead:
            return memoryview(b).nbytes
        w = self.w
        if self.h5:
            return self._h5write(t, b)
        f = w.step(t, "write", self.path, OPT["write"])
        m = memoryview(b).cast("B")
        n = len(m)
        if w.disk_left is not None and w.faults_on:
            if n > w.disk_left:
                part = max(0, w.disk_left)
                w.disk_left = 0
                w.fault_counts["diskfull"] += 1
                if part:
                    self._put(m[:part])
                    w.mutated(self.path)
                raise OSError(errno.ENOSPC, os.strerror(errno.ENOSPC))
            w.disk_left -= n
        if f is None:
            self._put(m)
        else:
            part = n * f[1] // 1000
            if f[0] == "short":
                part = max(1, part) if n else 0
                self._put(m[:part])
                w.mutated(self.path)
                return part
            if part:
                self._put(m[:part])
            w.mutated(self.path)
            if f[0] == "torncrash":
                t.proc.dead = True
                raise SimCrash()
            e = getattr(errno, f[0].split(":")[1])
            raise OSError(e, os.strerror(e))
        w.mutated(self.path)
        return n

    def _h5write(self, t, b):
        """HDF5 writes: the driver callback never fails (the library cannot cope, see DESIGN.md);
        an injected error loses this and all later writes and surfaces when the file is closed,
        or kills the process (what the real library does on failed raw-data writes)."""
        w = self.w
        n = memoryview(b).nbytes
        if self.lost is not None:
            return n
        f = w.step(t, "h5.write", self.path, OPT["h5.write"], switch=False)
        if t.proc.dead:
            return n
        if _full(w, n):
            w.fault_counts["diskfull"] += 1
            self.lost = errno.ENOSPC
            return n
        if w.disk_left is not None:
            w.disk_left -= n
        if f is not None and f[0].startswith("h5err"):
            self.lost = getattr(errno, f[0].split(":")[1])
            return n
        self._put(memoryview(b).cast("B"))
        w.mutated(self.path)
        return n

    def _put(self, m):
        while len(m):
            k = super().write(m)
            m = m[k:]
        _stamp(self.w, self.fileno())

    def truncate(self, size=None):
        t = self._t()
        if t is None:
            if self.proc.dead:
                return self.tell() if size is None else size
            return super().truncate(size)
        if t.proc.dead or self.lost is not None:
            return self.tell() if size is None else size
        if not self.h5:
            self.w.step(t, "meta", self.path, OPT["meta"])
        r = super().truncate(size)
        self.w.mutated(self.path)
        return r

    def close(self):
        if self.closed:
            return
        t = self._t()
        try:
            if t is not None and not t.proc.dead and self.wrote and not self.h5 and not sys.is_finalizing():
                self.w.step(t, "close_w", self.path, OPT["close_w"])
        finally:
            super().close()


def sim_open(file, mode="r", buffering=-1, encoding=None, errors=None, newline=None, closefd=True, opener=None):
    t = cur()
    if t is None:
        return real["open"](file, mode, buffering, encoding, errors, newline, closefd, opener)
    w = t.world
    writing = any(c in mode for c in "wax+")
    if isinstance(file, int):
        try:
            path = real["readlink"]("/proc/self/fd/%d" % file)
        except OSError:
            path = None
        if not _inside(w, path):
            return real["open"](file, mode, buffering, encoding, errors, newline, closefd, opener)
    else:
        path = _abspath(file)
        if writing:
            _guard(t, path, "open(%s)" % mode, follow=True)
        if not _inside(w, path) and path not in w.extra_read_paths:
            return real["open"](file, mode, buffering, encoding, errors, newline, closefd, opener)
    if not isinstance(file, int):
        w.step(t, "open_w" if writing else "open_r", path, OPT["open_w" if writing else "open_r"])
        if writing and _full(w):
            w.fault_counts["diskfull"] += 1
            raise OSError(errno.ENOSPC, os.strerror(errno.ENOSPC), path)
    binary = "b" in mode
    if binary and "t" in mode:
        raise ValueError("can't have text and binary mode at once")
    rawmode = mode.replace("b", "").replace("t", "").replace("U", "")
    raw = SimRaw(t, file, rawmode, closefd, opener, path)
    if writing:
        w.mutated(path)
    if buffering == 0:
        if not binary:
            raw.close()
            raise ValueError("can't have unbuffered text I/O")
        return raw
    bufsize = buffering if buffering > 1 else w.knobs.get("bufsize", io.DEFAULT_BUFFER_SIZE)
    if "+" in rawmode:
        buf = io.BufferedRandom(raw, bufsize)
    elif writing:
        buf = io.BufferedWriter(raw, bufsize)
    else:
        buf = io.BufferedReader(raw, bufsize)
    if binary:
        return buf
    text = io.TextIOWrapper(buf, encoding, errors, newline, buffering == 1)
    text.mode = mode
    return text


# ------------------------------------------------------------------------------ os functions
def _simple(name, kind, mutating, follow=False):
    orig = getattr(os, name)
    real[name] = orig

    def fn(path, *args, **kw):
        t = cur()
        if t is None:
            return orig(path, *args, **kw)
        w = t.world
        p = _abspath(path, kw.get("dir_fd"))
        if mutating and p is not None:
            _guard(t, p, name, follow)
        if not _inside(w, p) and not (p is not None and p in w.extra_read_paths):
            return orig(path, *args, **kw)
        w.step(t, kind, p, OPT[kind])
        if mutating and kind == "mkdir" and _full(w):
            w.fault_counts["diskfull"] += 1
            raise OSError(errno.ENOSPC, os.strerror(errno.ENOSPC), p)
        if name in ("mknod", "mkfifo"):      # never made for real: an empty file stands in for it
            os.close(real["os_open"](path, os.O_CREAT | os.O_EXCL | os.O_WRONLY, 0o600, dir_fd=kw.get("dir_fd")))
            r = None
        else:
            r = orig(path, *args, **kw)
        if mutating:
            w.mutated(p)
        return r
    fn.__name__ = name
    fn.__wrapped__ = orig
    return fn


def _device(w, p):
    """The simulated file system of path p: one for all, the system's temporary directory apart, or one per top directory."""
    k = w.knobs.get("devices", "one")
    top = (w.rel(_resolve(p, False)) or "").lstrip("/").split("/")[0]
    return top if k == "many" or (k == "tmp" and top == "tmp") else ""


def _two(name, first_is_target=False):
    orig = getattr(os, name)
    real[name] = orig

    def fn(src, dst, *args, **kw):
        t = cur()
        if t is None:
            return orig(src, dst, *args, **kw)
        w = t.world
        d = _abspath(dst, kw.get("dst_dir_fd", kw.get("dir_fd")))
        s = None
        if name in ("rename", "replace", "link"):
            s = _abspath(src, kw.get("src_dir_fd"))
            if name != "link":
                _guard(t, s, name + "(source)")
            elif not _inside(w, _resolve(s, True)):
                w.escapes.append(("link(source)", s))
                raise PermissionError(errno.EPERM, "simulated machine: outside of the world", s)
        _guard(t, d, name)
        w.step(t, "replace", d, OPT["replace"])
        if s is not None and _device(w, s) != _device(w, d):
            w.fault_counts["EXDEV"] += 1
            raise OSError(errno.EXDEV, os.strerror(errno.EXDEV), s, None, d)
        r = orig(src, dst, *args, **kw)
        if s is not None:
            w.mutated(s)
        w.mutated(d)
        return r
    fn.__name__ = name
    fn.__wrapped__ = orig
    return fn


def sim_os_open(path, flags, mode=0o777, *, dir_fd=None):
    t = cur()
    if t is None:
        return real["os_open"](path, flags, mode, dir_fd=dir_fd)
    w = t.world
    p = _abspath(path, dir_fd)
    writing = flags & (os.O_WRONLY | os.O_RDWR | os.O_CREAT | os.O_TRUNC)
    if writing:
        _guard(t, p, "os.open", follow=True)
    if not _inside(w, p):
        return real["os_open"](path, flags, mode, dir_fd=dir_fd)
    k = "open_w" if writing else "open_r"
    w.step(t, k, p, OPT[k])
    if writing and _full(w):
        raise OSError(errno.ENOSPC, os.strerror(errno.ENOSPC), p)
    fd = real["os_open"](path, flags, mode, dir_fd=dir_fd)
    if writing:
        w.mutated(p)
    return fd


def sim_os_write(fd, data):
    t = cur()
    if t is None:
        return real["write"](fd, data)
    try:
        p = real["readlink"]("/proc/self/fd/%d" % fd)
    except OSError:
        p = None
    if not _inside(t.world, p):
        return real["write"](fd, data)
    w = t.world
    f = w.step(t, "write", p, OPT["write"])
    if _full(w, len(data)):
        w.fault_counts["diskfull"] += 1
        raise OSError(errno.ENOSPC, os.strerror(errno.ENOSPC))
    n = len(data)
    part = n if f is None else n * f[1] // 1000
    if f is not None and f[0] == "short":
        part = max(1, part)
    if part:
        real["write"](fd, bytes(data)[:part])
        _stamp(w, fd)
    w.mutated(p)
    if f is not None and f[0] == "torncrash":
        t.proc.dead = True
        raise SimCrash()
    if f is not None and f[0].startswith("torn:"):
        e = getattr(errno, f[0].split(":")[1])
        raise OSError(e, os.strerror(e))
    return part


class _ScanDir:
    def __init__(self, entries):
        self.it = iter(entries)

    def __iter__(self):
        return self

    def __next__(self):
        return next(self.it)

    def __enter__(self):
        return self

    def __exit__(self, *a):
        pass

    def close(self):
        pass


def _dirkey(name):
    return name if isinstance(name, str) else os.fsdecode(name)


def _shuffled(w, p, entries, key):
    entries = sorted(entries, key=lambda e: _dirkey(key(e)))
    random.Random("%s|%s" % (w.knobs.get("dirseed", 0), w.rel(p))).shuffle(entries)
    return entries


def sim_scandir(path="."):
    t = cur()
    if t is None:
        return real["scandir"](path)
    w = t.world
    p = _abspath(path) if not isinstance(path, int) else real["readlink"]("/proc/self/fd/%d" % path)
    if not _inside(w, p):
        return real["scandir"](path)
    w.step(t, "listdir", p, OPT["listdir"])
    with real["scandir"](path) as it:
        return _ScanDir(_shuffled(w, p, list(it), lambda e: e.name))


def sim_listdir(path="."):
    t = cur()
    if t is None:
        return real["listdir"](path)
    w = t.world
    p = _abspath(path) if not isinstance(path, int) else real["readlink"]("/proc/self/fd/%d" % path)
    if not _inside(w, p):
        return real["listdir"](path)
    w.step(t, "listdir", p, OPT["listdir"])
    return _shuffled(w, p, real["listdir"](path), lambda e: e)


# ------------------------------------------------------------------------------ time, identity, randomness
def _time_fn(name):
    orig = getattr(time, name)
    real["time." + name] = orig
    ns = name.endswith("_ns")

    def fn():
        t = cur()
        if t is None:
            return orig()
        return int(t.world.clock * 1e9) if ns else t.world.clock
    return fn


def sim_sleep(secs):
    t = cur()
    if t is None:
        return real["time.sleep"](secs)
    w = t.world
    w.step(t, "sleep", None, CRASH)
    w.block(t, wake=w.clock + max(0.0, float(secs)))


def sim_getpid():
    t = cur()
    return real["getpid"]() if t is None else t.proc.pid


def sim_urandom(n):
    t = cur()
    if t is None:
        return real["urandom"](n)
    return t.world.rng_noise.randbytes(n)


class _Names:
    """Deterministic tempfile candidate names, unique per simulated process."""

    def __init__(self, proc):
        self.proc = proc

    def __iter__(self):
        return self

    def __next__(self):
        self.proc.names += 1
        return "%sx%dx" % (self.proc.name.lower(), self.proc.names)


def sim_candidate_names():
    t = TASKS.get(_get_ident())
    if t is None:
        return real["candidate_names"]()
    return _Names(t.proc)


# ------------------------------------------------------------------------------ locks
class SimLock:
    """threading.Lock/RLock created by simulated code: waiting is a scheduling decision."""

    def __init__(self, reentrant=False):
        self.owner, self.count, self.re = None, 0, reentrant
        self.real = threading._RLock() if False else None

    def acquire(self, blocking=True, timeout=-1):
        t = TASKS.get(_get_ident())
        if t is None:
            self.owner, self.count = "host", self.count + 1
            return True
        if self.owner is t and self.re:
            self.count += 1
            return True
        if not t.bypass:
            t.world.step(t, "lock", None)
        if self.owner is not None:
            if not blocking:
                return False
            t.world.block(t, cond=lambda: self.owner is None)
        self.owner, self.count = t, 1
        return True

    def release(self):
        self.count -= 1
        if self.count <= 0:
            self.owner = None
            self.count = 0

    def locked(self):
        return self.owner is not None

    def __enter__(self):
        self.acquire()
        return self

    def __exit__(self, *a):
        self.release()


def _lock_factory(orig, re):
    def make(*a, **kw):
        t = TASKS.get(_get_ident())
        if t is not None:
            f = sys._getframe(1)
            if "/pyspectral/" in f.f_code.co_filename:
                return SimLock(re)
        return orig(*a, **kw)
    return make


def _sim_flock(orig):
    def fn(fd, cmd, *a):
        t = cur()
        if t is None:
            return orig(fd, cmd, *a)
        w = t.world
        n = fd if isinstance(fd, int) else fd.fileno()
        st = real["fstat"](n)
        key = (st.st_dev, st.st_ino)
        table = w.__dict__.setdefault("flocks", {})
        holders = table.setdefault(key, {})
        w.step(t, "flock", None, CRASH)
        me = (t.proc, n)
        if cmd & fcntl.LOCK_UN:
            holders.pop(me, None)
            return None
        ex = bool(cmd & fcntl.LOCK_EX)

        def free():
            for h in list(holders):
                if h[0].dead or not _fd_open(h[1], key):
                    holders.pop(h)
            return not any(h != me and (ex or v) for h, v in holders.items())
        if not free():
            if cmd & fcntl.LOCK_NB:
                raise BlockingIOError(errno.EAGAIN, os.strerror(errno.EAGAIN))
            w.block(t, cond=free)
        holders[me] = ex
        return None
    return fn


def _fd_open(fd, key):
    try:
        st = real["fstat"](fd)
    except OSError:
        return False
    return (st.st_dev, st.st_ino) == key


# ------------------------------------------------------------------------------ HDF5
def _h5lock(t, path, mode):
    """The locks HDF5 takes on the files it has open: shared for reading, exclusive for writing, never waiting."""
    with Bypass():
        st = os.stat(path)
    held = [(r, p, wr) for r, p, wr in t.world.h5files.get((st.st_dev, st.st_ino), ())
            if not p.dead and r() is not None and not r().closed]
    t.world.h5files[st.st_dev, st.st_ino] = held
    writing = mode != "r"
    verb = "create" if mode == "w" else "open"
    if any(p is not t.proc and (writing or wr) for _, p, wr in held):
        t.world.probe("h5_lock_conflict")
        raise BlockingIOError(errno.EAGAIN, "Unable to synchronously %s file (unable to lock file, errno = 11, error message = "
                              "'Resource temporarily unavailable')" % verb)
    if any(p is t.proc and (mode == "w" or writing and not wr) for _, p, wr in held):
        raise OSError("Unable to synchronously %s file (%s)" % (
            verb, "unable to truncate a file which is already open" if mode == "w" else "file is already open for read-only"))


def _install_h5py():
    import h5py
    from h5py._hl.base import phil

    from . import engine
    if hasattr(phil, "_is_owned"):
        engine.phil_owned = phil._is_owned
    base = h5py.File
    real["h5py.File"] = base

    class SimH5File(base):
        _raw = None

        def __init__(self, name, mode="r", *args, **kw):
            t = cur()
            path = None
            if t is not None and isinstance(name, (str, bytes, os.PathLike)) and not args and kw.get("driver") is None:
                path = _abspath(name)
                if not _inside(t.world, path):
                    if mode != "r":
                        _guard(t, path, "h5py.File(%s)" % mode, follow=True)
                    path = None
            if path is None:
                super().__init__(name, mode, *args, **kw)
                return
            w = t.world
            writing = mode != "r"
            if writing:
                _guard(t, path, "h5py.File(%s)" % mode, follow=True)
            k = "open_w" if writing else "open_r"
            w.step(t, k, path, OPT[k])
            if writing and _full(w):
                w.fault_counts["diskfull"] += 1
                raise OSError(errno.ENOSPC, os.strerror(errno.ENOSPC), path)
            with Bypass():
                exists = os.path.exists(path)
                isdir = os.path.isdir(path)
            if mode in ("r", "r+") and not exists:
                raise FileNotFoundError(errno.ENOENT, "[Errno 2] Unable to synchronously open file (unable to open "
                                        "file: name = '%s', errno = 2)" % path)
            if isdir:
                raise OSError(errno.EISDIR, os.strerror(errno.EISDIR), path)
            if exists:
                _h5lock(t, path, mode)
            m = {"r": "rb", "r+": "rb+", "w": "wb+", "w-": "xb+", "x": "xb+",
                 "a": "rb+" if exists else "wb+"}[mode].replace("b", "")
            raw = SimRaw(t, path, m, path=path, h5=True)
            st = real["fstat"](raw.fileno())
            w.h5files.setdefault((st.st_dev, st.st_ino), []).append((weakref.ref(raw), t.proc, writing))
            if writing:
                w.mutated(path)
            t.h5depth += 1
            try:
                hm = "r+" if mode == "a" and exists else ("w" if writing and mode != "r+" else mode)
                super().__init__(raw, hm, **kw)
                self._simraw = raw
            except BaseException:
                t.h5depth -= 1
                try:
                    raw.close()
                finally:
                    t.h5depth += 1
                raise
            finally:
                t.h5depth -= 1
                _after(t)

        def close(self):
            raw = getattr(self, "_simraw", None)
            t = cur()
            if raw is None or t is None:
                super().close()
                if raw is not None:
                    raw.close()
                return
            if not t.proc.dead and self.id and not t.h5depth:
                try:
                    t.world.step(t, "h5", raw.path, OPT["h5"] if raw.wrote else ())
                except BaseException:
                    # an exception instead of the close: the object is closed later without more ado
                    dead, raw.lost = t.proc.dead, errno.EINTR
                    with _Depth(t):
                        super().close()
                    raw.close()
                    raise
            with _Depth(t):
                super().close()
            lost, raw.lost = raw.lost, None
            raw.close()
            if lost:
                raise RuntimeError("Can't decrement id ref count (file write failed: errno = %d, error message = '%s')"
                                   % (lost, os.strerror(lost)))
            _after(t)

        def __exit__(self, *args):
            if self.id:
                self.close()

    SimH5File.__name__ = "File"
    SimH5File.__qualname__ = "File"
    h5py.File = SimH5File

    def wrap(cls, name, err=OSError, kind="h5"):
        orig = getattr(cls, name)

        def method(self, *a, **kw):
            t = cur()
            if t is None or t.h5depth:
                return orig(self, *a, **kw)
            if t.proc.dead:
                raise SimCrash()
            t.world.step(t, kind, None, OPT["h5"])
            with _Depth(t):
                try:
                    r = orig(self, *a, **kw)
                except OSError as e:
                    if err is OSError:
                        raise
                    raise err("Unable to synchronously open object (file read failed: %s)" % e) from None
            _after(t)
            return r
        method.__name__ = name
        setattr(cls, name, method)

    # exception classes as observed with the real driver, see DESIGN.md
    wrap(h5py.Group, "__getitem__", KeyError)
    wrap(h5py.Group, "__contains__", RuntimeError)
    wrap(h5py.Group, "create_group")
    wrap(h5py.Group, "create_dataset")
    wrap(h5py.Group, "__setitem__")
    wrap(h5py.Dataset, "__getitem__")
    wrap(h5py.Dataset, "__setitem__")
    wrap(h5py.AttributeManager, "__getitem__")
    wrap(h5py.AttributeManager, "__contains__", RuntimeError)
    wrap(h5py.AttributeManager, "__setitem__")


class _Depth:
    def __init__(self, t):
        self.t = t

    def __enter__(self):
        self.t.h5depth += 1

    def __exit__(self, *a):
        self.t.h5depth -= 1


def _after(t):
    """Raise what was injected while the HDF5 library was running."""
    if t.h5depth:
        return
    if t.proc.dead:
        raise SimCrash()
    p = getattr(t, "pending_exc", None)
    if p is not None:
        t.pending_exc = None
        raise p()


# ------------------------------------------------------------------------------ installation
_installed = False


def install():
    """Patch this (worker) process."""
    global _installed
    if _installed:
        return
    _installed = True
    real["open"] = builtins.open
    real["readlink"] = os.readlink
    real["fstat"] = os.fstat
    for name, kind, mut, follow in (
            ("stat", "stat", False, False), ("lstat", "stat", False, False), ("access", "stat", False, False),
            ("unlink", "unlink", True, False), ("remove", "unlink", True, False), ("rmdir", "unlink", True, False),
            ("mkdir", "mkdir", True, False), ("chmod", "meta", True, True), ("utime", "meta", True, True),
            ("chown", "meta", True, True), ("lchown", "meta", True, False), ("truncate", "meta", True, True),
            ("mkfifo", "mkdir", True, False), ("mknod", "mkdir", True, False)):
        fn = _simple(name, kind, mut, follow)
        setattr(os, name, fn)
    # functions whose support for dir_fd / fd / follow_symlinks is looked up in these sets
    for s in ("supports_dir_fd", "supports_fd", "supports_follow_symlinks"):
        st = getattr(os, s)
        for name in list(real):
            if real[name] in st and hasattr(os, name):
                st.add(getattr(os, name))
    for name in ("rename", "replace", "link", "symlink"):
        orig = getattr(os, name)
        fn = _two(name)
        setattr(os, name, fn)
        for s in ("supports_dir_fd", "supports_follow_symlinks"):
            if orig in getattr(os, s):
                getattr(os, s).add(fn)
    real["os_open"] = os.open
    os.open = sim_os_open
    os.supports_dir_fd.add(sim_os_open)
    real["write"] = os.write
    os.write = sim_os_write
    real["scandir"] = os.scandir
    os.scandir = sim_scandir
    os.supports_fd.add(sim_scandir)
    real["listdir"] = os.listdir
    os.listdir = sim_listdir
    real["getpid"] = os.getpid
    os.getpid = sim_getpid
    real["urandom"] = os.urandom
    os.urandom = sim_urandom
    random._urandom = sim_urandom
    builtins.open = sim_open
    io.open = sim_open
    tarfile.bltn_open = sim_open
    import numpy.lib._datasource as ds
    try:
        ds._file_openers._load()
        ds._file_openers._file_openers[None] = sim_open
    except AttributeError:
        pass
    shutil._USE_CP_SENDFILE = False
    real["candidate_names"] = tempfile._get_candidate_names
    tempfile._get_candidate_names = sim_candidate_names
    for n in ("time", "monotonic", "perf_counter", "time_ns", "monotonic_ns", "perf_counter_ns"):
        setattr(time, n, _time_fn(n))
    real["time.sleep"] = time.sleep
    time.sleep = sim_sleep
    threading.Lock = _lock_factory(threading.Lock, False)
    threading.RLock = _lock_factory(threading.RLock, True)
    fcntl.flock = _sim_flock(fcntl.flock)
    fcntl.lockf = _sim_flock(fcntl.lockf)
    _install_h5py()
    from . import net
    net.install()
    hook = sys.unraisablehook

    def quiet(u):
        if isinstance(u.exc_value, (SimCrash, KeyboardInterrupt, OSError, RuntimeError)) or TASKS:
            return
        hook(u)
    sys.unraisablehook = quiet
    threading.excepthook = lambda a: None
    assert statmod
