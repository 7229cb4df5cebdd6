"""Seams: every source of nondeterminism the toolbox could meet, under our control.

install() has to run after numpy/scipy/matplotlib were imported (their own use of
locks and clocks stays real, they are not the system under test) and before the
toolbox is imported, so that a lock or a clock the toolbox binds at import is ours.
"""
import builtins
import errno
import io
import os
import random
import sys
import threading
import time

import numpy as np

REAL = {
    "Lock": threading.Lock,
    "RLock": threading.RLock,
    "open": builtins.open,
    "ioopen": io.open,
    "osopen": os.open,
    "replace": os.replace,
    "rename": os.rename,
    "urandom": os.urandom,
    "time": time.time,
    "monotonic": time.monotonic,
    "perf_counter": time.perf_counter,
    "sleep": time.sleep,
    "time_ns": time.time_ns,
    "monotonic_ns": time.monotonic_ns,
    "perf_counter_ns": time.perf_counter_ns,
}

TOOLBOX_ROOT = None  # set by world.boot


# ---------------------------------------------------------------------------
# virtual clock
class Clock:
    """Virtual time: moves by a tick per simulated step and by injected jumps."""

    def __init__(self):
        self.active = False
        self.now = 1.0e9
        self.tick = 1e-6
        self.jumps = 0
        self.reads = 0
        self.start = self.now

    def reset(self, base):
        self.active = True
        self.now = float(base)
        self.start = self.now
        self.jumps = 0
        self.reads = 0

    def advance(self, d):
        self.now += d

    def read(self):
        self.reads += 1
        self.now += self.tick
        return self.now


CLOCK = Clock()


def _time():
    return CLOCK.read() if CLOCK.active else REAL["time"]()


def _monotonic():
    return CLOCK.read() if CLOCK.active else REAL["monotonic"]()


def _perf():
    return CLOCK.read() if CLOCK.active else REAL["perf_counter"]()


def _time_ns():
    return int(CLOCK.read() * 1e9) if CLOCK.active else REAL["time_ns"]()


def _mono_ns():
    return int(CLOCK.read() * 1e9) if CLOCK.active else REAL["monotonic_ns"]()


def _perf_ns():
    return int(CLOCK.read() * 1e9) if CLOCK.active else REAL["perf_counter_ns"]()


def _sleep(d):
    if CLOCK.active:
        CLOCK.advance(max(0.0, float(d)))
        if YIELD is not None:
            YIELD("sleep")
    else:
        REAL["sleep"](d)


YIELD = None  # scheduler installs its yield point here


# ---------------------------------------------------------------------------
# entropy
class Entropy:
    def __init__(self):
        self.active = False
        self.rng = random.Random(0)
        self.reads = 0

    def reset(self, seed):
        self.active = True
        self.rng = random.Random(seed)
        self.reads = 0

    def bytes(self, n):
        self.reads += 1
        return self.rng.randbytes(n)


ENTROPY = Entropy()


def _urandom(n):
    return ENTROPY.bytes(n) if ENTROPY.active else REAL["urandom"](n)


def _randbits(k):
    if ENTROPY.active:
        ENTROPY.reads += 1
        return ENTROPY.rng.getrandbits(k)
    return int.from_bytes(REAL["urandom"]((k + 7) // 8), "little") & ((1 << k) - 1)


# ---------------------------------------------------------------------------
# locks: real ones would block the thread that holds the baton
class Deadlock(Exception):
    pass


LOCK_HOST = None  # scheduler: .me(), .block_until(pred)


class SimLock:
    reentrant = False

    def __init__(self):
        self._owner = None
        self._count = 0

    def _me(self):
        return threading.get_ident()

    def acquire(self, blocking=True, timeout=-1):
        me = self._me()
        if self._owner is None or (self.reentrant and self._owner == me):
            self._owner = me
            self._count += 1
            return True
        if not blocking:
            return False
        if timeout is not None and timeout >= 0:
            CLOCK.advance(timeout)
            if LOCK_HOST is not None:
                LOCK_HOST.yield_now()
            if self._owner is None:
                self._owner = me
                self._count = 1
                return True
            return False
        if LOCK_HOST is None:
            raise Deadlock("a lock is taken twice by the only thread there is")
        LOCK_HOST.block_until(lambda: self._owner is None)
        self._owner = me
        self._count = 1
        return True

    def release(self):
        if self._owner is None:
            raise RuntimeError("release unlocked lock")
        self._count -= 1
        if self._count == 0:
            self._owner = None

    def locked(self):
        return self._owner is not None

    def __enter__(self):
        self.acquire()
        return self

    def __exit__(self, *a):
        self.release()

    # what threading.Condition needs
    def _is_owned(self):
        return self._owner == self._me()

    def _release_save(self):
        s = (self._owner, self._count)
        self._owner, self._count = None, 0
        return s

    def _acquire_restore(self, s):
        self.acquire()
        self._owner, self._count = s


class SimRLock(SimLock):
    reentrant = True


def _from_toolbox(depth=12):
    f = sys._getframe(2)
    while f is not None and depth:
        if TOOLBOX_ROOT and f.f_code.co_filename.startswith(TOOLBOX_ROOT):
            return True
        f = f.f_back
        depth -= 1
    return False


def _lock():
    return SimLock() if _from_toolbox() else REAL["Lock"]()


def _rlock():
    return SimRLock() if _from_toolbox() else REAL["RLock"]()


# ---------------------------------------------------------------------------
# disk: files below a scratch directory, with faults
class Disk:
    """Faults on files written below self.root. A fault is a dict
    {"at": "open"|"write"|"close"|"rename", "errno": E, "n": k, "short": bool}
    which strikes the n-th such operation (n from 1); "bytes": b makes write fail
    once b bytes were written (disk full)."""

    def __init__(self):
        self.root = None
        self.plans = {}
        self.reset(None)

    def reset(self, root):
        self.root = None if root is None else os.path.realpath(root)
        self.opens = self.writes = self.closes = self.renames = 0
        self.fault = None
        self.fired = []
        self.bytes = 0
        self.yields = False
        self.plans = {}

    def arm(self, fault):
        """one plan per thread; None disarms"""
        me = threading.get_ident()
        if fault is None:
            self.plans.pop(me, None)
            return None
        p = dict(fault)
        p.update(opens=0, writes=0, closes=0, renames=0, written=0, fired=[])
        self.plans[me] = p
        return p

    def plan(self):
        return self.plans.get(threading.get_ident())

    def inside(self, path):
        if self.root is None:
            return False
        try:
            p = os.fspath(path)
        except TypeError:
            if isinstance(path, int):
                try:
                    p = os.readlink("/proc/self/fd/%d" % path)
                except OSError:
                    return False
            else:
                return False
        if isinstance(p, bytes):
            p = os.fsdecode(p)
        p = os.path.realpath(p)
        return p == self.root or p.startswith(self.root + os.sep)


DISK = Disk()


def _oserr(e, path):
    return OSError(e, os.strerror(e), path if isinstance(path, (str, bytes)) else None)


class SimRaw(io.RawIOBase):
    """A raw file that writes to a real scratch file, unless the plan says otherwise.
    It has no descriptor, so that every byte comes past here."""

    def __init__(self, path, flags_mode, plan):
        self._f = REAL["ioopen"](path, flags_mode, buffering=0)
        self.name = path
        self.mode = flags_mode
        self._plan = plan

    def readable(self):
        return "r" in self.mode or "+" in self.mode

    def writable(self):
        return any(c in self.mode for c in "wax+")

    def seekable(self):
        return True

    def fileno(self):
        raise io.UnsupportedOperation("fileno")

    def isatty(self):
        return False

    def readinto(self, b):
        return self._f.readinto(b)

    def seek(self, *a):
        return self._f.seek(*a)

    def tell(self):
        return self._f.tell()

    def truncate(self, *a):
        return self._f.truncate(*a)

    def write(self, b):
        if DISK.yields and YIELD is not None:
            YIELD("write")
        DISK.writes += 1
        p = self._plan
        n = len(b)
        if p is not None and n:
            p["writes"] += 1
            if p["at"] == "write":
                if "bytes" in p:
                    room = max(0, p["bytes"] - p["written"])
                    if n > room:
                        if room:
                            w = self._f.write(bytes(b)[:room])
                            p["written"] += w
                            p["fired"].append("short")
                            return w
                        p["fired"].append(errno.errorcode[p["errno"]])
                        raise _oserr(p["errno"], self.name)
                elif p["writes"] == p["n"]:
                    if p.get("short") and n > 1:
                        w = self._f.write(bytes(b)[: n // 2])
                        p["fired"].append("short")
                        return w
                    p["fired"].append(errno.errorcode[p["errno"]])
                    raise _oserr(p["errno"], self.name)
        w = self._f.write(b)
        if p is not None:
            p["written"] += w
        DISK.bytes += w
        return w

    def close(self):
        if self.closed:
            return
        p = self._plan
        DISK.closes += 1
        try:
            super().close()
        finally:
            self._f.close()
        if p is not None and p["at"] == "close" and self.writable():
            p["closes"] += 1
            if p["closes"] == p["n"]:
                p["fired"].append("close-" + errno.errorcode[p["errno"]])
                raise _oserr(p["errno"], self.name)


def _sim_open(real, file, mode, buffering, encoding, errors, newline, closefd, opener):
    wr = isinstance(mode, str) and any(c in mode for c in "wax+")
    if not wr or not DISK.inside(file):
        return real(file, mode, buffering, encoding, errors, newline, closefd, opener)
    if DISK.yields and YIELD is not None:
        YIELD("open")
    DISK.opens += 1
    p = DISK.plan()
    if p is not None:
        p["opens"] += 1
        if p["at"] == "open" and p["opens"] == p["n"]:
            p["fired"].append("open-" + errno.errorcode[p["errno"]])
            raise _oserr(p["errno"], file)
    if isinstance(file, int) or opener is not None:
        path = file
    else:
        path = os.fspath(file)
    raw_mode = mode.replace("t", "").replace("b", "") + "b"
    if isinstance(path, int) or opener is not None:
        # a descriptor the caller already opened: keep it real but fault the writes
        raw = SimRaw.__new__(SimRaw)
        io.RawIOBase.__init__(raw)
        raw._f = REAL["ioopen"](
            file, raw_mode, buffering=0, closefd=closefd, opener=opener
        )
        raw.name, raw.mode, raw._plan = file, raw_mode, p
    else:
        raw = SimRaw(path, raw_mode, p)
    if "b" in mode and buffering == 0:
        return raw
    size = io.DEFAULT_BUFFER_SIZE if buffering in (-1, 1) else buffering
    if "+" in mode:
        buf = io.BufferedRandom(raw, size)
    else:
        buf = io.BufferedWriter(raw, size)
    if "b" in mode:
        return buf
    return io.TextIOWrapper(buf, encoding, errors, newline, buffering == 1)


def _open(
    file,
    mode="r",
    buffering=-1,
    encoding=None,
    errors=None,
    newline=None,
    closefd=True,
    opener=None,
):
    return _sim_open(
        REAL["open"], file, mode, buffering, encoding, errors, newline, closefd, opener
    )


def _os_open(path, flags, mode=0o777, *, dir_fd=None):
    if flags & (os.O_WRONLY | os.O_RDWR) and DISK.inside(path):
        p = DISK.plan()
        DISK.opens += 1
        if p is not None:
            p["opens"] += 1
            if p["at"] == "open" and p["opens"] == p["n"]:
                p["fired"].append("open-" + errno.errorcode[p["errno"]])
                raise _oserr(p["errno"], path)
    return REAL["osopen"](path, flags, mode, dir_fd=dir_fd)


def _mk_rename(name):
    def f(src, dst, *, src_dir_fd=None, dst_dir_fd=None):
        if DISK.inside(src) or DISK.inside(dst):
            p = DISK.plan()
            DISK.renames += 1
            if p is not None and p["at"] in ("rename", "close"):
                p["renames"] += 1
                if p["renames"] == p["n"]:
                    p["fired"].append("rename-" + errno.errorcode[p["errno"]])
                    raise _oserr(p["errno"], dst)
        return REAL[name](src, dst, src_dir_fd=src_dir_fd, dst_dir_fd=dst_dir_fd)

    f.__name__ = name
    return f


# ---------------------------------------------------------------------------
def install(toolbox_root):
    global TOOLBOX_ROOT
    TOOLBOX_ROOT = toolbox_root
    time.time = _time
    time.monotonic = _monotonic
    time.perf_counter = _perf
    time.time_ns = _time_ns
    time.monotonic_ns = _mono_ns
    time.perf_counter_ns = _perf_ns
    time.sleep = _sleep
    os.urandom = _urandom
    random._urandom = _urandom
    try:
        import numpy.random.bit_generator as bg

        bg.randbits = _randbits
    except Exception:  # pragma: no cover
        pass
    threading.Lock = _lock
    threading.RLock = _rlock
    builtins.open = _open
    io.open = _open
    os.open = _os_open
    os.replace = _mk_rename("replace")
    os.rename = _mk_rename("rename")


# ---------------------------------------------------------------------------
# adversarial draws from the shared generator
class Draws:
    """Replaces what numpy's module-level uniform generators hand out."""

    NAMES = ("rand", "random", "random_sample", "ranf", "sample", "uniform")

    def __init__(self):
        self.saved = {}
        self.used = 0

    def arm(self, kind, seed):
        rs = np.random.RandomState(seed)
        top = np.nextafter(1.0, 0.0)

        def values(n):
            self.used += 1
            if kind == "zeros":
                return np.zeros(n)
            if kind == "top":
                return np.full(n, top)
            if kind == "half":
                return np.full(n, 0.5)
            if kind == "quarter":
                return np.full(n, 0.25)
            if kind == "alternate":
                return np.where(np.arange(n) % 2 == 0, 0.0, 0.5)
            if kind == "ramp":
                return np.arange(n) / max(n, 1)
            if kind == "tiny":
                return rs.rand(n) * 1e-300
            return rs.randint(0, 4, n) / 4.0

        def shaped(size):
            if size is None or size == ():
                return float(values(1)[0])
            shp = (size,) if np.isscalar(size) else tuple(size)
            return values(int(np.prod(shp))).reshape(shp)

        def rand(*shape):
            return shaped(shape)

        def sample(size=None):
            return shaped(size)

        def uniform(low=0.0, high=1.0, size=None):
            return low + (high - low) * shaped(size)

        for n in self.NAMES:
            self.saved[n] = getattr(np.random, n)
        np.random.rand = rand
        for n in ("random", "random_sample", "ranf", "sample"):
            setattr(np.random, n, sample)
        np.random.uniform = uniform

    def disarm(self):
        for n, v in self.saved.items():
            setattr(np.random, n, v)
        self.saved = {}


DRAWS = Draws()
