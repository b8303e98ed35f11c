"""Seams: everything nondeterministic that the code under test can reach.

install() must run before `estrade` is imported.  With no kernel active every
replacement behaves as the original, so importing stays harmless.
"""
import _thread
import builtins
import datetime as _dt
import gc
import importlib
import io
import itertools
import os
import pkgutil
import queue
import random
import sys
import threading
import time
import types
import zlib

from .kernel import Kernel, SimT  # noqa: F401

REPO = os.environ.get("VERIF_REPO", "/repo")
PKG = os.path.join(REPO, "estrade")

K = None  # active kernel
DISK = None  # active simulated disk faults
EPOCH = 1_600_000_000_000_000  # default wall clock at virtual time 0 (us)
WALL_OFFSET = 0  # us, moved by clock jumps
ENTROPY = random.Random(0)

RealThread = threading.Thread
_real_lock = _thread.allocate_lock
_real = {}


def sim():
    """Kernel, when the calling thread is the sim thread holding the baton."""
    k = K
    if k is not None and k.ident.get(_thread.get_ident()) is k.cur:
        return k
    return None


def wall_us():
    return EPOCH + WALL_OFFSET + (K.now if K is not None else 0)


# --------------------------------------------------------------------- threads
class SimThread(RealThread):
    """threading.Thread whose scheduling belongs to the kernel."""

    _sim = None

    def start(self):
        k = sim()
        if k is None:
            return RealThread.start(self)
        if self._sim is not None:
            raise RuntimeError("threads can only be started once")
        name = k.child_name()
        k.preempt()
        if HOOK_START is not None and HOOK_START(name, self):
            k.cur.spawned += 1
            raise RuntimeError("can't start new thread")
        self._sim = k.spawn(self._sim_run)
        self._sim.thread = self
        k.preempt()

    def _sim_run(self):
        self.run()

    def is_alive(self):
        if self._sim is None:
            if sim() is not None:
                sim().preempt()
                return False
            return RealThread.is_alive(self)
        k = sim()
        if k is not None:
            k.preempt()
            if not k.no_preempt:
                k.step(20)
        return self._sim.state != "done"

    def join(self, timeout=None):
        k = sim()
        if k is None:
            if self._sim is not None:
                return None
            return RealThread.join(self, timeout)
        if self._sim is None:
            raise RuntimeError("cannot join thread before it is started")
        if self._sim is k.cur:
            raise RuntimeError("cannot join current thread")
        k.join(self._sim, None if timeout is None else max(0, timeout) * 1e6)


HOOK_START = None


def _current_thread():
    k = sim()
    if k is None:
        return _real["current_thread"]()
    t = k.cur
    if t.thread is None:
        if t is k.main:
            t.thread = threading.main_thread()
        else:  # a caller's own thread
            t.thread = threading.main_thread()
            t.thread = SimThread(name=t.name, daemon=False)
            t.thread._sim = t
    return t.thread


class SimTimer(SimThread):
    def __init__(self, interval, function, args=None, kwargs=None):
        SimThread.__init__(self)
        self.interval = interval
        self.function = function
        self.args = args if args is not None else []
        self.kwargs = kwargs if kwargs is not None else {}
        self.cancelled = False

    def cancel(self):
        self.cancelled = True

    def run(self):
        k = sim()
        if k is not None:
            k.sleep(self.interval * 1e6)
        if not self.cancelled:
            self.function(*self.args, **self.kwargs)


class SimLock:
    """threading.Lock: kernel-scheduled under simulation, real otherwise."""

    _reentrant = False

    def __init__(self):
        self._r = None
        self._owner = None
        self._depth = 0

    def _real(self):
        if self._r is None:
            self._r = _thread.RLock() if self._reentrant else _real_lock()
        return self._r

    def acquire(self, blocking=True, timeout=-1):
        k = sim()
        if k is None:
            return self._real().acquire(blocking, timeout)
        k.preempt()
        me = k.cur
        if self._reentrant and self._owner is me:
            self._depth += 1
            return True
        while self._owner is not None:
            if not blocking:
                return False
            if not k.block(self, None if timeout is None or timeout < 0 else timeout * 1e6):
                return False
        self._owner = me
        self._depth = 1
        return True

    def release(self):
        k = sim()
        if self._owner is None:
            if k is None or (self._r is not None):
                return self._real().release()
            raise RuntimeError("release unlocked lock")
        if self._reentrant:
            self._depth -= 1
            if self._depth:
                return None
        self._owner = None
        self._depth = 0
        if k is not None:
            k._wake_waiters(self)
            k.preempt()
        return None

    def locked(self):
        if self._owner is not None:
            return True
        r = self._r
        if r is None:
            return False
        if self._reentrant:
            return False
        return r.locked()

    def __enter__(self):
        self.acquire()
        return True

    def __exit__(self, *a):
        self.release()

    def _at_fork_reinit(self):
        self._owner = None
        self._r = None


class SimRLock(SimLock):
    _reentrant = True

    def _is_owned(self):
        k = sim()
        if k is None:
            return self._real()._is_owned()
        return self._owner is k.cur

    def _release_save(self):
        if sim() is None:
            return self._real()._release_save()
        d, self._depth = self._depth, 1
        self.release()
        return d

    def _acquire_restore(self, d):
        if sim() is None:
            return self._real()._acquire_restore(d)
        self.acquire()
        self._depth = d


# ----------------------------------------------------------------------- clock
def _time():
    if K is None:
        return _real["time"]()
    return wall_us() / 1e6


def _time_ns():
    if K is None:
        return _real["time_ns"]()
    return wall_us() * 1000


def _mono():
    if K is None:
        return _real["monotonic"]()
    return K.now / 1e6


def _mono_ns():
    if K is None:
        return _real["monotonic_ns"]()
    return K.now * 1000


def _sleep(s):
    k = sim()
    if k is None:
        return _real["sleep"](s)
    k.sleep(s * 1e6)


def _wrap_now_arg(name):
    real = getattr(time, name)

    def f(secs=None):
        if secs is None and K is not None:
            secs = wall_us() / 1e6
        return real(secs) if secs is not None else real()

    return f


def _strftime(fmt, t=None):
    if t is None:
        t = time.localtime()
    return _real["strftime"](fmt, t)


_RealDT = _dt.datetime


class _DTMeta(type):
    def __instancecheck__(cls, obj):
        return isinstance(obj, _RealDT)

    def __subclasscheck__(cls, sub):
        return issubclass(sub, _RealDT)


def _now_real(tz=None):
    if K is None:
        return _RealDT.now(tz)
    us = wall_us()
    if tz is None:  # the zone of the simulated machine
        return _RealDT.fromtimestamp(us // 1_000_000).replace(microsecond=us % 1_000_000)
    u = _RealDT(1970, 1, 1, tzinfo=_dt.timezone.utc) + _dt.timedelta(microseconds=us)
    return u.astimezone(tz)


class SimDatetime(_RealDT, metaclass=_DTMeta):
    @classmethod
    def now(cls, tz=None):
        return _now_real(tz)

    @classmethod
    def utcnow(cls):
        if K is None:
            return _RealDT.utcnow()
        return _now_real(_dt.timezone.utc).replace(tzinfo=None)

    @classmethod
    def today(cls):
        return _now_real(None)


_RealDate = _dt.date


# ------------------------------------------------------------------ file system
def in_scratch(path):
    d = DISK
    if d is None or isinstance(path, int):
        return False
    try:
        p = os.fspath(path)
    except TypeError:
        return False
    if isinstance(p, bytes):
        p = os.fsdecode(p)
    return os.path.abspath(p).startswith(d.root + os.sep) or os.path.abspath(p) == d.root


class FaultyRaw(io.RawIOBase):
    """Unbuffered file whose operations may fail as the simulated disk decides."""

    def __init__(self, path, mode):
        self._f = io.FileIO(path, mode)
        self.name = path
        self.mode = self._f.mode

    def readable(self):
        return self._f.readable()

    def writable(self):
        return self._f.writable()

    def seekable(self):
        return self._f.seekable()

    def readinto(self, b):
        return self._f.readinto(b)

    def seek(self, *a):
        return self._f.seek(*a)

    def tell(self):
        return self._f.tell()

    def truncate(self, size=None):
        return self._f.truncate(size)

    def fileno(self):
        return self._f.fileno()

    def isatty(self):
        return False

    def write(self, b):
        data = bytes(b)
        d = DISK
        n = len(data) if d is None else d.before_write(self.name, data, self._f.write)
        if n:
            self._f.write(data[:n])
        return n if d is None else d.after_write(n)

    def close(self):
        if self.closed:
            return
        try:
            d = DISK
            super().close()
            self._f.close()
            if d is not None:
                d.on_close(self.name)
        finally:
            self._f.close()


_real_open = builtins.open


def _open(file, mode="r", buffering=-1, encoding=None, errors=None, newline=None, closefd=True, opener=None):
    if DISK is None or sim() is None or not in_scratch(file) or opener is not None:
        return _real_open(file, mode, buffering, encoding, errors, newline, closefd, opener)
    writing = any(c in mode for c in "wax+")
    DISK.on_open(os.fspath(file), writing)
    binary = "b" in mode
    rawmode = mode.replace("b", "").replace("t", "")
    raw = FaultyRaw(os.fspath(file), rawmode)
    try:
        if binary and buffering == 0:
            return raw
        bs = buffering if buffering > 1 else io.DEFAULT_BUFFER_SIZE
        if "+" in mode:
            buf = io.BufferedRandom(raw, bs)
        elif writing:
            buf = io.BufferedWriter(raw, bs)
        else:
            buf = io.BufferedReader(raw, bs)
        if binary:
            return buf
        return io.TextIOWrapper(buf, encoding, errors, newline, line_buffering=buffering == 1)
    except BaseException:
        raw.close()
        raise


def _wrap_fs(name, kind):
    real = getattr(os, name)
    _real["os." + name] = real

    def f(path, *a, **kw):
        if DISK is not None and sim() is not None and in_scratch(path):
            DISK.on_meta(kind, os.fspath(path))
        return real(path, *a, **kw)

    f.__name__ = name
    setattr(os, name, f)


def _wrap_os_open_write():
    ro, rw = os.open, os.write
    _real["os.open"], _real["os.write"] = ro, rw
    fds = {}

    def o(path, flags, mode=0o777, *, dir_fd=None):
        mine = DISK is not None and sim() is not None and in_scratch(path)
        if mine:
            DISK.on_open(os.fspath(path), bool(flags & (os.O_WRONLY | os.O_RDWR)))
        fd = ro(path, flags, mode, dir_fd=dir_fd)
        if mine:
            fds[fd] = os.fspath(path)
        else:
            fds.pop(fd, None)
        return fd

    def w(fd, data):
        if DISK is not None and sim() is not None and fd in fds:
            data = bytes(data)
            n = DISK.before_write(fds[fd], data, lambda d: rw(fd, d))
            if n:
                rw(fd, data[:n])
            return DISK.after_write(n)
        return rw(fd, data)

    os.open, os.write = o, w


def _urandom(n):
    if K is None:
        return _real["urandom"](n)
    return ENTROPY.getrandbits(8 * n).to_bytes(n, "big") if n else b""


# -------------------------------------------------------------------- installation
TOOL = 4
CODES = []
HOT = {}
STARTS = {}  # code -> offsets at which a source line starts
EV = {}


def install():
    """Install the seams, then import the code under test."""
    for n in ("time", "time_ns", "monotonic", "monotonic_ns", "sleep", "strftime"):
        _real[n] = getattr(time, n)
    _real["urandom"] = os.urandom
    import arrow  # imported with the real datetime class
    import dateutil.tz  # noqa: F401
    import pytz  # noqa: F401
    import uuid  # noqa: F401
    import csv  # noqa: F401
    import logging
    import concurrent.futures.thread  # noqa: F401
    import pathlib  # noqa: F401

    arrow.Arrow.utcnow = classmethod(lambda cls: cls.fromdatetime(_now_real(_dt.timezone.utc), dateutil.tz.tzutc()))
    real_anow = arrow.Arrow.now

    def anow(cls, tzinfo=None):
        if K is None:
            return real_anow(tzinfo)
        if tzinfo is None:
            tzinfo = dateutil.tz.tzlocal()
        elif isinstance(tzinfo, str):
            tzinfo = arrow.parser.TzinfoParser.parse(tzinfo)
        return cls.fromdatetime(_now_real(tzinfo), tzinfo)

    arrow.Arrow.now = classmethod(anow)

    _real["current_thread"] = threading.current_thread
    threading.current_thread = threading.currentThread = _current_thread
    threading.Thread = SimThread
    threading.Timer = SimTimer
    threading.Lock = SimLock
    threading.RLock = SimRLock
    threading._allocate_lock = SimLock
    queue.SimpleQueue = queue._PySimpleQueue
    time.time, time.time_ns = _time, _time_ns
    time.monotonic, time.monotonic_ns = _mono, _mono_ns
    time.perf_counter, time.perf_counter_ns = _mono, _mono_ns
    time.sleep = _sleep
    time.gmtime, time.localtime = _wrap_now_arg("gmtime"), _wrap_now_arg("localtime")
    time.strftime = _strftime
    os.urandom = _urandom
    _dt.datetime = SimDatetime
    builtins.open = _open
    io.open = _open
    for n, kind in (("mkdir", "mkdir"), ("replace", "rename"), ("rename", "rename"),
                    ("remove", "remove"), ("unlink", "remove")):
        _wrap_fs(n, kind)
    _wrap_os_open_write()
    # the library collects at every frame it removes
    global real_collect
    real_collect = gc.collect
    gc.collect = lambda *a: 0
    threading.excepthook = lambda a: None
    logging.disable(logging.CRITICAL)

    if REPO not in sys.path:
        sys.path.insert(0, REPO)
    import estrade

    got = os.path.dirname(os.path.abspath(estrade.__file__))
    if got != os.path.abspath(PKG):
        raise RuntimeError("estrade imported from %s instead of %s" % (got, PKG))
    mods = [estrade]
    for m in pkgutil.walk_packages(estrade.__path__, "estrade."):
        mods.append(importlib.import_module(m.name))
    _collect_codes()
    M = sys.monitoring
    M.use_tool_id(TOOL, "dst")
    E = M.events
    M.register_callback(TOOL, E.INSTRUCTION, _on_instr)
    M.register_callback(TOOL, E.JUMP, _on_jump)
    EV.update({None: 0, "jump": E.JUMP, "line": E.INSTRUCTION, "instr": E.INSTRUCTION})


def _collect_codes():
    seen = set()

    def rec(c):
        if c in seen:
            return
        seen.add(c)
        CODES.append(c)
        for x in c.co_consts:
            if isinstance(x, types.CodeType):
                rec(x)

    prefix = os.path.abspath(PKG) + os.sep
    for o in gc.get_objects():
        if isinstance(o, types.FunctionType) and o.__code__.co_filename.startswith(prefix):
            rec(o.__code__)
    for c in CODES:
        last, st = None, set()
        for a, b, line in c.co_lines():
            if line is not None and line != last:
                st.add(a)
                last = line
        STARTS[c] = st
    CODES.sort(key=lambda c: (c.co_filename, c.co_firstlineno, c.co_qualname))


_gran = [None]


def granularity(g):
    """None, "jump" (step budget only), "line" or "instr" (scheduling points)."""
    if _gran[0] == g:
        return
    ev = EV[g]
    for c in CODES:
        if EV[_gran[0]] == ev:
            sys.monitoring.set_local_events(TOOL, c, 0)
        sys.monitoring.set_local_events(TOOL, c, ev)
    sys.monitoring.restart_events()
    _gran[0] = g


def _on_instr(code, where):
    # Line starts are told from the offsets: LINE events of the interpreter depend on how
    # far it has specialised the code, so they do not replay.
    if _gran[0] == "line" and where not in STARTS[code]:
        return sys.monitoring.DISABLE
    k = K
    if k is not None and not k.no_preempt:
        if k.ident.get(_thread.get_ident()) is k.cur:
            h = HOT.get(code) if HOT else None
            k.preempt(h is not None and (h is True or where in h))


def focus(f):
    """Places where switches are likely in this run: (kind, modulus, residue)."""
    HOT.clear()
    if f is None:
        return
    kind, mod, res = f
    for c in CODES:
        name = "%s:%s" % (os.path.basename(c.co_filename), c.co_qualname)
        if kind == "func":
            if zlib.crc32(name.encode()) % mod == res % mod:
                HOT[c] = True
        else:
            s = set()
            for a, b, line in c.co_lines():
                if line is not None and zlib.crc32(("%s:%d" % (name, line - c.co_firstlineno)).encode()) % mod == res % mod:
                    s.update(range(a, b))
            if s:
                HOT[c] = s


def _on_jump(code, a, b):
    k = K
    if k is not None and k.ident.get(_thread.get_ident()) is k.cur:
        k.step()


_tz = [None]


def machine_zone(name):
    """Zone of the simulated machine (None: the one of the real machine)."""
    if name is None:
        if _tz[0] is not None:
            if _tz[0]:
                os.environ["TZ"] = _tz[0]
            else:
                os.environ.pop("TZ", None)
            time.tzset()
            _tz[0] = None
        return
    if _tz[0] is None:
        _tz[0] = os.environ.get("TZ", "")
    os.environ["TZ"] = name
    time.tzset()


def activate(kernel, entropy_seed, epoch=None, zone="UTC"):
    global K, ENTROPY, WALL_OFFSET, EPOCH
    machine_zone(zone)
    ENTROPY = random.Random(entropy_seed)
    random.seed(entropy_seed)
    WALL_OFFSET = 0
    threading._counter = itertools.count(1).__next__
    if epoch is not None:
        EPOCH = epoch
    K = kernel


def deactivate():
    global K, DISK, HOOK_START
    K = None
    DISK = None
    HOOK_START = None
    machine_zone(None)


def set_wall(us):
    global WALL_OFFSET
    WALL_OFFSET = us - EPOCH - K.now
