"""Everything nondeterministic outside the library, behind one switchboard.

Clock, sleep, randomness, locks, streams, files and environment are replaced in
the worker process; the plan decides what they do.
"""
import builtins
import datetime as _dt
import getpass
import io
import os
import platform
import random
import socket
import sys
import threading
import time
import warnings
import _thread

from . import core

REAL = {
    "time": time.time, "monotonic": time.monotonic, "perf_counter": time.perf_counter,
    "sleep": time.sleep, "Lock": threading.Lock, "RLock": threading.RLock,
    "Condition": threading.Condition, "Event": threading.Event,
    "Semaphore": threading.Semaphore, "BoundedSemaphore": threading.BoundedSemaphore,
    "open": builtins.open, "stdout": sys.stdout, "stderr": sys.stderr,
}


# ---------------------------------------------------------------- locks
class SimLock:
    """threading.Lock whose waiting is under the scheduler's control."""

    def __init__(self):
        self._real = _thread.allocate_lock()

    def acquire(self, blocking=True, timeout=-1):
        if self._real.acquire(False):
            return True
        if not blocking:
            return False
        t = core.current_thread()
        if t is None:
            if timeout is not None and timeout >= 0:
                return self._real.acquire(True, timeout)
            if self._real.acquire(True, 5.0 if threading.active_count() > 1 else 0.05):
                return True
            raise core.SimHang()     # nobody is left who could release it
        ok = t.sim.block(t, lambda: not self._real.locked(), None if timeout < 0 else timeout)
        return self._real.acquire(False) if ok else False

    def release(self):
        self._real.release()

    def locked(self):
        return self._real.locked()

    __enter__ = acquire

    def __exit__(self, *a):
        self.release()

    def _at_fork_reinit(self):
        self._real = _thread.allocate_lock()


class SimRLock:
    def __init__(self):
        self._block = SimLock()
        self._owner = None
        self._count = 0

    def acquire(self, blocking=True, timeout=-1):
        me = _thread.get_ident()
        if self._owner == me:
            self._count += 1
            return True
        rc = self._block.acquire(blocking, timeout)
        if rc:
            self._owner = me
            self._count = 1
        return rc

    __enter__ = acquire

    def release(self):
        if self._owner != _thread.get_ident():
            raise RuntimeError("cannot release un-acquired lock")
        self._count -= 1
        if not self._count:
            self._owner = None
            self._block.release()

    def __exit__(self, *a):
        self.release()

    # for threading.Condition
    def _is_owned(self):
        return self._owner == _thread.get_ident()

    def _release_save(self):
        state = (self._count, self._owner)
        self._count, self._owner = 0, None
        self._block.release()
        return state

    def _acquire_restore(self, state):
        self._block.acquire()
        self._count, self._owner = state


# what of the outside world a call has looked at since this was last cleared
TOUCHED = set()


def _environ_get(self, key, _real=os._Environ.__getitem__):
    TOUCHED.add(f"env {key}")
    return _real(self, key)


class Entropy:
    """The operating system's random bytes: a repeatable stream."""

    def __init__(self):
        self.n = 0

    def __call__(self, size):
        TOUCHED.add("entropy")
        self.n += 1
        return random.Random(f"entropy {self.n}").randbytes(size)


ENTROPY = Entropy()


# ---------------------------------------------------------------- clock
class Clock:
    def __init__(self):
        self.now = 1_700_000_000.0
        self.reads = 0

    def reset(self, now=1_700_000_000.0):
        self.now = now
        self.reads = 0

    def read(self):
        self.reads += 1
        TOUCHED.add("clock")
        self.now += 1e-6
        return self.now

    def sleep(self, s):
        self.now += max(0.0, float(s))
        t = core.current_thread()
        if t is not None:
            saved = core._cur
            core._cur = None
            try:
                t.sim.switch(t)
            finally:
                core._cur = saved


CLOCK = Clock()


class _AsReal(type):
    """Objects made before or by C code count as instances too."""

    def __instancecheck__(cls, x):
        return isinstance(x, cls.__mro__[1])

    def __subclasscheck__(cls, c):
        return issubclass(c, cls.__mro__[1])


class SimDate(_dt.date, metaclass=_AsReal):
    @classmethod
    def today(cls):
        return cls.fromtimestamp(CLOCK.read())


class SimDateTime(_dt.datetime, metaclass=_AsReal):
    @classmethod
    def now(cls, tz=None):
        return cls.fromtimestamp(CLOCK.read(), tz)

    @classmethod
    def utcnow(cls):
        return cls.utcfromtimestamp(CLOCK.read())

    @classmethod
    def today(cls):
        return cls.fromtimestamp(CLOCK.read())


class Machine:
    """What a process can learn about where it runs; the plan may change it."""

    def __init__(self):
        self.reset()

    def reset(self):
        self.pid, self.cpus, self.host, self.user, self.ident = 4242, 8, "sim", "sim", 0

    def tell(self, what):
        def get(*_a):
            TOUCHED.add(f"machine {what}")
            return getattr(self, what)
        return get


MACHINE = Machine()


def _now(real):
    return lambda s=None: real(CLOCK.read() if s is None else s)


def install():
    """Permanent for the worker process; harness code uses REAL[...]"""
    threading.Lock = SimLock
    threading.RLock = SimRLock
    threading._allocate_lock = SimLock
    time.time = CLOCK.read
    time.monotonic = CLOCK.read
    time.perf_counter = CLOCK.read
    time.process_time = CLOCK.read
    time.time_ns = lambda: int(CLOCK.read() * 1e9)
    time.monotonic_ns = time.time_ns
    time.perf_counter_ns = time.time_ns
    time.sleep = CLOCK.sleep
    time.thread_time = time.clock_gettime = lambda *_a: CLOCK.read()
    time.process_time_ns = time.thread_time_ns = time.clock_gettime_ns = lambda *_a: int(CLOCK.read() * 1e9)
    for name in ("localtime", "gmtime", "ctime"):
        setattr(time, name, _now(getattr(time, name)))
    real_format, real_asctime = time.strftime, time.asctime
    time.strftime = lambda f, t=None: real_format(f, time.localtime() if t is None else t)
    time.asctime = lambda t=None: real_asctime(time.localtime() if t is None else t)
    _dt.datetime = SimDateTime
    _dt.date = SimDate
    os.getpid, os.cpu_count = MACHINE.tell("pid"), MACHINE.tell("cpus")
    socket.gethostname = platform.node = MACHINE.tell("host")
    os.getlogin = getpass.getuser = MACHINE.tell("user")
    os._Environ.__getitem__ = _environ_get
    os.urandom = random._urandom = ENTROPY
    random.seed(0)
    warnings.simplefilter("ignore")


# --------------------------------------------------------------- streams
class SimStream(io.TextIOBase):
    """stdout/stderr under test: records, and fails when told to."""

    def __init__(self, name):
        self._name = name
        self.reset()

    def reset(self, mode="ok"):
        self.mode = mode
        self.tty = False
        self.text = []
        self.attempts = 0

    encoding = "utf-8"

    def writable(self):
        return True

    def write(self, s):
        self.attempts += 1
        self.text.append(s)
        if self.mode == "epipe":
            raise BrokenPipeError(32, "Broken pipe")
        if self.mode == "enospc":
            raise OSError(28, "No space left on device")
        if self.mode == "closed":
            raise ValueError("I/O operation on closed file.")
        return len(s)

    def flush(self):
        if self.mode in ("epipe",):
            raise BrokenPipeError(32, "Broken pipe")

    def isatty(self):
        TOUCHED.add("terminal " + self._name)
        return self.tty

    def fileno(self):
        raise io.UnsupportedOperation("fileno")
