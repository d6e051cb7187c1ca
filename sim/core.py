"""Deterministic scheduler: real threads, one baton, bytecode-level yield points.

Every eligible bytecode of the library (and of copy.deepcopy, which the library
leans on) is a step.  A plan names the steps at which a thread is preempted, an
exception is injected, the garbage collector runs or an observer looks; nothing
else is nondeterministic, so the same plan gives the same execution.
"""
import copy
import dis
import gc
import sys
import threading
import types
import zlib
import _thread

from .loader import walk_code

_mon = sys.monitoring
TOOL = 3
_DISABLE = _mon.DISABLE
_EVENT = _mon.events.INSTRUCTION
_get_ident = _thread.get_ident

NEVER = 1 << 60

_SHARED_OPS = {
    "STORE_ATTR", "STORE_SUBSCR", "STORE_GLOBAL", "STORE_NAME", "STORE_DEREF", "STORE_SLICE",
    "DELETE_ATTR", "DELETE_SUBSCR", "DELETE_GLOBAL", "DELETE_NAME", "DELETE_DEREF",
    "LOAD_ATTR", "LOAD_GLOBAL", "LOAD_NAME", "LOAD_DEREF", "LOAD_SUPER_ATTR", "BINARY_SUBSCR", "BINARY_SLICE",
    "BINARY_OP", "CALL", "CALL_FUNCTION_EX", "CALL_INTRINSIC_1", "FOR_ITER", "COMPARE_OP",
    "CONTAINS_OP", "LIST_APPEND", "MAP_ADD", "SET_ADD", "RETURN_VALUE", "RETURN_CONST",
    "JUMP_BACKWARD", "IMPORT_NAME", "IMPORT_FROM", "YIELD_VALUE", "STORE_FAST",
}

# writes another caller could see; the step after one matters as much as the step before
_STORES = {"STORE_ATTR", "STORE_SUBSCR", "STORE_GLOBAL", "STORE_NAME", "STORE_SLICE", "DELETE_ATTR",
           "DELETE_SUBSCR", "DELETE_GLOBAL", "DELETE_NAME", "STORE_DEREF"}
STORE_AT = set()   # (id(code), offset) at or right after such a write
ELIG = {}      # id(code) -> {offset: line}
_KEEP = []     # keeps monitored code objects alive (ids stay valid)
_EMPTY = {}


class SimKill(BaseException):
    """Unwinds a thread that must be abandoned at the end of a run."""


class SimHang(BaseException):
    """A call used more steps than its bound."""


class SimAbort(BaseException):
    """An asynchronous abort (a time-out delivered by a signal handler)."""


FAULT_KINDS = {
    "KeyboardInterrupt": KeyboardInterrupt,
    "MemoryError": MemoryError,
    "TimeoutError": TimeoutError,
    "SimAbort": SimAbort,
}


def _eligible(code):
    ins = list(dis.get_instructions(code))
    skip = set()
    for i in range(len(ins) - 3):
        # `with` normal exit: __exit__(None, None, None).  CPython cannot be
        # interrupted there (bpo-29988), so it is no yield or fault point.
        if (all(x.opname == "LOAD_CONST" and x.argval is None for x in ins[i:i + 3])
                and ins[i + 3].opname == "CALL" and ins[i + 3].arg == 2):
            skip.update(x.offset for x in ins[max(0, i - 1):i + 5])
    out = {}
    line = code.co_firstlineno
    started = False
    for x in ins:
        is_start = x.starts_line is not None
        if is_start:
            line = x.starts_line
        if x.opname == "RESUME":
            started = True
        if not started or x.opname in ("RESUME", "CACHE", "COPY_FREE_VARS", "MAKE_CELL", "RETURN_GENERATOR"):
            continue
        if x.offset in skip:
            continue
        if is_start or x.opname in _SHARED_OPS:
            out[x.offset] = line
    return out


def monitor(codes):
    for code in codes:
        if id(code) in ELIG:
            continue
        ELIG[id(code)] = elig = _eligible(code)
        after = False
        for x in dis.get_instructions(code):
            if x.offset in elig:
                if after or x.opname in _STORES:
                    STORE_AT.add((id(code), x.offset))
                after = x.opname in _STORES
        _KEEP.append(code)
        _mon.set_local_events(TOOL, code, _EVENT)


_cur = None     # the SimThread executing library code right now, or None


def _cb(code, off):
    t = _cur
    if t is None:
        return
    if off not in ELIG.get(id(code), _EMPTY):
        return _DISABLE
    if t.ident != _get_ident():
        return
    s = t.step = t.step + 1
    if t.trace is not None:
        t.trace.append((id(code), off))
    if s >= t.stop_at:
        t.fire(code, off)


_LOOPS = _mon.events.PY_START | _mon.events.JUMP


def _cb_loops(code, off, dest=None):
    t = _cur
    if t is None or t.ident != _get_ident():
        return
    t.step += 1
    if t.step >= t.stop_at:
        raise SimHang()


class coarsely:
    """Inside, only calls and loops count as steps: a great many calls in little time."""
    def __enter__(self):
        for code in _KEEP:
            _mon.set_local_events(TOOL, code, _LOOPS)

    def __exit__(self, *exc):
        for code in _KEEP:
            _mon.set_local_events(TOOL, code, _EVENT)


_installed = False


def install(lib, extra_codes=()):
    global _installed
    if not _installed:
        _mon.use_tool_id(TOOL, "simulation")
        _mon.register_callback(TOOL, _EVENT, _cb)
        _mon.register_callback(TOOL, _mon.events.PY_START, _cb_loops)
        _mon.register_callback(TOOL, _mon.events.JUMP, _cb_loops)
        _installed = True
    monitor(lib.codes())
    for fn in vars(copy).values():
        if isinstance(fn, types.FunctionType) and fn.__module__ == "copy":
            monitor(walk_code(fn.__code__))
    monitor(extra_codes)


def is_store(loc):
    return loc in STORE_AT


def location(code, off):
    f = code.co_filename
    i = f.find("cheme_calculations/")
    f = f[i + len("cheme_calculations/"):] if i >= 0 else f.rsplit("/", 1)[-1]
    return f"{f}:{ELIG.get(id(code), _EMPTY).get(off, 0)} {code.co_qualname}+{off}"


_CODE_BY_ID = {}


def code_by_id(cid):
    if len(_CODE_BY_ID) != len(_KEEP):
        for c in _KEEP:
            _CODE_BY_ID[id(c)] = c
    return _CODE_BY_ID.get(cid)


class SimThread:
    """One caller.  body(thread) runs its operations through call()."""

    def __init__(self, sim, idx, body):
        self.sim = sim
        self.idx = idx
        self.body = body
        self.go = _thread.allocate_lock()
        self.go.acquire()
        self.done = False
        self.waiting = None          # predicate that must hold before it can run
        self.kill = False
        self.stalled = False
        self.ident = None
        self.step = 0
        self.stop_at = NEVER
        self.trace = None
        self.pending = []
        self.cap = NEVER
        self.op_id = None
        self.fault_fired = None
        self.error = None
        self.tidy = True             # whether exceptions are stripped of their history

    # -- executing one library call ------------------------------------
    def call(self, op_id, stops, fn, args=(), kwargs=None, cap=NEVER):
        """Runs fn under monitoring; returns (value, exception)."""
        global _cur
        self.op_id = op_id
        self.pending = sorted(stops, key=lambda s: s[0])
        self.cap = cap
        self.step = 0
        self.fault_fired = None
        self.stop_at = min(self.pending[0][0] if self.pending else NEVER, cap)
        while self.pending and self.pending[0][0] <= 0:     # boundary stops
            _s, act = self.pending.pop(0)
            self.act(act, None, 0)
        self.stop_at = min(self.pending[0][0] if self.pending else NEVER, cap)
        _cur = self
        try:
            value, exc = fn(*args, **(kwargs or {})), None
        except (SimKill, SimHang):
            _cur = None
            raise
        except BaseException as e:
            _cur = None
            if self.tidy:
                e.__traceback__ = None
                e.__context__ = None
            value, exc = None, e
        _cur = None
        return value, exc

    def fire(self, code, off):
        global _cur
        _cur = None
        try:
            if self.kill:
                raise SimKill()
            while self.pending and self.pending[0][0] <= self.step:
                _s, act = self.pending.pop(0)
                self.act(act, code, off)
            if self.step >= self.cap:
                self.sim.hang = (self.idx, self.op_id, self.step, location(code, off))
                raise SimHang()
            self.stop_at = min(self.pending[0][0] if self.pending else NEVER, self.cap)
        finally:
            if not self.kill:
                _cur = self
            else:
                self.stop_at = 0
                _cur = self

    def act(self, act, code, off):
        sim = self.sim
        kind = act[0]
        where = location(code, off) if code is not None else "boundary"
        sim.note(self.idx, self.op_id, self.step, act, where)
        if kind == "switch":
            sim.observe("switch", self)
            sim.switch(self, act[1] if len(act) > 1 else None)
        elif kind == "raise":
            if code is None:
                return
            self.fault_fired = act[1]
            sim.faults[act[1]] = sim.faults.get(act[1], 0) + 1
            self.stop_at = min(self.pending[0][0] if self.pending else NEVER, self.cap)
            raise FAULT_KINDS[act[1]]("injected")
        elif kind == "look":
            sim.observe("look", self)
        elif kind == "gc":
            sim.faults["gc"] = sim.faults.get("gc", 0) + 1
            gc.collect()
        else:
            sim.custom_action(self, act, where)


class Sim:
    def __init__(self, observer=None, custom=None):
        self.threads = []
        self.observer = observer
        self.custom = custom
        self.main = _thread.allocate_lock()
        self.main.acquire()
        self.log = []
        self.sig = 0
        self.faults = {}
        self.hang = None
        self.deadlock = None
        self.switches = 0
        self.steps = 0
        self.stopping = False
        self.clock = 0.0

    def note(self, tid, op, step, act, where):
        self.log.append((tid, op, step, act, where))
        self.sig = zlib.crc32(f"{tid}|{act}|{where}".encode(), self.sig)

    def observe(self, why, thread):
        if self.observer is not None:
            self.observer(why, thread)

    def custom_action(self, thread, act, where):
        if self.custom is None:
            raise RuntimeError(f"unknown action {act}")
        self.custom(thread, act, where)

    def spawn(self, body):
        t = SimThread(self, len(self.threads), body)
        self.threads.append(t)
        return t

    # -- baton ----------------------------------------------------------
    def runnable(self, t):
        return not t.done and not t.stalled and (t.waiting is None or t.waiting())

    def pick(self, after, prefer=None):
        n = len(self.threads)
        if prefer is not None and prefer < n and prefer != after and self.runnable(self.threads[prefer]):
            return self.threads[prefer]
        for k in range(1, n + 1):
            t = self.threads[(after + k) % n]
            if t.idx != after and self.runnable(t):
                return t
        return None

    def switch(self, t, prefer=None):
        """Park t (still runnable) and let another thread run."""
        nxt = self.pick(t.idx, prefer)
        if nxt is None:
            return
        self.switches += 1
        nxt.go.release()
        t.go.acquire()
        if t.kill:
            raise SimKill()

    def stall(self, t):
        """t never runs again; everybody else goes on without it."""
        t.stalled = True
        nxt = self.pick(t.idx)
        if nxt is not None:
            self.switches += 1
            nxt.go.release()
        else:
            self.settle()
        t.go.acquire()
        raise SimKill()

    def settle(self):
        """Nobody can run: the end, or a deadlock."""
        left = [x.idx for x in self.threads if not x.done and not x.stalled]
        if left:
            self.deadlock = left
        if not all(x.done for x in self.threads):
            self.stopping = True
        self.main.release()

    def block(self, t, ready, timeout=None):
        """Park t until ready() holds.  True if it did, False on a deadlock/timeout."""
        global _cur
        saved = _cur
        _cur = None
        t.waiting = ready
        try:
            while not ready():
                nxt = self.pick(t.idx)
                if nxt is None:
                    if timeout is not None:
                        return False
                    if threading.active_count() > 1 + sum(1 for x in self.threads if not x.done):
                        # threads the library started itself may still let us go
                        import time
                        for _ in range(2000):
                            _real_sleep(0.001)
                            if ready():
                                return True
                    self.deadlock = [x.idx for x in self.threads if not x.done and not x.stalled]
                    t.kill = True
                    raise SimKill()
                self.switches += 1
                nxt.go.release()
                t.go.acquire()
                if t.kill:
                    raise SimKill()
            return True
        finally:
            t.waiting = None
            _cur = saved

    def _main(self, t):
        global _cur
        t.go.acquire()
        t.ident = _get_ident()
        try:
            if not t.kill:
                t.body(t)
        except (SimKill, SimHang):
            pass
        except BaseException as e:      # harness error: reported by run()
            t.error = e
        _cur = None
        t.done = True
        self.steps += t.step
        if self.deadlock is not None or self.hang is not None:
            self.stopping = True
        if self.stopping:
            self.main.release()
            return
        nxt = self.pick(t.idx)
        if nxt is not None:
            nxt.go.release()
        else:
            self.settle()

    def run(self, first=0):
        for t in self.threads:
            _thread.start_new_thread(self._main, (t,))
        self.threads[first].go.release()
        self.main.acquire()
        if not all(t.done for t in self.threads):
            self.stopping = True
            for t in self.threads:
                if not t.done:
                    t.kill = True
                    t.stop_at = 0
                    t.go.release()
                    self.main.acquire()
        for t in self.threads:
            if t.error is not None:
                raise t.error


import time as _time
_real_sleep = _time.sleep
ACTIVE = [None]      # the Sim in progress, for the simulated locks


def run_alone(fn, args=(), kwargs=None, cap=NEVER, trace=False):
    """One call on the calling (main) thread under step counting, no stops.

    Returns (value, exception, steps, trace, hung)."""
    global _cur
    t = SimThread(_NULL, 0, None)
    t.ident = _get_ident()
    t.trace = [] if trace else None
    t.cap = cap
    t.stop_at = cap
    hung = False
    _cur = t
    try:
        value, exc = fn(*args, **(kwargs or {})), None
    except SimHang:
        _cur = None
        value, exc, hung = None, None, True
    except BaseException as e:
        _cur = None
        e.__traceback__ = None
        e.__context__ = None
        value, exc = None, e
    _cur = None
    return value, exc, t.step, t.trace, hung


_NULL = Sim()


def current_thread():
    """The SimThread whose Python thread is asking, or None."""
    sim = ACTIVE[0]
    if sim is None:
        return None
    me = _get_ident()
    for t in sim.threads:
        if t.ident == me and not t.done:
            return t
    return None
