"""The outside world as the library sees it: streams, files, settings.

Installed by the properties that put the world under the plan's control."""
import atexit
import copy
import copyreg
import decimal
import gc
import io
import locale
import logging
import math
import os
import re
import socket
import random
import shutil
import signal
import sys
import tempfile
import threading
import time
import warnings
import builtins

import numpy as np

from . import core, seams

OUT = {"stdout": seams.SimStream("stdout"), "stderr": seams.SimStream("stderr")}
STREAM_MODES = ("ok", "epipe", "enospc", "closed", "none")
# changes to the world that other software could notice
WRITE_EVENTS = {"os.remove", "os.rename", "os.mkdir", "os.rmdir", "os.truncate", "os.chmod", "os.chown", "os.link", "os.symlink", "os.utime",
                "os.system", "os.exec", "os.fork", "os.forkpty", "os.posix_spawn", "os.spawn", "os.kill", "os.killpg", "subprocess.Popen",
                "socket.connect", "socket.bind", "socket.sendto", "socket.sendmsg", "shutil.copyfile", "shutil.move", "shutil.rmtree",
                "tempfile.mkstemp", "tempfile.mkdtemp", "os.putenv", "os.unsetenv", "os.chdir", "signal.pthread_kill"}
FILE_EVENTS = {"open", "os.listdir", "os.scandir", "os.walk", "glob.glob", "pathlib.Path.glob"} | WRITE_EVENTS


class Tape:
    """What the library did to the world while it was running."""

    def __init__(self):
        self.reset()

    def reset(self):
        self.events = []        # [what, detail]
        self.files_fail = False
        self.attempts = 0


TAPE = Tape()
_installed = False
_gone = [None]


def _in_library():
    t = core.current_thread()
    return t is not None and getattr(t, "in_call", False)


def _importing():
    f = sys._getframe(1)
    while f is not None:
        name = f.f_code.co_filename
        if name.startswith("<frozen importlib"):
            return True
        if "/cheme_calculations/" in name:
            return False
        f = f.f_back
    return False


def _audit(event, args):
    if event not in FILE_EVENTS or not _in_library():
        return
    if event == "open" and isinstance(args[0], int):
        return                              # wraps a descriptor that exists already
    if _importing():
        return                              # Python loading its own library
    TAPE.attempts += 1
    writing = event in WRITE_EVENTS
    if event == "open":
        mode, flags = args[1], args[2]
        writing = (any(c in mode for c in "wax+") if isinstance(mode, str) else False) or bool((flags or 0) & (os.O_WRONLY | os.O_RDWR | os.O_CREAT))
    if writing:
        TAPE.events.append([event, repr(args)[:120]])
    if TAPE.files_fail or writing:          # nothing the library does reaches the real system
        raise OSError(5, "Input/output error")


_os_write = os.write


def _write(fd, data):
    if _in_library():
        TAPE.events.append(["os.write", f"{len(data)} bytes to descriptor {fd}"])
        return len(data)
    return _os_write(fd, data)


def install():
    global _installed
    if _installed:
        return
    _installed = True
    for s in OUT.values():
        s.reset()
    sys.stdout = sys.__stdout__ = OUT["stdout"]
    sys.stderr = sys.__stderr__ = OUT["stderr"]
    os.write = _write
    sys.addaudithook(_audit)


def reset():
    """A healthy world for the next run."""
    TAPE.reset()
    for name, s in OUT.items():
        s.reset()
        setattr(sys, name, s)
        setattr(sys, f"__{name}__", s)
    random.seed(12345)
    np.random.seed(12345)
    warnings.resetwarnings()
    warnings.simplefilter("always")
    # numpy reports overflows of the caller's own numbers this way; not the library's words
    warnings.filterwarnings("ignore", category=RuntimeWarning)
    seams.CLOCK.reset()
    sys.path[:] = [p for p in sys.path if p != "/nonexistent/sim"]
    decimal.setcontext(decimal.Context())
    seams.MACHINE.reset()
    np.seterr(divide="warn", over="warn", under="ignore", invalid="warn")
    np.set_printoptions(precision=8, threshold=1000, edgeitems=3, linewidth=75, suppress=False)
    logging.getLogger().setLevel(logging.WARNING)
    gc.enable()
    for k, v in USUAL.items():
        LIMITS[k](v)
    del sys.argv[1:]
    sys.stdin = STDIN
    if hasattr(sys, "ps1"):
        del sys.ps1
    if HOME[0] is None:
        HOME[0] = os.getcwd()
    os.chdir(HOME[0])
    while MADE:
        try:
            os.rmdir(MADE.pop())
        except OSError:
            pass
    for k in list(os.environ):
        if k.startswith("SIM_") or k not in ENV0:
            del os.environ[k]
    for k, v in ENV0.items():
        if os.environ.get(k) != v:
            os.environ[k] = v


LIMITS = {"recursion": sys.setrecursionlimit, "switching": sys.setswitchinterval, "digits": sys.set_int_max_str_digits,
          "collector": lambda v: gc.set_threshold(*v), "network": socket.setdefaulttimeout}
USUAL = {"recursion": sys.getrecursionlimit(), "switching": sys.getswitchinterval(), "digits": sys.get_int_max_str_digits(),
         "collector": list(gc.get_threshold()), "network": None}
STDIN = sys.stdin
ROUNDING = [decimal.ROUND_HALF_EVEN, decimal.ROUND_UP, decimal.ROUND_DOWN, decimal.ROUND_CEILING]
HOME = [None]
MADE = []         # working directories made for a run
ENV0 = dict(os.environ)
ENV_CHANGES = [("LANG", "tr_TR.UTF-8"), ("LC_ALL", "C"), ("TZ", "Pacific/Kiritimati"), ("HOME", "/nonexistent"), ("PYTHONPATH", "/nonexistent"),
               ("SIM_UNITS", "imperial"), ("PATH", ""), ("TMPDIR", "/nonexistent"), ("COLUMNS", "1"), ("NO_COLOR", "1"), ("DEBUG", "1"), ("CHEME_UNITS", "SI")]


def change(act):
    """One disturbance of the world; act is a JSON list."""
    k = act[0]
    if k == "stream":
        _k, name, mode = act
        s = OUT[name]
        if mode == "none":
            setattr(sys, name, None)
        else:
            setattr(sys, name, s)
            s.mode = mode
    elif k == "files":
        TAPE.files_fail = act[1]
    elif k == "clock":
        seams.CLOCK.now += act[1]
    elif k == "seed":
        random.seed(act[1])
        np.random.seed(act[1])
    elif k == "env":
        if act[2] is None:
            os.environ.pop(act[1], None)
        else:
            os.environ[act[1]] = act[2]
    elif k == "cwd":
        d = tempfile.mkdtemp(prefix="sim-cwd-", dir=HOME[0])
        os.chdir(d)
        if act[1] == "gone":
            os.rmdir(d)
        else:
            MADE.append(d)
    elif k == "filters":
        warnings.simplefilter(act[1])
        warnings.filterwarnings("ignore", category=RuntimeWarning)
    elif k == "errstate":
        np.seterr(**act[1])
    elif k == "path":
        sys.path.append("/nonexistent/sim")
    elif k == "decimal":
        decimal.getcontext().prec = act[1]
        decimal.getcontext().rounding = act[2]
    elif k == "machine":
        setattr(seams.MACHINE, act[1], act[2])
    elif k == "argv":
        sys.argv[1:] = act[1]
    elif k == "stdin":
        sys.stdin = None if act[1] is None else io.StringIO(act[1])
    elif k == "interactive":
        sys.ps1 = ">>> "
    elif k == "terminal":
        OUT[act[1]].tty = True
    elif k == "collector":
        gc.disable()
    elif k == "printing":
        np.set_printoptions(**act[1])
    elif k == "logging":
        logging.getLogger().setLevel(act[1])
    elif k == "limits":
        LIMITS[act[1]](act[2])
    else:
        raise RuntimeError(act)


def cwd():
    try:
        st = os.stat(".")
        return (st.st_dev, st.st_ino)
    except OSError as e:
        return e.errno


SIGNALS = (signal.SIGINT, signal.SIGTERM, signal.SIGALRM, signal.SIGHUP, signal.SIGUSR1, signal.SIGPIPE, signal.SIGCHLD, signal.SIGFPE)
PATCHABLE = (math, copy, re, random, np, np.linalg, np.random)


def umask():
    m = os.umask(0o22)
    os.umask(m)
    return m


def other_modules():
    return hash(tuple(hash(tuple(map(id, vars(m).values()))) for m in PATCHABLE))


def shared():
    """Settings the whole process shares."""
    st = np.random.get_state()
    return {
        "warning filters": [tuple(map(str, f)) for f in warnings.filters],
        "warning display": warnings.showwarning,
        "random state": hash(random.getstate()),
        "numpy random state": (st[0], hash(st[1].tobytes()), st[2:]),
        "environment": dict(os.environ),
        "working directory": cwd(),
        "import path": list(sys.path),
        "import hooks": (list(sys.meta_path), list(sys.path_hooks)),
        "standard streams": (sys.stdout, sys.stderr, sys.stdin),
        "numpy printing": repr(sorted(np.get_printoptions().items(), key=str)),
        "recursion limit": sys.getrecursionlimit(),
        "switch interval": sys.getswitchinterval(),
        "garbage collection": (gc.isenabled(), gc.get_threshold()),
        "exception hooks": (sys.excepthook, sys.unraisablehook, threading.excepthook, sys.displayhook),
        "signal handlers": tuple(signal.getsignal(s) for s in SIGNALS),
        "timers": (signal.getitimer(signal.ITIMER_REAL)[1], signal.getitimer(signal.ITIMER_PROF)[1]),
        "exit handlers": atexit._ncallbacks(),
        "logging": (logging.root.level, list(logging.root.handlers), logging.root.manager.disable, logging.raiseExceptions, logging.getLoggerClass()),
        "file creation mask": umask(),
        "network time-out": socket.getdefaulttimeout(),
        "copying of foreign types": len(copyreg.dispatch_table),
        "functions of other modules": other_modules(),
        "arguments": list(sys.argv),
        "default decimal arithmetic": (decimal.DefaultContext.prec, decimal.DefaultContext.rounding),
        "threads": tuple(sorted(id(t) for t in threading.enumerate() if t.ident is not None and not isinstance(t, threading._DummyThread))),
        "locale": locale.setlocale(locale.LC_ALL),
        "time zone": time.tzname,
        "built-in names": hash(tuple(sorted((n, id(v)) for n, v in vars(builtins).items() if n != "_"))),
        "integer text limit": sys.get_int_max_str_digits(),
    }


def personal():
    """Settings each caller has to itself."""
    c = decimal.getcontext()
    return {"numeric error handling": (np.geterr(), np.geterrcall(), np.getbufsize()),
            "decimal arithmetic": (c.prec, c.rounding),
            "tracing": (sys.gettrace(), sys.getprofile())}


def differences(a, b):
    return [k for k in a if a[k] != b[k]]


def written():
    """What was written since the last reset, as text."""
    out = []
    for name, s in OUT.items():
        if s.attempts:
            out.append(f"{name}: {''.join(s.text)[:100]!r}")
    out += [f"{e}: {d}" for e, d in TAPE.events]
    return out
