"""What a user can see of a value: a canonical, comparable form.

Only observable parts are read (class name, value, units, exponents), never the
whole __dict__, so private caches the library might keep do not count."""
import math
import types

import numpy as np


def num(x):
    t = type(x)
    if t is float:
        return ["f", "nan" if x != x else x.hex()]
    if t is bool:
        return ["b", x]
    if t is int:
        return ["i", str(x)]
    if t is complex:
        return ["z", num(x.real)[1], num(x.imag)[1]]
    if isinstance(x, np.generic):
        v = x.item()
        return ["n", str(x.dtype)] + (num(v)[1:] if isinstance(v, (int, float, bool, complex)) else [repr(v)])
    return None


WATER_PROPS = ("temperature", "pressure", "Cp", "Cv", "density", "enthalpy", "entropy",
               "internal_energy", "phase", "thermal_conductivity", "viscosity", "specific_volume")


def canon(x, depth=0):
    if x is None:
        return ["N"]
    r = num(x)
    if r is not None:
        return r
    if isinstance(x, str):
        return ["s", x]
    if depth > 6:
        return ["deep"]
    if isinstance(x, (list, tuple)):
        tag = "T" if isinstance(x, tuple) else "L"
        name = type(x).__name__
        return [tag + ("" if name in ("list", "tuple") else ":" + name)] + [canon(y, depth + 1) for y in x]
    if isinstance(x, dict):
        return ["D"] + sorted(([canon(k, depth + 1), canon(v, depth + 1)] for k, v in x.items()), key=repr)
    if isinstance(x, (set, frozenset)):
        return ["S"] + sorted((canon(y, depth + 1) for y in x), key=repr)
    if isinstance(x, type):
        return ["type", x.__name__]
    if isinstance(x, BaseException):
        return ["exc", type(x).__name__]
    if isinstance(x, np.ndarray):
        return ["A", list(x.shape)] + [canon(y, depth + 1) for y in x.ravel().tolist()]
    cls = type(x).__name__
    top = getattr(x, "_top_half", _NO)
    if top is not _NO:
        return ["M", cls, canon(getattr(x, "_value", None), depth + 1),
                seq(top, depth), seq(getattr(x, "_bottom_half", None), depth)]
    unit = getattr(x, "_unit", _NO)
    if unit is not _NO:
        val = getattr(x, "_value", _NO)
        if val is _NO:
            return ["B", cls, canon(unit, depth + 1), canon(getattr(x, "_exponent", None), depth + 1)]
        return ["U", cls, canon(val, depth + 1), canon(unit, depth + 1),
                canon(getattr(x, "_exponent", None), depth + 1)]
    if getattr(x, "_viscosity", _NO) is not _NO and getattr(x, "_density", _NO) is not _NO:
        return ["W"] + [canon(getattr(x, "_" + p, None), depth + 1) for p in WATER_PROPS]
    if isinstance(x, types.FunctionType):
        return ["fn"]
    return ["O", cls]


_NO = object()


def seq(x, depth=0):
    if isinstance(x, (list, tuple)):
        return ["Q"] + [canon(y, depth + 2) for y in x]
    return canon(x, depth + 1)


def outcome(value, exc):
    if exc is not None:
        return ["raise", type(exc).__name__]
    return ["ok", canon(value)]


def show(c):
    """Short human text of a canonical form."""
    try:
        return _show(c)
    except Exception:
        return repr(c)


def _fv(c):
    if c[0] == "f":
        return repr(float.fromhex(c[1])) if c[1] != "nan" else "nan"
    if c[0] == "n":
        try:
            return repr(float.fromhex(c[2]))
        except (ValueError, IndexError, TypeError):
            return str(c[1:])
    return str(c[1]) if len(c) > 1 else str(c)


def _show(c):
    k = c[0]
    if k == "ok":
        return _show(c[1])
    if k == "raise":
        return "raises " + c[1]
    if k in ("f", "i", "b", "n"):
        return _fv(c)
    if k == "s":
        return repr(c[1])
    if k == "N":
        return "None"
    if k == "U":
        return f"{c[1]}({_show(c[2])} {_show(c[3])}^{_show(c[4])})"
    if k == "B":
        return f"{_show(c[2])}^{_show(c[3])}"
    if k == "M":
        return f"{c[1]}({_show(c[2])} {_show(c[3])}/{_show(c[4])})"
    if k in ("L", "T", "Q"):
        return "[" + ", ".join(_show(y) for y in c[1:]) + "]"
    if k == "W":
        return "Water(" + ", ".join(_show(y) for y in c[1:]) + ")"
    return repr(c)
