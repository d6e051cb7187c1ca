"""Importing as an operation: module locks under the scheduler, absent modules."""
import importlib
import importlib._bootstrap as _bootstrap
import sys
import types

from . import catalog, loader, seams
from .observe import canon

PKG = loader.PKG
# parts of the standard library that installations leave out
OPTIONAL = {"tkinter", "_tkinter", "turtle", "turtledemo", "idlelib", "test", "lib2to3", "ensurepip", "venv", "pydoc_data", "distutils"}


class ModuleLock(_bootstrap._ModuleLock):
    """CPython's own module lock; only the waiting is done by the scheduler."""

    def __init__(self, name):
        super().__init__(name)
        self.wakeup = seams.SimLock()


class Absent:
    """Nothing but core Python and numpy is installed."""

    def __init__(self):
        self.asked = []

    def find_spec(self, name, path=None, target=None):
        top = name.partition(".")[0]
        if top in ("numpy", PKG) or (top in sys.stdlib_module_names and top not in OPTIONAL):
            return None
        self.asked.append(name)
        raise ModuleNotFoundError(f"No module named {name!r}", name=name)

    def invalidate_caches(self):
        pass


ABSENT = Absent()


def install():
    _bootstrap._ModuleLock = ModuleLock
    if ABSENT not in sys.meta_path:
        sys.meta_path.insert(0, ABSENT)


def forget():
    """The state of a process that has imported nothing of ours."""
    for n in [n for n in sys.modules if n.partition(".")[0] in OPTIONAL]:
        del sys.modules[n]
    for n in [n for n in _bootstrap._module_locks if n.startswith(PKG)]:
        del _bootstrap._module_locks[n]
    _bootstrap._blocking_on.clear()


IDENTITY = {"__name__": "application", "__file__": "/app/application.py", "__doc__": "the importing module", "__package__": "app",
            "__spec__": None, "__loader__": None, "__author__": "somebody", "__version__": "1", "__path__": ["/app"], "__all__": ["main"],
            "__annotations__": {}, "__cached__": None}


def namespace():
    ns = dict(IDENTITY)
    ns["__builtins__"] = __builtins__
    return ns


def run_import(src, ns):
    exec(compile(src, "/app/application.py", "exec"), ns)
    return ns


def face(v):
    """What kind of thing a public name stands for."""
    if isinstance(v, type):
        tables = sorted((k, sorted(map(str, t))) for k, t in vars(v).items() if isinstance(t, dict) and not k.startswith("__"))
        return ["class", v.__name__, sorted(k for k in vars(v) if not k.startswith("__")), tables]
    if isinstance(v, types.FunctionType):
        return ["function", v.__name__, v.__code__.co_argcount]
    if isinstance(v, types.BuiltinFunctionType):
        return ["builtin", v.__name__]
    if getattr(v, "__module__", "").startswith("typing") or type(v).__module__ == "typing":
        return ["typing", str(v)]
    c = canon(v)
    return ["value", c]


def public(ns):
    return {k: face(v) for k, v in ns.items() if not k.startswith("_") and not isinstance(v, types.ModuleType)}


def objects(ns):
    return {k: v for k, v in ns.items() if not k.startswith("_") and isinstance(v, (type, types.FunctionType)) and str(getattr(v, "__module__", "")).startswith(PKG)}


def twins():
    """Classes and functions that exist twice: a name leading to another object than its definition."""
    out = []
    for mname in sorted(n for n in sys.modules if n.partition(".")[0] == PKG):
        m = sys.modules[mname]
        for k, v in objects(vars(m)).items():
            home = sys.modules.get(v.__module__)
            if home is None or "." in v.__qualname__:
                continue
            there = vars(home).get(v.__name__)
            if there is not None and there is not v and isinstance(there, type) == isinstance(v, type):
                out.append(f"{mname}.{k}")
    return out


PROBES = [
    ["bin", "mul", catalog.M("MultiUnit", 3, "kW/m^2*K"), catalog.U("Temperature", 5, "K")],
    ["conv", catalog.U("Pressure", 2, "atm"), "psi"], ["conv", catalog.M("ThermalConductivity", 3, "W/m*K"), "BTU/hr*ft*F"],
    ["conv", catalog.U("Temperature", 2, "F"), "K"], ["call", "utility.get_gas_constant", ["m^3*atm/kmol*K"]],
    ["call", "heat_transfer.radiative_heat_flow", [catalog.U("Area", 1, "m^2"), 1, catalog.U("Temperature", 1600, "K"), catalog.U("Temperature", 400, "K")]],
    ["call", "heat_transfer.deltat_logmean", [catalog.U("Temperature", x, "K") for x in (300, 350, 420, 380)]],
    ["call", "mass_transfer.stokes_einstein", [catalog.U("Temperature", 300, "K"), catalog.M("DynamicViscosity", .001, "kg/m*s"), catalog.U("Length", 1e-8, "m")]],
    ["call", "reactions.balance_equation", ["CH4 + O2 -> CO2 + H2O"]], ["call", "utility.get_water_properties", [300]],
    ["call", "process_safety.max_vessel_pressure", [catalog.U("Pressure", 800, "kPa"), catalog.U("Length", .02, "m"), catalog.U("Length", 1, "m"), "sphere"]],
]

# combinations of many kinds of quantities, for answers after importing only a part
_MIX = [catalog.U("Temperature", 5, "K"), catalog.U("Pressure", 2, "Pa"), catalog.U("Length", 3, "m"), catalog.U("Time", 4, "s"), catalog.U("Energy", 7, "J"),
        catalog.U("Mass", 6, "kg"), catalog.U("Force", 9, "N"), catalog.U("Amount", 2, "mol"), catalog.U("Area", 2, "m^2"), catalog.U("Volume", 3, "L"),
        catalog.U("Time", 4, "hr"), catalog.U("Length", 3, "ft")]
_MIX += [catalog.M("MultiUnit", 5, f[0]) for f in catalog.MULTI_FAMILIES] + [catalog.M("MultiUnit", 3, u) for u in ("Pa*s", "W", "V*A", "kg/m*s^2", "mol/m^3*s", "s^-1", "kg*m^2/s^2", "mol/s", "lb/ft^3", "kW/m^2*K",
                                                                                                    "mol/m^3", "m^3", "m^2", "K", "mol/m^2", "kg*m/s", "C/mol", "N/m", "N*m", "Pa/m", "A*s", "J/mol*K", "m^3/mol", "kg/kmol", "1/K")]
QUESTIONS = [["bin", k, a, b] for k in ("mul", "div") for a in _MIX for b in _MIX]
QUESTIONS += [["bin", "pow", a, e] for a in _MIX for e in (2, -1, 0.5)] + [["un", "repr", a] for a in _MIX]
QUESTIONS += [["conv", catalog.M("MultiUnit", 2, a), b] for f in catalog.MULTI_FAMILIES for a in f for b in f]
QUESTIONS += [["conv", catalog.U(c, 2, a), b] for c, us in catalog.CLASS_UNITS.items() for a in us for b in us]
QUESTIONS += [["call", n, args] for n in sorted(catalog.FUNCS) for args in catalog.FUNCS[n]]
