"""The operations users perform, as JSON recipes, and how to make and run them.

Recipes for values
  number/str/bool/None      itself            ["x","nan"]  special float
  ["n", v]                  numpy float64     ["L", ...] list   ["T", ...] tuple   ["A", ...] numpy array
  ["U", cls, v, unit, exp?] Unit              ["M", cls, v, "unit"]  MultiUnit
  ["B", unit, exp]          BaseUnit          ["c", NAME]  physical constant
  ["w", T]                  water record      ["wp", T, prop] property of one
  ["top", q] / ["bot", q]   unit list of q    ["P", i]  shared pool object
  ["R", id]                 result of an earlier operation of the same caller
  ["fn", name]              user function
Operations are lists as well; see OPS.
"""
import copy
import math
import pickle
import re

import numpy as np

from .loader import Missing

QUANT = ("U", "M")


class Skip(Exception):
    """An operand is not available (minimised away or unsuitable)."""


# ------------------------------------------------------------------ values
def U(cls, v, unit, exp=None):
    return ["U", cls, v, unit] + ([] if exp is None else [exp])


def M(cls, v, unit):
    return ["M", cls, v, unit]


def B(unit, exp=1):
    return ["B", unit, exp]


USER_FUNCS = {
    "times3": lambda x: x * 3.0, "third": lambda x: x / 3.0,
    "times4": lambda x: x * 4.0, "quarter": lambda x: x / 4.0,
    "times07": lambda x: x * 0.7, "over07": lambda x: x / 0.7,
    "plus10": lambda x: x + 10.0, "minus10": lambda x: x - 10.0,
    "aff": lambda x: 2.5 * x - 40.0, "affinv": lambda x: (x + 40.0) / 2.5,
}


def _boom(x):
    raise ZeroDivisionError("user conversion failed")


def _boom_key(x):
    return {}[x]


def _boom_value(x):
    return float("not a number")


def _reenter(env, cls, unit, to):
    def convert(x):
        return build(env, ["num", ["do", ["conv", U(cls, x, unit), to]]])
    return convert


def userfunc(env, name):
    """A user's function; re:<class>:<unit>:<unit> calls the library itself."""
    if name.startswith("re:"):
        return _reenter(env.apart or env, *name.split(":")[1:])
    return env.userfuncs[name]


USER_FUNCS.update(boom=_boom, boomkey=_boom_key, boomvalue=_boom_value)
BOOMS = {"boom": "ZeroDivisionError", "boomkey": "KeyError", "boomvalue": "ValueError"}


class Env:
    """Where recipes are built: an instance, a shared pool, a caller's results."""

    def __init__(self, inst, pool=None, results=None, userfuncs=None):
        self.inst = inst
        self.pool = pool if pool is not None else {}
        self.results = results if results is not None else {}
        self.userfuncs = userfuncs or USER_FUNCS
        self.apart = None         # where user functions that call the library do so, if elsewhere


def build(env, r):
    if not isinstance(r, list):
        return r
    k = r[0]
    if k in QUANT:
        return env.inst.cls(r[1])(build(env, r[2]), *r[3:])
    if k == "B":
        return env.inst.get("units.units.BaseUnit")(*r[1:])
    if k == "P":
        try:
            return env.pool[r[1]]
        except KeyError:
            raise Skip(f"pool {r[1]}")
    if k == "R":
        try:
            v = env.results[r[1]]
        except KeyError:
            raise Skip(f"result {r[1]}")
        return v
    if k == "c":
        return env.inst.get("utility.constants." + r[1])
    if k == "x":
        return float(r[1])
    if k == "n":
        return np.float64(build(env, r[1]))
    if k == "L":
        return [build(env, y) for y in r[1:]]
    if k == "T":
        return tuple(build(env, y) for y in r[1:])
    if k == "A":
        return np.array([build(env, y) for y in r[1:]], dtype=float)
    if k == "w":
        return env.inst.get("utility.get_water_properties")(r[1])
    if k == "wp":
        w = env.inst.get("utility.get_water_properties")(r[1])
        return getattr(w, "_" + r[2])
    if k == "top" or k == "bot":
        q = build(env, r[1])
        v = getattr(q, "_top_half" if k == "top" else "_bottom_half", None)
        if v is None:
            raise Skip("no unit list")
        return v
    if k == "of":             # property of a water record
        v = getattr(build(env, r[1]), "_" + r[2], None)
        if v is None:
            raise Skip("no such property")
        return v
    if k == "el":             # element of a returned list
        try:
            return build(env, r[1])[r[2]]
        except (TypeError, IndexError, KeyError):
            raise Skip("no such element")
    if k == "fn":
        return userfunc(env, r[1])
    if k == "do":             # the result of another operation
        fn, args, kw = prepare(env, r[1])
        return fn(*args, **kw)
    if k == "num":            # the value of a quantity/number operand
        q = build(env, r[1])
        return getattr(q, "_value", q)
    raise Missing(f"recipe {r!r}")


# -------------------------------------------------------------- operations
def _bin(op):
    return {"add": lambda a, b: a + b, "sub": lambda a, b: a - b, "mul": lambda a, b: a * b,
            "div": lambda a, b: a / b, "pow": lambda a, b: a ** b, "eq": lambda a, b: a == b,
            "ne": lambda a, b: a != b}[op]


BIN = {k: _bin(k) for k in ("add", "sub", "mul", "div", "pow", "eq", "ne")}

UN = {"neg": lambda a: -a, "repr": repr, "str": str, "deepcopy": copy.deepcopy, "copy": copy.copy,
      "pickle": lambda a: pickle.loads(pickle.dumps(a)), "fmt": lambda a: f"{a}"}


def conv(a, unit):
    return a.convert_to(unit)


def iconv(a, unit):
    return a.convert_to(unit, True)


def ledit(a, how):
    """A caller edits a list that was returned to it."""
    if not isinstance(a, list):
        raise Skip("not a list")
    if how == "append":
        a.append("edited")
    elif how == "clear":
        a.clear()
    elif how == "reverse":
        a.reverse()
    elif a and how == "pop":
        a.pop()
    elif a and how == "set":
        a[0] = "edited"


def _wset(a, t):
    a.temperature = t


def prepare(env, op):
    """-> (callable, args, kwargs): evaluated operands, library call not yet made."""
    k = op[0]
    if k == "bin":
        return BIN[op[1]], (build(env, op[2]), build(env, op[3])), {}
    if k == "un":
        return UN[op[1]], (build(env, op[2]),), {}
    if k == "conv":
        return conv, (build(env, op[1]), op[2]), {}
    if k == "iconv":
        return iconv, (build(env, op[1]), op[2]), {}
    if k == "call":
        fn = env.inst.get(op[1])
        kw = {n: build(env, v) for n, v in (op[3] if len(op) > 3 else {}).items()}
        return fn, tuple(build(env, a) for a in op[2]), kw
    if k == "meth":
        q = build(env, op[1])
        m = getattr(q, op[2], None)
        if m is None:
            raise Skip("no method")
        return m, tuple(build(env, a) for a in op[3]), {}
    if k == "static":
        cls = env.inst.cls("MultiUnit")
        m = getattr(cls, op[1], None)
        if m is None:
            raise Missing(op[1])
        return m, tuple(build(env, a) for a in op[2]), {}
    if k == "make":
        r = op[1]
        if r[0] in ("U", "M"):
            return env.inst.cls(r[1]), tuple(build(env, y) for y in r[2:]), {}
        return build, (env, r), {}
    if k == "wset":
        return _wset, (build(env, op[1]), build(env, op[2])), {}
    if k == "ledit":
        return ledit, (build(env, op[1]), op[2]), {}
    if k == "reg":
        fn = env.inst.get("units.register_unit_from_existing")
        return fn, (op[1], op[2], userfunc(env, op[3]), userfunc(env, op[4])), {}
    if k == "imp":
        from . import imports
        return imports.run_import, (op[1], imports.namespace()), {}
    if k == "usolve":
        return user_solver(env.inst, op[1]), tuple(build(env, a) for a in op[2]), {}
    raise Missing(f"operation {k}")


USER_SOLVER_SRC = '''
def make(solvable_for):
    @solvable_for(["F", "m", "a"])
    def newton(m, a, F=None, **kwargs):
        s = kwargs["solving_for"]
        if s == "F":
            return m * a
        if s == "m":
            return F / a
        if s == "a":
            return F / m
    @solvable_for(["x", "y", "z"], unknowns=2)
    def pair(x, y, z=None, w=None, **kwargs):
        return list(kwargs["solving_for"])
    @solvable_for(["F", "m", "a"])
    def nested(m, a, F=None, **kwargs):
        inner = newton(m, a, F)
        return (kwargs["solving_for"], inner)
    return {"newton": newton, "pair": pair, "nested": nested}
'''
USER_CODE = compile(USER_SOLVER_SRC, "user_equations.py", "exec")


def user_solver(inst, name):
    d = inst.__dict__.get("_user_solvers")
    if d is None:
        ns = {}
        exec(USER_CODE, ns)
        d = ns["make"](inst.get("utility.solvable_for"))
        inst._user_solvers = d
    return d[name]


# --------------------------------------------------------------- catalogue
def _K(v):
    return U("Temperature", v, "K")


def _m(v):
    return U("Length", v, "m")


_k = M("ThermalConductivity", 0.6, "W/m*K")
_rho = M("Density", 1000, "kg/m^3")
_cp = M("Cp", 4.18, "kJ/kg*K")
_mu = M("DynamicViscosity", 0.001, "kg/m*s")
_D = M("DiffusionCoefficient", 1e-3, "m^2/s")
_g = M("Gravity", 9.81, "m/s^2")
_A = U("Area", 1, "m^2")
_kE = M("ThermalConductivity", 10, "BTU/hr*ft*F")

FUNCS = {
    "heat_transfer.equivalent_diameter": [[_A, _m(4)], [U("Area", 2.5, "ft^2"), U("Length", 4, "ft")]],
    "heat_transfer.deltat_logmean": [[_K(300), _K(350), _K(420), _K(380)], [_K(300), _K(350), _K(420), _K(380), True]],
    "heat_transfer.solve_heat_exchanger_system": [
        [M("MultiUnit", 2, "kg/s"), _cp, M("MultiUnit", 3, "kg/s"), None, _K(300), None, _K(400), _K(350), _A, M("HeatTransferCoefficient", 50, "W/m^2*K"), False],
        [None, None, M("MultiUnit", 3, "kg/s"), _cp, _K(300), _K(320), _K(400), _K(350), _A, M("HeatTransferCoefficient", 50, "W/m^2*K")]],
    "heat_transfer.heat_exchangers.shell_htc_full": [[0.2, _m(0.8), _m(0.025), 20, _m(0.3), _m(0.04), M("MassFlowRate", 12, "kg/s"), _mu, _cp, _k]],
    "heat_transfer.heat_exchangers.Ge_calc": [[M("MassFlowRate", 12, "kg/s"), U("Area", 0.05, "m", 2), U("Area", 0.08, "m", 2)]],
    "heat_transfer.heat_exchangers.Sb_calc": [[0.2, _m(0.8), 20, _m(0.025)]],
    "heat_transfer.heat_exchangers.Sc_calc": [[_m(0.3), _m(0.8), _m(0.025), _m(0.04)]],
    "heat_transfer.heat_exchangers.htc_shell": [[_m(0.025), M("MultiUnit", 150, "kg/m^2*s"), _mu, 6.9, _k, 1]],
    "heat_transfer.heat_exchangers.z_factor": [[_K(420), _K(380), _K(300), _K(350)]],
    "heat_transfer.heat_exchangers.nh_factor": [[_K(420), _K(300), _K(350)]],
    "heat_transfer.wall_viscosity_correction_factor": [[_mu, M("DynamicViscosity", .0007, "kg/m*s")], [M("DynamicViscosity", 1, "cP"), M("DynamicViscosity", 2, "cP")]],
    "heat_transfer.htc_open_field_laminar_local": [[200000, 0.78, _m(50), _k], [200000, 0.78, U("Length", 3, "ft"), _kE, 1.1]],
    "heat_transfer.htc_open_field_laminar_avg": [[200000, 0.78, _m(50), _k], [200000, 0.78, U("Length", 3, "ft"), _kE, 0.9]],
    "heat_transfer.htc_open_field_turbulent_avg": [[4e6, 6.9, _m(50), _k, 1.05]],
    "heat_transfer.htc_open_field_turbulent_local": [[4e6, 6.9, _m(50), _k]],
    "heat_transfer.htc_pipe_laminar": [[800, 6.9, _m(0.01), _m(1), _k, 1.02]],
    "heat_transfer.htc_pipe_turbulent": [[400000, 6.9, _m(0.1), _k], [400000, 6.9, U("Length", 2, "in"), _kE]],
    "heat_transfer.htc_cross_cylinder": [[400000, 6.9, _m(0.1), _k]],
    "heat_transfer.htc_cross_sphere": [[400000, 6.9, _m(0.1), _k]],
    "heat_transfer.htc_short_pipe_correction": [[M("HeatTransferCoefficient", 400, "W/m^2*K"), _m(1), _m(2)]],
    "heat_transfer.pseudo_steady_time": [[M("Density", 990, "kg/m^3"), M("MultiUnit", 330, "J/kg"), _k, _K(323.15), _K(273.15), _m(.01), _m(1)]],
    "heat_transfer.semi_infinite_slab_conduction": [
        [U("Temperature", 300, "F"), U("Temperature", 100, "F"), U("Length", 1, "ft"), U("Time", 5, "hr"), M("Density", 78, "lb/ft^3"), M("Cp", 1, "BTU/lb*F"), _kE],
        [_K(400), _K(300), _m(0.1), U("Time", 500, "s"), _rho, _cp, _k]],
    "heat_transfer.lumped_parameter": [[_K(400), _K(300), M("HeatTransferCoefficient", 5, "W/m^2*K"), _A, M("Density", 800, "kg/m^3"), M("Cp", 1, "J/kg*K"), U("Volume", .5, "m^3"), U("Time", 100, "s")]],
    "heat_transfer.finite_slab_conduction": [[_K(303.15), _K(363.15), _m(.02), _m(.04), M("ThermalConductivity", 1.8, "W/m*K"), M("Density", 1050, "kg/m^3"), M("Cp", 800, "J/kg*K"), U("Time", 180, "s"), 3]],
    "heat_transfer.finite_slab_total_heat": [[_m(1), _rho, _cp, _K(400), _K(300), _k, U("Time", 300, "s"), _A, 3]],
    "heat_transfer.condensation_transfer_coefficient": [[_k, M("Density", 800, "kg/m^3"), _g, M("Hvap", 3000, "J/kg"), 4, _K(400), _K(300), _m(1), _mu]],
    "heat_transfer.flux_max_boiling": [[M("Hvap", 3000, "J/kg"), M("Density", 0.776, "kg/m^3"), M("Density", 0.987, "kg/m^3"), M("MultiUnit", 52, "kg/s^2"), _g]],
    "heat_transfer.radiative_heat_flow": [[_A, 1, _K(1600), _K(400)], [U("Area", 3, "m^2"), 0.7, _K(900), _K(300)]],
    "heat_transfer.planar_heat": [[_k, _K(500), _K(300), U("Area", 15, "m^2"), _m(1)], [_k, _K(500), _K(300), U("Area", 15, "m^2"), None, M("Power", 1800, "W")],
                                  [_k, _K(500), None, _A, _m(1), M("Power", 1800, "W")], [_k, None, _K(300), _A, _m(1), M("Power", 1800, "W")],
                                  [_k, _K(500), _K(300), _A, _m(1), M("Power", 500, "W")], [None, _K(500), _K(300), _A, _m(1), M("Power", 500, "W")]],
    "heat_transfer.planar_flux": [[_k, _K(500), _K(300), _m(1)], [_k, _K(500), _K(300), None, M("HeatFlux", 120, "W/m^2")],
                                  [_k, _K(500), None, _m(1), M("HeatFlux", 120, "W/m^2")]],
    "heat_transfer.pipe_heat": [[_k, _K(500), _K(300), _m(10), _m(0.5), _m(0.4)]],
    "heat_transfer.sphere_heat": [[_k, _K(500), _K(300), _m(0.5), _m(0.4)]],
    "mass_transfer.wilke_chang": [[310.9, 1, 18, 0.78, 65], [_K(310), 1, M("MolecularWeight", 18, "g/mol"), M("DynamicViscosity", 0.78, "cP"), M("MultiUnit", 65, "cm^3/mol")]],
    "mass_transfer.stokes_einstein": [[_K(300), _mu, _m(10e-9)]],
    "mass_transfer.ionic_diffusion_coefficient": [[M("MultiUnit", 8.314, "J/mol*K"), _K(300), 1, 2, M("MultiUnit", 50.1, "A/cm^2*V*mol"), M("MultiUnit", 76.3, "A/cm^2*V*mol")]],
    "mass_transfer.fullers": [[_K(300), U("Pressure", 1, "atm"), M("MolecularWeight", 30, "g/mol"), M("MolecularWeight", 40, "g/mol"), M("MultiUnit", 56, "cm^3/mol"), M("MultiUnit", 24, "cm^3/mol")],
                              [300, 1, 30, 40, 56, 24]],
    "mass_transfer.three_d_pulse_decay": [[U("Mass", 2000, "kg"), _m(50), M("DiffusionCoefficient", 3e-3, "m^2/s"), U("Time", 30000, "s"), "cube"],
                                          [U("Mass", 2000, "kg"), _m(50), M("DiffusionCoefficient", 3e-3, "cm^2/s"), U("Time", 30000, "s"), "hemisphere"],
                                          [U("Mass", 20, "kg"), _m(5), M("DiffusionCoefficient", 3e-3, "m^2/s"), U("Time", 3000, "s"), "sphere"]],
    "mass_transfer.two_d_pulse_decay": [[U("Mass", 2000, "kg"), _m(1), _m(50), M("DiffusionCoefficient", 3e-3, "m^2/s"), U("Time", 30000, "s")]],
    "mass_transfer.one_d_pulse_decay": [[U("Mass", 2000, "kg"), _A, _m(50), M("DiffusionCoefficient", 3e-3, "m^2/s"), U("Time", 30000, "s")]],
    "mass_transfer.semi_infinite_slab_diffusion": [[M("Concentration", 1, "kg/m^3"), M("Concentration", 0, "kg/m^3"), _m(1), M("DiffusionCoefficient", .05, "m^2/s"), U("Time", 30, "s")]],
    "mass_transfer.finite_slab_diffusion": [[M("Concentration", 1, "kg/m^3"), M("Concentration", .2, "kg/m^3"), _m(1), _m(0.3), M("DiffusionCoefficient", .05, "m^2/s"), U("Time", 30000, "s"), 3]],
    "mass_transfer.planar_mass_transfer_steady_state": [[_D, _A, M("Concentration", 0, "kg/m^3"), M("Concentration", 0.015, "kg/m^3"), _m(0.2)]],
    "mass_transfer.planar_mass_flux_steady_state": [[_D, M("Concentration", 0, "kg/m^3"), M("Concentration", 0.015, "kg/m^3"), _m(0.2)]],
    "mass_transfer.pipe_mass_transfer_steady_state": [[_D, _m(.5), _m(.4), M("Concentration", 0, "kg/m^3"), M("Concentration", 0.015, "kg/m^3"), _m(5)]],
    "mass_transfer.sphere_mass_transfer_steady_state": [[_D, _m(.5), _m(.4), M("Concentration", 0, "kg/m^3"), M("Concentration", 0.015, "kg/m^3")]],
    "process_safety.max_vessel_pressure": [[U("Pressure", 800, "kPa"), _m(0.02), _m(1), "cylinder"], [U("Pressure", 800, "kPa"), _m(0.02), _m(1), "sphere"], [U("Pressure", 8, "psi"), _m(0.02), _m(1), "cube"]],
    "process_safety.FAR": [[2, 1e9]],
    "process_safety.incident_evaluation.OSHA_incidence_rate": [[3, 4e5]],
    "process_safety.K_from_standard": [[M("MolecularWeight", 65, "g/mol")]],
    "process_safety.Qm_evaporation": [[M("MolecularWeight", 65, "g/mol"), M("MassTransferCoefficient", 0.54, "cm/s"), _A, U("Pressure", 5000, "Pa"), M("MultiUnit", 8.314, "m^3*Pa/mol*K"), _K(300)]],
    "process_safety.enclosure_concentration": [[M("MassFlowRate", .7, "g/s"), M("MultiUnit", 8.314, "m^3*Pa/mol*K"), _K(300), 0.35, M("VolumetricFlowrate", 5, "m^3/s"), U("Pressure", 101325, "Pa"), M("MolecularWeight", 65, "g/mol")]],
    "process_safety.ppm_to_other": [[1514.82, M("MultiUnit", 8.314, "m^3*Pa/mol*K"), _K(300), U("Pressure", 101325, "Pa"), M("MolecularWeight", 65, "g/mol")]],
    "reactions.balance_equation": [["Al + O2 -> Al2O3"], ["KI + Pb(NO3)2 -> KNO3 + PbI2"], ["CH4 + O2 -> CO2 + H2O"], ["C3H8 + O2 -> CO2 + H2O"],
                                   ["Fe + Cl2 -> FeCl3"], ["KMnO4 + HCl -> KCl + MnCl2 + H2O + Cl2"], ["H3PO4 + (NH4)2MoO4 + HNO3 -> (NH4)3PO4Mo12O36 + NH4NO3 + H2O"],
                                   ["C6H12O6 -> C2H6O + CO2"], ["Na + H2O -> NaOH"], ["H2 + O2 -> H2O"], ["Ca(OH)2 + H3PO4 -> Ca3(PO4)2 + H2O"],
                                   ["C2H6 + O2 -> CO2 + H2O"], ["Fe2O3 + CO -> Fe + CO2"], ["NH3 + O2 -> NO + H2O"], ["no arrow here"]],
    "reactions.integral_method": [[["L", 0, 10, 20, 30, 40], ["L", 0.624, 0.446, 0.318, 0.224, 0.164], ["T", 0, 4, .5]],
                                  [["L", 0, 1, 2, 3], ["L", 1.0, 0.5, 0.333, 0.25], ["T", 0, 3, 1]], [["L", 0, 5, 10], ["L", 9.0, 8.0, 7.1], ["T", 0, 2, .25]]],
    "reactions.arrhenius": [[1, 1e19, M("ActivationEnergy", 89000, "J/mol"), M("MultiUnit", 8.314, "J/mol*K"), _K(350)],
                            [0, 1e9, M("ActivationEnergy", 59000, "J/mol"), M("MultiUnit", 8.314, "J/mol*K"), _K(350)],
                            [2, 1e9, M("ActivationEnergy", 59000, "J/mol"), M("MultiUnit", 8.314, "J/mol*K"), _K(350)],
                            [1, 1e19, None, M("MultiUnit", 8.314, "J/mol*K"), _K(350), M("KineticConstant", 521191.7, "s^-1")],
                            [1, 1e19, M("ActivationEnergy", 89000, "J/mol"), M("MultiUnit", 8.314, "J/mol*K"), None, M("KineticConstant", 521191.7, "s^-1")],
                            [1, None, M("ActivationEnergy", 89000, "J/mol"), M("MultiUnit", 8.314, "J/mol*K"), _K(350), M("KineticConstant", 521191.7, "s^-1")]],
    "reactions.cstr_volume": [[M("MolarFlowRate", 5, "mol/s"), M("MolarFlowRate", 2, "mol/s"), M("ReactionRate", -0.3, "mol/L*s")], [M("MolarFlowRate", 5, "mol/s"), M("MolarFlowRate", 2, "mol/s"), M("ReactionRate", 0.3, "mol/m^3*s")]],
    "thermodynamics.rendlich_kwong": [[_K(350), U("Pressure", 9.4573, "bar"), _K(425.1), U("Pressure", 37.96, "bar"), "vapor", 6], [_K(350), U("Pressure", 9.4573, "bar"), _K(425.1), U("Pressure", 37.96, "bar"), "liquid", 4]],
    "thermodynamics.van_der_waals": [[_K(350), U("Pressure", 350, "kPa"), _K(360), U("Pressure", 400, "kPa"), "vapor", 6], [_K(350), U("Pressure", 350, "kPa"), _K(360), U("Pressure", 400, "kPa"), "liquid", 5]],
    "thermodynamics.soave_rendlich_kwong": [[_K(350), U("Pressure", 9.4573, "bar"), _K(425.1), U("Pressure", 37.96, "bar"), "vapor", 0.224, 6], [_K(350), U("Pressure", 9.4573, "bar"), _K(425.1), U("Pressure", 37.96, "bar"), "liquid", 0.2, 3]],
    "thermodynamics.peng_robinson": [[_K(350), U("Pressure", 9.4573, "bar"), _K(425.1), U("Pressure", 37.96, "bar"), "vapor", 0.224, 6], [_K(350), U("Pressure", 9.4573, "bar"), _K(425.1), U("Pressure", 37.96, "bar"), "liquid", 0.224, 3], [_K(350), U("Pressure", 9.4573, "bar"), _K(425.1), U("Pressure", 37.96, "bar"), "solid", 0.224, 3]],
    "utility.get_gas_constant": [[], ["K", "m^3", "Pa"], ["K", "L", "atm"], ["K", "m^3", "atm"], ["R", "L", "psi"], ["K", "m^3", "Pa", True]],
    "utility.reynolds": [[M("Density", 800, "kg/m^3"), M("Velocity", 5, "m/s"), _m(0.1), _mu], [M("Density", 1.5, "g/cm^3"), M("Velocity", 5, "cm/s"), U("Length", 3, "cm"), M("DynamicViscosity", 1, "cP")]],
    "utility.biot": [[M("HeatTransferCoefficient", 50, "W/m^2*K"), _m(0.1), _k]],
    "utility.prandtl": [[_mu, _cp, _k]],
    "utility.schmidt": [[_mu, _rho, _D]],
    "utility.gretz": [[_m(0.1), _m(2), _cp, _m(0.1), _rho, M("Velocity", 0.5, "m/s"), _k]],
    "utility.grashof": [[_g, U("Temperature", .0015, "K", -1), _K(300), _K(275), _m(1), _rho, _mu]],
    "utility.dimensionless.beta": [[M("Density", 1000, "kg/m^3"), M("Density", 990, "kg/m^3"), _K(300), _K(275)]],
    "utility.get_water_properties": [[300], [275], [1345], [644.3, True], [372.9, False], [100], [1400]],
}

# pairs for plain unit arithmetic and conversion
QUANTITIES = [
    _K(350), U("Temperature", 25, "C"), U("Temperature", 300, "F"), U("Temperature", 500, "R"), U("Temperature", 350, "K", 2),
    U("Pressure", 1, "atm"), U("Pressure", 101325, "Pa"), U("Pressure", 14.7, "psi"), U("Pressure", 2, "bar"), U("Pressure", 760, "mmHg"), U("Pressure", 350, "kPa"),
    _m(1), U("Length", 3, "ft"), U("Length", 12, "in"), U("Length", 25, "cm"), U("Length", 2, "m", 2), U("Length", 5, "km"),
    U("Time", 5, "min"), U("Time", 3, "hr"), U("Time", 50, "s"), U("Time", 50, "s", -1),
    U("Energy", 100, "J"), U("Energy", 5, "BTU"), U("Energy", 3, "kJ"),
    U("Mass", 2, "kg"), U("Mass", 500, "g"), U("Mass", 4, "lb"),
    U("Force", 10, "N"), U("Force", 3, "lbf"), U("Current", 2, "A"), U("Amount", 3, "mol"),
    U("Area", 2, "m^2"), U("Area", 3, "acre"), U("Volume", 2, "m^3"), U("Volume", 5, "L"),
    U("Unit", 5, "m"), U("Unit", 2, "Pa"), U("Unit", 0.0, "s", -2),
    M("MultiUnit", 5, "m/s"), M("MultiUnit", 3, "kg*m/s^2"), M("MultiUnit", 1, "kW/m"), M("MultiUnit", 100, "Pa*m/s^2*F"),
    M("MultiUnit", 350, "J/s"), M("MultiUnit", 1, "kg^2/m*s^3"), M("MultiUnit", 2, "J^2/s^2"), M("MultiUnit", 1, "MW/Mm"),
    M("MultiUnit", 1, "mol/ft^2"), M("MultiUnit", 1000, "L/s"), M("MultiUnit", 5, "m^3"), M("MultiUnit", 10, "mPa*m/kg"),
    M("MultiUnit", 7, "W/m^2*K"), M("MultiUnit", 7, "kg/s^3*K"), M("MultiUnit", 1.5, "m^0.5*kg/s^1.5"), M("MultiUnit", 4, "V*A"),
    M("Velocity", 3, "m/s"), M("Velocity", 300, "cm/s"), M("Density", 1, "g/cm^3"), M("Density", 62.4, "lb/ft^3"), _k, _kE, _mu, _cp, _D, _rho,
    M("Power", 50, "W"), M("HeatFlux", 120, "W/m^2"), M("Hvap", 3000, "J/kg"), M("Concentration", 2, "mol/L"), M("Cp", 1, "BTU/lb*F"),
    M("SpecificVolume", 0.001, "m^3/kg"), M("Enthalpy", 200, "kJ/kg"), M("Entropy", 0.4, "J/g*K"),
    ["c", "BOLTZMANS_CONSTANT"], ["c", "AVAGADROS_CONSTANT"], ["c", "PLANCKS_CONSTANT"], ["c", "RADIATION_CONSTANT"], ["c", "FARADAYS_CONSTANT"],
    ["wp", 300, "density"], ["wp", 412.5, "viscosity"], ["wp", 300, "thermal_conductivity"], ["wp", 500, "enthalpy"],
]
CONSTANTS = ["BOLTZMANS_CONSTANT", "AVAGADROS_CONSTANT", "PLANCKS_CONSTANT", "RADIATION_CONSTANT", "FARADAYS_CONSTANT"]

SCALARS = [2, 3.0, 0.5, -1, 0, 10, 1e3, ["n", 2.5], 0.25, True, 1, 1.0]

CLASS_UNITS = {
    "Temperature": ["K", "C", "F", "R"],
    "Pressure": ["Pa", "kPa", "MPa", "bar", "atm", "mmHg", "psi", "mPa", "uPa", "dPa"],
    "Length": ["m", "in", "ft", "yd", "mile", "um", "mm", "cm", "dm", "km"],
    "Time": ["s", "min", "hr", "day"],
    "Energy": ["J", "uJ", "mJ", "cJ", "dJ", "kJ", "MJ", "BTU"],
    "Mass": ["kg", "ug", "mg", "dg", "g", "Mg", "lb"],
    "Force": ["N", "uN", "mN", "dN", "kN", "MN", "lbf"],
    "Volume": ["m^3", "dm^3", "cm^3", "ft^3", "L"],
    "Area": ["m^2", "ft^2", "acre"],
    "Current": ["A"], "Amount": ["mol"], "Unit": ["m"],
}
MULTI_FAMILIES = [
    ["m/s", "cm/s", "ft/min", "km/hr", "in/s", "ft/s", "yd/min"],
    ["kg/m^3", "g/cm^3", "lb/ft^3", "kg/L", "g/L"],
    ["W/m*K", "BTU/hr*ft*F", "kW/m*K", "J/s*m*K", "W/m*C"],
    ["W/m^2*K", "BTU/hr*ft^2*F", "kg/s^3*K", "kW/m^2*K"],
    ["kJ/kg*K", "J/g*K", "BTU/lb*F", "J/kg*K"],
    ["kg/m*s", "cP", "g/cm*s", "lb/ft*s", "Pa*s", "kg/s*m"],
    ["m^2/s", "cm^2/s", "ft^2/hr", "m^2/hr"],
    ["J/kg", "kJ/kg", "BTU/lb", "J/g", "MJ/kg", "mJ/kg"],
    ["mol/L", "mol/m^3", "mol/cm^3"],
    ["kg/s", "g/s", "lb/hr", "kg/min"],
    ["m^3/s", "L/s", "ft^3/min", "cm^3/s", "L/min"],
    ["W/m^2", "kg/s^3", "BTU/hr*ft^2", "kW/m^2"],
    ["Pa*m", "atm*m", "bar*cm", "kPa*m", "MPa*m", "mPa*m"],
    ["kg/mol", "g/mol", "lb/mol"],
    ["mol/ft^2", "mol/acre", "mol/m^2"],
    ["kg*m/s^2", "g*cm/s^2"], ["m^3", "cm^3", "ft^3", "L"], ["J/s", "W", "kW", "BTU/hr", "MW", "mW", "MJ/s"],
]
BAD_UNITS = ["furlong", "", "K^x", "kg/", "m//s", "mol*", "K", "W/m*K", "J", "ft", "L^2", "zz/yy", "C^2", "m^3", "^2", "kg*m"]


def family_of(unit):
    return [f for f in MULTI_FAMILIES if unit in f]


# ------------------------------------------------------------- generation
FACTORS = [1, 1, 1, 1, 2, 0.5, 1.1, 3, 7, 1e3, 1e-3, 1.0001, 1.25, 0.9, 1.5, 4, -1, 0]


def mutate(rng, r, wild=0.0, unit=0.0):
    """A nearby argument: other value, other unit of the same kind, or junk."""
    if isinstance(r, bool) or r is None:
        return r
    if isinstance(r, (int, float)):
        if rng.random() < 0.5:
            return r
        f = rng.choice(FACTORS)
        v = r * f
        if isinstance(r, int) and 1 < abs(r) <= 12:           # iteration counts and the like
            v = int(min(12, max(0, v)))
        return v
    if isinstance(r, str):
        return r
    if r[0] in QUANT:
        if rng.random() < wild:
            return rng.choice([None, 5, "x", _K(300), M("MultiUnit", 2, "m/s"), ["x", "nan"], _m(0), ["n", 4.5]])
        q = list(r)
        if rng.random() < 0.55:
            q[2] = mutate_value(rng, q[2])
        if rng.random() < unit:
            if q[0] == "U":
                q[3] = rng.choice(CLASS_UNITS.get(q[1], [q[3]]))
            else:
                fams = family_of(q[3])
                if fams:
                    q[3] = rng.choice(rng.choice(fams))
        return q
    if r[0] in ("L", "T", "A"):
        ys = [mutate(rng, y) if rng.random() < 0.3 else y for y in r[1:]]
        if r[0] == "L" and rng.random() < 0.15:
            rng.shuffle(ys)
        return [r[0]] + ys
    return r


# texts and numbers to try more often (see aim)
WORDS = []
NUMBERS = []


def mutate_value(rng, v):
    if not isinstance(v, (int, float)):
        return v
    if NUMBERS and rng.random() < 0.1:
        n = rng.choice(NUMBERS)
        return rng.choice([n, n, n + 1, n - 1, n / 2, n * 2])
    c = rng.random()
    if c < 0.7:
        return v * rng.choice(FACTORS)
    if c < 0.8:
        return v + rng.choice([1, 0.3, -2, 1e-9])
    if c < 0.9:
        return rng.choice([0, 0.0, -0.0, 1, 1.0, 1e-300, 1e300, 2 ** 53 + 1])
    return ["x", rng.choice(["nan", "inf", "-inf"])] if c < 0.93 else ["n", float(v)]


KWNAMES = {
    "heat_transfer.planar_heat": ["k", "T1", "T2", "A", "thickness", "q"],
    "heat_transfer.htc_pipe_turbulent": ["Re", "Pr", "diameter", "k", "psi_v"],
    "reactions.arrhenius": ["order", "A", "Ea", "R", "T", "k"],
    "utility.get_gas_constant": ["temperature_units", "volume_units", "pressure_units", "generic"],
}

UNIT_OPS = ["bin:add", "bin:sub", "bin:mul", "bin:div", "bin:mulU", "bin:divU", "bin:pow", "bin:scal", "bin:rscal", "bin:eq",
            "un:repr", "un:neg", "un:copy", "conv:U", "conv:M", "conv:bad", "make",
            "help:cancel_units", "help:combine_units", "help:simplify_units", "help:deconstruct_units",
            "help:deconstruct_unit_prefixes", "help:parse_units", "help:get_exponent_total", "help:get_unit_string",
            "help:base_to_unit", "help:get_unit_class", "help:check_units", "help:common", "help:strings", "usolve"]
ENTRIES = sorted(FUNCS) + UNIT_OPS


def same_kind(rng, q):
    """A second operand addable to q."""
    r = list(q)
    if r[0] in QUANT:
        r[2] = mutate_value(rng, r[2])
    if r[0] == "M" and rng.random() < 0.3:
        r[3] = reorder(rng, r[3])
    return r


def reorder(rng, unit):
    """The same compound unit with its parts in another order."""
    halves = [h.split("*") for h in unit.split("/")]
    for h in halves:
        rng.shuffle(h)
    return "/".join("*".join(h) for h in halves)


MULTIS = [q for q in QUANTITIES if q[0] == "M" or q[0] == "c"]
UNITS = [q for q in QUANTITIES if q[0] == "U"]


PARTS = ["kg", "g", "m", "m", "s", "s", "A", "K", "mol", "lbf", "in", "J", "Pa", "W", "psi", "cP", "C", "V", "N", "ft", "hr", "L", "km", "kJ", "MPa", "lb", "mol"]


def about(rng, word):
    """Quantities whose product or quotient is in this unit."""
    top, _, bottom = word.partition("/")
    top, bottom = top.split("*"), [b for b in bottom.split("*") if b]
    if bottom and rng.random() < 0.6:
        b = bottom.pop(rng.randrange(len(bottom)))
        return ["bin", "div", M("MultiUnit", 3.5, "*".join(top) + ("/" + "*".join(bottom) if bottom else "")), M("MultiUnit", 2, b)]
    t = top.pop(rng.randrange(len(top)))
    return ["bin", "mul", M("MultiUnit", 2, t), M("MultiUnit", 3.5, ("*".join(top) or "m") + ("/" + "*".join(bottom) if bottom else ""))]


def compound(rng):
    """Any compound unit, likely one that can be simplified in more than one way."""
    if WORDS and rng.random() < 0.3:
        return rng.choice(WORDS)
    def half(n):
        us = sorted(set(rng.choice(PARTS) for _ in range(n)), key=PARTS.index)
        rng.shuffle(us)
        return "*".join(u + rng.choice(["", "", "", "^2", "^2", "^3", "^0.5", "^1.5"]) for u in us)
    if rng.random() < 0.5:
        # what composite units consist of, multiplied
        ds = rng.sample(["kg*m^2/s^2", "J/s", "lbf/in^2", "g/m*s", "A*s", "kg*m^2/s^3*A", "kg/m*s^2"], rng.choice([1, 2, 2]))
        top = "*".join(d.partition("/")[0] for d in ds)
        bottom = "*".join(d.partition("/")[2] for d in ds if "/" in d)
        more = half(rng.choice([0, 1, 1]))
        if more:
            top, bottom = (top + "*" + more, bottom) if rng.random() < 0.5 else (top, (bottom + "*" if bottom else "") + more)
        return top + ("/" + bottom if bottom else "")
    bottom = half(rng.randint(0, 3))
    return half(rng.randint(1, 4)) + ("/" + bottom if bottom else "")


def lists_for(rng):
    if rng.random() < 0.25:
        return M("MultiUnit", mutate_value(rng, 5), compound(rng))
    src = rng.choice(["kg*m/m^2", "m*m/s", "J/s", "kg*m^2/s^3", "kg*m^2*K/s^2*m", "W*s/J*m", "m*kg*m/s*kg", "W/m^2*K", "W*m/J", "Pa*m^2/K", "kg*m^2/s^2*mol", "A*s/mol", "kg/s^3*K", "m^2*s/m*s^3"])
    return M(rng.choice(["MultiUnit", "Velocity", "Power"]), mutate_value(rng, 5), src)


MOLECULES = ["H2", "O2", "H2O", "CO2", "CH4", "C2H6", "C3H8", "NH3", "NO", "NO2", "N2", "HNO3", "Fe", "Fe2O3", "FeO", "CO", "Al", "Al2O3",
             "Na", "NaOH", "NaCl", "Cl2", "HCl", "KMnO4", "MnCl2", "KCl", "Ca(OH)2", "H3PO4", "Ca3(PO4)2", "CaO", "H2SO4", "SO2", "SO3",
             "Cu", "Cu(NO3)2", "CuSO4", "Cu2S", "C6H12O6", "C2H6O", "K2Cr2O7", "CrCl3", "S", "H2S", "Pb(NO3)2", "PbI2", "KI", "KNO3", "Al2(SO4)3"]


def equation(rng):
    """A reaction: mostly over a closed set of elements, sometimes nonsense."""
    def elements(ms):
        return set(re.findall(r"[A-Z][a-z]?", "".join(ms)))
    c = rng.random()
    if c < 0.2:
        return exchange(rng)
    if c < 0.3:
        # large molecules much like each other: the last digit of the solution decides
        els = rng.sample(["H", "O", "C", "N", "S", "Na", "Cl", "K", "Fe", "Cu"], rng.randint(6, 9))
        spread = rng.choice([2, 2, 48])
        typical = [rng.randint(50, 98) for _ in els]
        ms = ["".join(f"{e}{n + rng.randint(-spread, spread) + 1}" for e, n in zip(els, typical)) for _ in range(len(els) + rng.randint(0, 2))]
        cut = rng.randrange(1, len(ms))
        return " + ".join(ms[:cut]) + " -> " + " + ".join(ms[cut:])
    if c < 0.5:
        # more molecules than elements: many solutions, so numerics decide
        els = rng.sample(["H", "O", "C", "N", "S", "Na", "Cl", "K"], rng.randint(2, 4))
        for _ in range(100):
            ms = ["".join(e + (str(n) if n > 1 else "") for e in rng.sample(els, rng.randint(1, len(els))) for n in [rng.randint(1, 9)])
                  for _ in range(len(els) + rng.randint(1, 4))]
            cut = rng.randrange(1, len(ms))
            left, right = ms[:cut], ms[cut:]
            if elements(left) == elements(right):
                return " + ".join(left) + " -> " + " + ".join(right)
    for _ in range(300):
        left = rng.sample(MOLECULES, rng.choice([1, 2, 2, 2, 3, 3]))
        right = rng.sample(MOLECULES, rng.choice([1, 2, 2, 3, 3]))
        if elements(left) == elements(right):
            break
    return " + ".join(left) + " -> " + " + ".join(right)


CATIONS = [("Na", 1), ("K", 1), ("Ag", 1), ("NH4", 1), ("Ca", 2), ("Pb", 2), ("Mg", 2), ("Cu", 2), ("Ba", 2), ("Al", 3), ("Fe", 3)]
ANIONS = [("Cl", 1), ("I", 1), ("OH", 1), ("NO3", 1), ("SO4", 2), ("CO3", 2), ("S", 2), ("PO4", 3)]


def salt(cation, anion):
    (c, p), (a, n) = cation, anion
    g = math.gcd(p, n)

    def part(x, k):
        if k == 1:
            return x
        return f"{x}{k}" if re.fullmatch(r"[A-Z][a-z]?", x) else f"({x}){k}"
    return part(c, n // g) + part(a, p // g)


def exchange(rng):
    """Two salts that exchange partners: groups in brackets turn up again and again."""
    (a, b), (x, y) = rng.sample(CATIONS, 2), rng.sample(ANIONS, 2)
    return f"{salt(a, x)} + {salt(b, y)} -> {salt(a, y)} + {salt(b, x)}"


def make_op(rng, entry):
    """One operation of this catalogue entry, operands as plain recipes."""
    if WORDS and entry in ("bin:mul", "bin:div", "bin:mulU", "bin:divU") and rng.random() < 0.2:
        return about(rng, rng.choice(WORDS))
    if entry == "reactions.balance_equation" and rng.random() < 0.5:
        return ["call", entry, [equation(rng)]]
    if entry in FUNCS:
        base = rng.choice(FUNCS[entry])
        mode = rng.random()
        if mode < 0.35:
            args = list(base)
        elif mode < 0.85:
            args = [mutate(rng, a) for a in base]
        elif mode < 0.92:
            args = [mutate(rng, a, 0.0, 0.3) for a in base]
        elif mode < 0.96:
            args = level(rng, base)
        else:
            args = [mutate(rng, a, 0.2, 0.1) for a in base]
        if entry == "reactions.integral_method" and rng.random() < 0.4:
            args = kinetics(rng)
        if entry == "reactions.balance_equation" or entry == "utility.get_gas_constant":
            args = list(base)
        if entry == "utility.get_water_properties":
            args = list(base)
            if rng.random() < 0.7:
                args[0] = water_temp(rng)
            if rng.random() < 0.3:
                args[1:] = [rng.choice([True, False, False])]
        names = KWNAMES.get(entry)
        if names and rng.random() < 0.3 and args:
            cut = rng.randrange(len(args))
            return ["call", entry, args[:cut], dict(zip(names[cut:], args[cut:]))]
        return ["call", entry, args]
    k, _, s = entry.partition(":")
    if k == "bin":
        if s in ("add", "sub"):
            q = rng.choice(QUANTITIES)
            return ["bin", s, mut_q(rng, q), same_kind(rng, q) if rng.random() < 0.85 else rng.choice(QUANTITIES + SCALARS)]
        if s in ("mul", "div"):
            return ["bin", s, mut_q(rng, rng.choice(MULTIS)), mut_q(rng, rng.choice(MULTIS))]
        if s == "mulU":
            pair = [mut_q(rng, rng.choice(MULTIS + UNITS)), mut_q(rng, rng.choice(UNITS))]
            rng.shuffle(pair)
            return ["bin", "mul"] + pair
        if s == "divU":
            pair = [mut_q(rng, rng.choice(MULTIS + UNITS)), mut_q(rng, rng.choice(UNITS))]
            rng.shuffle(pair)
            return ["bin", "div"] + pair
        if s == "pow":
            return ["bin", "pow", mut_q(rng, rng.choice(QUANTITIES)), rng.choice([2, 3, 0.5, 1 / 3, -1, 0, 0.25, 1, -2])]
        if s == "scal":
            return ["bin", rng.choice(["mul", "div", "mul", "add", "sub"]), mut_q(rng, rng.choice(QUANTITIES)), rng.choice(SCALARS)]
        if s == "rscal":
            return ["bin", rng.choice(["mul", "div", "mul"]), rng.choice([x for x in SCALARS if not isinstance(x, list)]), mut_q(rng, rng.choice(QUANTITIES))]
        q = rng.choice(QUANTITIES)
        if q[0] == "M" and rng.random() < 0.35:
            return ["bin", rng.choice(["eq", "ne"]), q, q[:3] + [reorder(rng, q[3])]]
        return ["bin", rng.choice(["eq", "ne"]), q, same_kind(rng, q) if rng.random() < 0.7 else rng.choice(QUANTITIES)]
    if k == "un":
        q = mut_q(rng, rng.choice(QUANTITIES))
        if s == "repr":
            return ["un", rng.choice(["repr", "str", "fmt"]), q]
        if s == "copy":
            return ["un", rng.choice(["deepcopy", "copy", "pickle"]), q]
        return ["un", s, q]
    if k == "conv":
        if s == "U":
            q = mut_q(rng, rng.choice(UNITS))
            us = list(CLASS_UNITS.get(q[1], ["m"]))
            u = rng.choice(us)
            if len(q) > 4 and rng.random() < 0.5:
                u = f"{u}^{q[4]}"
            return ["conv", q, u]
        if s == "M":
            fam = rng.choice(MULTI_FAMILIES)
            return ["conv", M(rng.choice(["MultiUnit", "MultiUnit", "Velocity", "Density"]), mutate_value(rng, 3.0), rng.choice(fam)), rng.choice(fam)]
        return ["conv", mut_q(rng, rng.choice(QUANTITIES)), rng.choice(BAD_UNITS)]
    if k == "make":
        q = mut_q(rng, rng.choice(UNITS + [x for x in MULTIS if x[0] == "M"]))
        if rng.random() < 0.2:
            q[3] = rng.choice(BAD_UNITS)
        return ["make", q]
    if k == "help":
        q = lists_for(rng)
        if s in ("cancel_units", "simplify_units", "deconstruct_units", "deconstruct_unit_prefixes", "base_to_unit"):
            if s == "base_to_unit":
                q[3] = rng.choice(["kg*m/s^2", "m/s", "mol/L", "zz/s", "K/hr"])
            if s == "deconstruct_unit_prefixes":
                q[3] = rng.choice(["kW/km", "kg/mm", "MW*cm/ms", "mW*cm/ms", "MW/m", "mPa*s", "MPa*s", "xW/m", "cP/m", "kmol/L"])
            return ["meth", q, s, [["top", q], ["bot", q]] + ([True] if s == "deconstruct_units" and rng.random() < 0.45 else [])]
        if s == "combine_units":
            return ["meth", q, s, [[rng.choice(["top", "bot"]), q]]]
        if s == "parse_units":
            return ["static", s, [rng.choice([q[3], "m/s", "W", "kg/", "m^x/s", "1/s", "a/b/c", "m^2*kg/s^2*K"])]]
        if s in ("get_exponent_total", "get_unit_string"):
            return ["meth", mut_q(rng, rng.choice(MULTIS)), s, []]
        if s == "get_unit_class":
            return ["static", s, [rng.choice(["kg", "m", "atm", "mol", "zz", "L", "BTU"])]]
        if s == "check_units":
            return ["call", "units.units.check_units", [mut_q(rng, rng.choice(QUANTITIES)), rng.choice(["K", "g/mol", "atm", "m/s"]), "thing"]]
        if s == "common":
            return ["call", "units.units.do_common_simplifications", [["top", q], ["bot", q]]]
        return ["call", "units._utility." + rng.choice(["to_sup", "remove_zero", "get_prefix", "powerset"]),
                [rng.choice(["km", "2.0", "m", "cP", "12", "mPa", "MPa", "Km"])]]
    if k == "usolve":
        f = _m(0)
        v = rng.choice(["newton", "newton", "pair", "nested"])
        if v == "pair":
            a = [3, mutate_value(rng, 2.0), 5]
            for _ in range(rng.choice([1, 2, 2, 3])):
                a[rng.randrange(3)] = None
            return ["usolve", v, a]
        a = [M("MultiUnit", mutate_value(rng, 2.0), "kg*m/s"), mutate_value(rng, 9.8), M("MultiUnit", mutate_value(rng, 20.0), "kg*m/s")]
        for _ in range(rng.choice([1, 1, 1, 2])):
            a[rng.randrange(3)] = None
        return ["usolve", v, a]
    raise Missing(entry)


def level(rng, base):
    """Arguments with two alike ones made equal: no difference left to work with."""
    args = list(base)
    alike = [(i, j) for i in range(len(args)) for j in range(len(args)) if i != j and isinstance(args[i], list) and isinstance(args[j], list) and args[i][:2] == args[j][:2]]
    if alike:
        i, j = rng.choice(alike)
        args[i] = args[j]
    return args


def kinetics(rng):
    """Measured data, good and bad, and a range of orders to try."""
    n = rng.choice([2, 3, 4, 5, 8])
    t = [10 * i for i in range(n)]
    c = rng.random()
    if c < 0.3:
        y = [rng.choice([1.0, 2.0, 4.0, 8.0])] * n
    elif c < 0.6:
        y = [rng.choice([8.0, 0.5, 2.0, 1.0, 8.5, 0.25]) for _ in range(n)]
    else:
        y = [round(5.0 / (1 + 0.3 * i), rng.choice([1, 3])) for i in range(n)]
    if rng.random() < 0.2:
        t, y = rng.choice([(t[:-1], y), (t, [0.0] + y[1:]), ([5] * n, y)])
    if rng.random() < 0.3:                    # not in order of time
        order = rng.sample(range(len(t)), len(t))
        t, y = [t[i] for i in order], [y[i] for i in order if i < len(y)] + y[len(t):]
    r = rng.choice([[0, 4, .5], [0, 1, .25], [-1, 0.5, .5], [0, 3, 1], [1, 2, .25], [0.5, 2.5, .5], [2, 2, 1], [0, 2, .125]])
    if rng.random() < 0.3:
        t = [x + 10 for x in t]
    return [[rng.choice("LLA")] + t, [rng.choice("LLA")] + y, ["T"] + r]


def water_temp(rng):
    return rng.choice([275, 285, 300, 300.0, 301.3, 305, 344.9, 345, 372.9, 373.15, 375, 500, 644.3, 650, 999.99, 1345, 1340,
                       round(rng.uniform(275, 1345), 1), 274.9, 1345.1, -5, 0, ["x", "nan"], ["n", 311.5]])


def mut_q(rng, q):
    if q[0] not in QUANT:
        return q
    q = list(q)
    if rng.random() < 0.4:
        q[2] = mutate_value(rng, q[2])
    elif rng.random() < 0.08:
        q[2] = rng.choice([0, 0.0, -0.0])
    if q[0] == "M" and q[1] == "MultiUnit" and rng.random() < 0.15:
        q[3] = compound(rng)
    elif WORDS and q[0] == "U":
        us = [w for w in WORDS if w in CLASS_UNITS.get(q[1], ())]
        if us and rng.random() < 0.3:
            q[3] = rng.choice(us)
    return q


# --------------------------------------------------------- pool conversion
def poolify(rng, op, pool, share=0.6, p_pool=0.8):
    """Moves quantity/list operands of op into the shared pool (deduplicated)."""
    def put(r):
        if not isinstance(r, list) or not r:
            return r
        if r[0] in ("top", "bot"):
            return [r[0], put(r[1])]
        if r[0] in ("L", "T") and any(isinstance(y, list) for y in r[1:]):
            return [r[0]] + [put(y) for y in r[1:]]
        if r[0] in ("U", "M", "L", "A", "c", "wp", "w"):
            if rng.random() > p_pool:
                return r
            if rng.random() < share:
                for i, x in enumerate(pool):
                    if x[0] == r[0] and x[1:2] == r[1:2] and (r[0] not in QUANT or x[3:] == r[3:]):
                        return ["P", i]
            for i, x in enumerate(pool):
                if x == r and type_eq(x, r):
                    return ["P", i]
            pool.append(r)
            return ["P", len(pool) - 1]
        return r
    out = []
    k = op[0]
    if k == "call":
        out = ["call", op[1], [put(a) for a in op[2]]]
        if len(op) > 3:
            out.append({n: put(v) for n, v in op[3].items()})
        return out
    if k == "meth":
        q = put(op[1])
        args = []
        for a in op[3]:
            if isinstance(a, list) and a[0] in ("top", "bot") and a[1] == op[1]:
                args.append([a[0], q])
            else:
                args.append(put(a))
        return ["meth", q, op[2], args]
    if k == "static":
        return op
    if k == "make":
        return op
    if k == "usolve":
        return ["usolve", op[1], [put(a) for a in op[2]]]
    if k in ("conv", "iconv"):
        return [k, put(op[1]), op[2]]
    if k in ("bin", "un"):
        return op[:2] + [put(a) for a in op[2:]]
    return op


def type_eq(a, b):
    if isinstance(a, list) and isinstance(b, list):
        return len(a) == len(b) and all(type_eq(x, y) for x, y in zip(a, b))
    return type(a) is type(b) and repr(a) == repr(b)


def pool_refs(op):
    out = set()

    def walk(r):
        if isinstance(r, list):
            if len(r) == 2 and r[0] == "P" and isinstance(r[1], int):
                out.add(r[1])
            else:
                for y in r:
                    walk(y)
        elif isinstance(r, dict):
            for y in r.values():
                walk(y)
    walk(op)
    return out


def inline(op, by_id):
    """op with references to earlier results replaced by the operations themselves."""
    def walk(r):
        if isinstance(r, list):
            if len(r) == 2 and r[0] == "R" and r[1] in by_id:
                return ["do", inline(by_id[r[1]], by_id)]
            return [walk(y) for y in r]
        if isinstance(r, dict):
            return {k: walk(v) for k, v in r.items()}
        return r
    return walk(op)


def unpool(op, pool):
    """op with shared objects replaced by the recipes they were made from."""
    def walk(r):
        if isinstance(r, list):
            if len(r) == 2 and r[0] == "P" and isinstance(r[1], int):
                return pool[r[1]]
            return [walk(y) for y in r]
        if isinstance(r, dict):
            return {k: walk(v) for k, v in r.items()}
        return r
    return walk(op)


def result_refs(op):
    out = set()

    def walk(r):
        if isinstance(r, list):
            if len(r) == 2 and r[0] == "R" and isinstance(r[1], int):
                out.add(r[1])
            else:
                for y in r:
                    walk(y)
        elif isinstance(r, dict):
            for y in r.values():
                walk(y)
    walk(op)
    return out


def label(op):
    k = op[0]
    if k in ("call", "usolve"):
        return op[1]
    if k == "bin":
        return "bin:" + op[1]
    if k == "un":
        return "un:" + op[1]
    if k in ("meth",):
        return "help:" + op[2]
    if k == "static":
        return "help:" + op[1]
    return k
