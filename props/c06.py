"""C06: conversion histories conserve the physical amount."""
from sim import aim, catalog, reference, sched
from sim.engine import Runner
from sim.observe import show
from sim.prop import Prop

from .c05 import FAMILIES, FAULTS, MULTI_CLASSES
from .common import Conversions

SINGLE = ["Temperature", "Pressure", "Length", "Time", "Energy", "Mass", "Force"]
KINDS = SINGLE * 2 + [f"compound {i}" for i in range(len(FAMILIES))] + ["derived", "constant"]
CONSTANT_UNITS = {"BOLTZMANS_CONSTANT": ["J/K", "BTU/R", "m^2*kg/s^2*K", "kJ/K"], "PLANCKS_CONSTANT": ["J*s", "kJ*hr", "m^2*kg/s"],
                  "RADIATION_CONSTANT": ["W/m^2*K^4", "BTU/hr*ft^2*R^4", "kW/m^2*K^4"]}
DERIVED = [(["bin", "mul", catalog.M("MultiUnit", 5, "kW/m^2"), catalog.M("MultiUnit", 3, "m/s")], ["W/m*s", "kg*m/s^4", "kW/m*s"]),
           (["bin", "div", catalog.U("Mass", 12, "kg"), catalog.U("Time", 4, "min")], ["kg/s", "lb/hr", "g/min"]),
           (["bin", "div", catalog.U("Length", 12, "ft"), catalog.U("Time", 4, "hr")], ["m/s", "ft/min", "km/hr"]),
           (["bin", "mul", catalog.M("Velocity", 5, "m/s"), catalog.M("Density", 3, "kg/m^3")], ["kg/m^2*s", "lb/ft^2*hr", "g/cm^2*s"]),
           (["bin", "pow", catalog.M("Velocity", 5, "m/s"), 2], ["m^2/s^2", "ft^2/min^2", "km^2/hr^2"]),
           (["bin", "div", catalog.M("Power", 7, "W"), catalog.M("MultiUnit", 3, "m^2/K^4")], ["W*K^4/m^2", "kW*K^4/m^2", "BTU*R^4/hr*ft^2"])]


def number(x):
    return float(x)


def amount(q):
    """What the quantity denotes, in standard units, by the independent model."""
    top = getattr(q, "_top_half", None)
    if top is not None:
        f = reference.compound_factor([(b._unit, b._exponent) for b in top], [(b._unit, b._exponent) for b in q._bottom_half])
        return None if f is None else number(q._value) * f
    if q._exponent != 1:
        return None
    return reference.si_unit(type(q).__name__, number(q._value), q._unit)


def close(a, b, temperature, n):
    """The tables give five or six digits, and a pound or a foot and back is not quite one."""
    if temperature:
        return abs(a - b) <= 1e-5 * max(1.0, abs(a))
    return abs(a - b) <= (1e-5 + 2.5e-6 * n) * abs(a)


def same_unit(rng, unit):
    """The unit, sometimes in another spelling of the same meaning."""
    if "/" not in unit and "*" not in unit or rng.random() > 0.25:
        return unit
    for _ in range(4):
        u = sched.respell(rng, unit)
        if u != unit and meaning(u) == meaning(unit):
            return u
    return unit


def meaning(unit):
    out = {}
    for sign, half in zip((1, -1), reference.parse(unit)):
        for u, e in half:
            out[u] = out.get(u, 0) + sign * e
    return out


def target(rng, kind):
    v = rng.choice([1, 2.5, 300, 0.001, 7.0, 1e6, 12, -3.5, 0, 98.6, ["n", 4.25], 451, 273.15])
    if kind in SINGLE:
        us = catalog.CLASS_UNITS[kind]
        return catalog.U(kind, v, rng.choice(us)), us
    if kind.startswith("compound"):
        fam = FAMILIES[int(kind.split()[1])]
        return catalog.M(rng.choice(MULTI_CLASSES), v, same_unit(rng, rng.choice(fam))), fam
    if kind == "derived":
        op, us = rng.choice(DERIVED)
        return ["do", op], us
    name = rng.choice(sorted(CONSTANT_UNITS))
    return ["c", name], CONSTANT_UNITS[name]


class Run(Runner):
    def started(self):
        self.start = {i: amount(q) for i, q in self.env.pool.items()}

    def cap(self, opid):
        return 60_000_000

    def check(self, i, what):
        q, a0 = self.env.pool[i], self.start[i]
        if a0 is None:
            return
        self.res.count("amounts_compared")
        a = amount(q)
        if a is None or not close(a0, a, type(q).__name__ == "Temperature", len(self.done[i])):
            self.res.violate("amount", f"{self.plan['kinds'][i]}|{what}",
                             f"{self.plan['pool'][i]} denoted {a0!r} in standard units and denotes {a!r} ({q!r}) after {self.done[i]} ({what})")

    def op_done(self, t, opid, op, value, exc, fired):
        if self.res.violations:
            return
        i, unit = op[1][1], op[2]
        self.done.setdefault(i, []).append(unit if exc is None else f"{unit} ({type(exc).__name__})")
        if exc is None:
            self.now[i] = unit
        self.check(i, "conversion" if exc is None else "interrupted" if fired else "refused")
        if exc is not None and not fired and not self.res.violations:
            if self.supported(i, unit):
                self.res.violate("refused", f"{self.plan['kinds'][i]}|{unit}",
                                 f"{self.env.pool[i]!r} to {unit!r} is refused ({type(exc).__name__}) after {self.done[i]}, a new one is not")

    def supported(self, i, unit):
        """Does a newly made quantity in the present unit accept the conversion?"""
        q = self.env.pool[i]
        if getattr(q, "_top_half", None) is None:
            recipe = catalog.U(type(q).__name__, 2.5, q._unit)
        else:
            recipe = catalog.M("MultiUnit", 2.5, self.now[i]) if self.now.get(i) else self.plan["pool"][i]
        st = self.prop.conv.expected([], recipe, [], unit)
        self.ctx.lib.activate(self.inst)
        return not st.unusable and st.answer[0] == "ok" and st.refused is None

    def finished(self):
        if self.sim.hang is not None:
            self.res.violate("hang", "hang", f"conversion does not finish: {self.sim.hang}")
        elif not self.res.violations:
            for i in self.env.pool:
                self.done.setdefault(i, [])
                self.check(i, "end")
        self.res.nontrivial = len(self.done) > 0 and sum(map(len, self.done.values())) > 1
        self.sim.sig = self.sig_of()

    def sig_of(self):
        import zlib
        return zlib.crc32(repr(sorted(self.done.items())).encode(), self.sim.sig)


class C06(Prop):
    id = "C06"
    runs = {"quick": 5600, "thorough": 60000}
    technique = "seeded chains of in-place conversions by one or two callers with refusals and injected interrupts; amounts checked against an independent unit model"
    level_note = "Seeded histories; physical amount compared after every conversion, refusal and interrupt with an independent table of SI factors."
    rule = "a run counts if at least two conversions were attempted; distinct by the targets' conversion histories and fault locations"
    measure = "CRC of each target's sequence of conversions with outcomes, and of the locations of faults and switches"
    assumptions = ("precision of the tables: relative 1E-5 and 2.5E-6 more per conversion; 1E-5 for temperatures", "exponent-1 quantities and the compound families of the catalogue")

    def setup(self, ctx):
        self.conv = Conversions(ctx.lib)

    def generate(self, ctx, rng, index):
        def where(kind):
            r, us = target(rng, kind)
            st = self.conv.expected([], r, [], rng.choice(us))
            return st.exp.where if st.exp is not None else ()
        wanted = [aim.best(lambda k: rng.choice(KINDS) if k else KINDS[index % len(KINDS)], where, index)]
        while rng.random() < 0.35 and len(wanted) < 4:
            wanted.append(rng.choice([wanted[0], rng.choice(KINDS)]))
        kinds, pool, units = [], [], []
        for k in wanted:
            r, us = target(rng, k)
            if r[0] == "c" and r in pool:            # one constant is one object
                continue
            kinds.append(k)
            pool.append(r)
            units.append(us)
        two = len(pool) > 1 and rng.random() < 0.4
        plan = dict(label=kinds[0], kinds=kinds, pool=pool, threads=[[], []] if two else [[]], stops=[], heap=rng.choice(["lifo", "fresh"]))
        ids = sched.Ids()
        cheap = kinds[0] in SINGLE
        n = rng.randint(5, 40) if cheap else rng.randint(3, 14)
        p_bad, p_fault = rng.choice([0.05, 0.2, 0.4]), rng.choice([0.05, 0.3])
        last = {}
        for _ in range(n):
            i = rng.randrange(len(pool))
            c = rng.random()
            if c < p_bad:
                unit = rng.choice(catalog.BAD_UNITS + units[rng.randrange(len(units))])
            elif c < p_bad + 0.2 and i in last:
                unit = last[i]
            else:
                unit = same_unit(rng, rng.choice(units[i]))
            last[i] = unit
            th = i % 2 if two else 0
            o = ids(["iconv", ["P", i], unit])
            plan["threads"][th].append(o)
            if rng.random() < p_fault or two and rng.random() < 0.5:
                st = self.conv.expected([], pool[i], [], unit)
                if st.unusable or st.exp is None or not st.exp.points:
                    continue
                pts = st.exp.points if rng.random() < 0.6 else st.exp.hot if st.exp.hot and rng.random() < 0.5 else st.exp.points[-12:]
                if rng.random() < p_fault:
                    plan["stops"].append({"op": o["id"], "step": rng.choice(pts), "act": ["raise", rng.choice(FAULTS)]})
                if two:
                    for _ in range(rng.randint(1, 3)):
                        plan["stops"].append({"op": o["id"], "step": rng.choice(pts), "act": ["switch"]})
        if two and not all(plan["threads"]):
            plan["threads"] = [t for t in plan["threads"] if t]
        return plan

    def execute(self, ctx, plan):
        r = Run(ctx, plan)
        r.prop = self
        r.done = {}
        r.now = {}
        return r.run()


PROP = C06()
