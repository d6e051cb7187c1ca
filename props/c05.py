"""C05: an in-place conversion happens completely or not at all."""
from sim import aim, catalog, core, sched
from sim.engine import Runner
from sim.observe import show
from sim.oracle import STEP_CAP
from sim.prop import Prop

from .common import Conversions, bound, seen

FAULTS = ("KeyboardInterrupt", "MemoryError", "TimeoutError", "SimAbort")
EXTRA = [["W/m^2*K^4", "BTU/hr*ft^2*R^4", "kW/m^2*K^4"], ["kmol/m^3", "mol/L"], ["mg/L", "g/m^3", "lb/ft^3"], ["J/mol*K", "kJ/mol*K"]]
FAMILIES = catalog.MULTI_FAMILIES + EXTRA
MULTI_CLASSES = ["MultiUnit", "Velocity", "Density", "ThermalConductivity", "Cp", "Power", "HeatFlux", "Concentration"]
KINDS = ["Temperature", "Pressure", "Length", "Time", "Energy", "Mass", "Force", "Area", "Volume", "Unit", "exponent", "user unit"] + \
        [f"compound {i}" for i in range(len(FAMILIES))] + ["derived", "constant", "water"]
USER_UNITS = [("smoot", "m", "times07", "over07", "Length"), ("delisle", "C", "aff", "affinv", "Temperature"), ("crate", "lb", "times4", "quarter", "Mass"),
              ("shift", "hr", "plus10", "minus10", "Time")]


def scenario(rng, kind):
    """-> (setup operations, target recipe, units to convert to)"""
    setup = []
    v = rng.choice([1, 2.5, 300, 0.001, 7.0, 1e6, 12, -3.5, 0, 98.6, ["n", 4.25]])
    if kind == "user unit":
        name, old, to, fro, cls = rng.choice(USER_UNITS)
        setup.append(["reg", name, old, to, fro])
        bad = rng.choice([0, 0, 1, 2, 3])        # which of its functions fail
        setup.append(["reg", "broken", rng.choice([old, catalog.CLASS_UNITS[cls][0]]), "boom" if bad != 2 else to, "boom" if bad != 1 else fro])
        units = catalog.CLASS_UNITS[cls][:4] + [name, name, "broken", "broken"]
        return setup, catalog.U(cls, v, rng.choice(units)), units
    if kind == "exponent":
        cls = rng.choice(["Length", "Time", "Temperature", "Mass"])
        e = rng.choice([2, 3, -1, 0.5, 2.0])
        us = catalog.CLASS_UNITS[cls]
        return setup, catalog.U(cls, v, rng.choice(us), e), us[:4] + [f"{u}^{e}" for u in us[:5]]
    if kind.startswith("compound"):
        fam = FAMILIES[int(kind.split()[1])]
        unit = rng.choice(fam)
        if rng.random() < 0.3:
            unit = sched.respell(rng, unit)
        elif rng.random() < 0.15:
            # the same unit twice
            unit = unit.replace("^2", "*" + unit.partition("^2")[0].rpartition("/")[2].rpartition("*")[2], 1)
        return setup, catalog.M(rng.choice(MULTI_CLASSES), v, unit), fam
    if kind == "derived":
        a, b = catalog.mut_q(rng, rng.choice(catalog.MULTIS + catalog.UNITS)), catalog.mut_q(rng, rng.choice(catalog.MULTIS + catalog.UNITS))
        return setup, ["do", ["bin", rng.choice(["mul", "div"]), a, b]], rng.choice(FAMILIES) + ["m", "kg"]
    if kind == "constant":
        return setup, ["c", rng.choice(catalog.CONSTANTS)], ["J/K", "BTU/R", "J*s", "kJ*hr", "BTU/hr*ft^2*R^4", "kW/m^2*K^4", "A*s/mol", "m^2*kg/s^2*K", "mol", "W/m^2*K^4", "A*hr/mol"]
    if kind == "water":
        prop, units = rng.choice([("density", FAMILIES[1]), ("viscosity", FAMILIES[5]), ("thermal_conductivity", FAMILIES[2]), ("enthalpy", FAMILIES[7]),
                                  ("temperature", catalog.CLASS_UNITS["Temperature"]), ("pressure", catalog.CLASS_UNITS["Pressure"])])
        return setup, ["wp", rng.choice([300, 412.5, 900]), prop], units
    us = catalog.CLASS_UNITS[kind]
    return setup, catalog.U(kind, v, rng.choice(us)), us


def chain(ctx, rng, conv, plan, n, p_bad, p_fault, dense):
    """Conversions of plan's target with refusals, faults and observers; fills ops and stops."""
    ids = sched.Ids()
    history, last = [], None
    for _ in range(n):
        c = rng.random()
        if c < p_bad:
            unit = rng.choice(catalog.BAD_UNITS + ["kg/m^3", "Pa", "s", "furlong/s"])
        elif last is not None and c < p_bad + 0.2:
            unit = last                                   # again: a retry, or the unit it has
        else:
            unit = rng.choice(plan["units"])
        st = conv.expected(plan["setup"], plan["pool"][0], history, unit)
        if st.unusable:
            return False
        last = unit
        if st.exp is None:
            return False
        o = ids(["iconv", ["P", 0], unit])
        plan["threads"][0].append(o)
        pts = list(st.exp.points)
        if len(pts) > dense:
            pts = sorted(set(rng.sample(st.exp.stores, min(dense // 2, len(st.exp.stores))) + rng.sample(pts, dense // 2) + pts[-20:]))
        for s in pts:
            plan["stops"].append({"op": o["id"], "step": s, "act": ["look"]})
        cut = False
        if rng.random() < p_fault:
            # close to the end matters most: that is where the target changes
            src = st.exp.points if rng.random() < 0.5 else st.exp.hot if st.exp.hot and rng.random() < 0.4 else (st.exp.points[-12:] or st.exp.points)
            if src:
                plan["stops"].append({"op": o["id"], "step": rng.choice(src), "act": ["raise", rng.choice(FAULTS)]})
                cut = True
        if not st.refused and not cut:
            history.append(unit)
    return True


class Run(Runner):
    def started(self):
        for op in self.plan["setup"]:
            fn, args, kw = catalog.prepare(self.env, op)
            fn(*args, **kw)
        self.history = []
        self.st = None

    def cap(self, opid):
        return bound(self.st.exp) if self.st is not None else STEP_CAP

    def state(self):
        return seen(self.env.pool[0])

    def before_op(self, t, opid, op):
        # the same chain, without faults, on a fresh instance
        self.st = self.prop.conv.expected(self.plan["setup"], self.plan["pool"][0], self.history, op[2])
        self.ctx.lib.activate(self.inst)
        self.unit = op[2]
        st = self.st
        if st.unusable or st.exp is None:
            self.res.count("conversions_unjudged")     # what went before has no counterpart
            self.st = None
            return
        if not st.refused and st.answer[0] == "ok" and st.new[0] != st.answer[1] and not self.res.violations:
            self.res.violate("incomplete", f"{self.plan['label']}|{op[2]}",
                             f"converting {show(st.old[0])} to {op[2]!r} in place gives {show(st.new[0])}, not in place {show(st.answer[1])}")

    def look(self, why, t):
        self.res.count("instants_observed")
        if self.st is None:
            return
        now = self.state()
        if now != self.st.old and (self.st.refused or now != self.st.new):
            self.mixed(now, "during")

    def mixed(self, now, when):
        if self.res.violations:
            return
        st = self.st
        want = show(st.old[0]) if st.refused else f"{show(st.old[0])} or {show(st.new[0])}"
        self.res.violate("mixture", f"{self.plan['label']}|{when}",
                         f"{when} converting to {self.unit!r} the quantity is {show(now[0])} (printed {now[1]!r}); it must be {want}")

    def op_done(self, t, opid, op, value, exc, fired):
        if self.st is None:
            return
        st, now = self.st, self.state()
        self.res.count("conversions_judged")
        if exc is None:
            ok = now == st.new and not st.refused
            when = "after"
        elif fired:
            ok = now == st.old or (now == st.new and not st.refused)
            when = "after interrupted"
        else:
            ok = now == st.old
            when = "after refused"
        if not ok:
            self.mixed(now, when)
        if now != st.old:
            self.history.append(op[2])

    def finished(self):
        if self.sim.hang is not None:
            self.res.violate("hang", f"{self.plan['label']}|hang", f"conversion does not finish: {self.sim.hang}")
        self.res.nontrivial = bool(self.sim.log)


class C05(Prop):
    id = "C05"
    runs = {"quick": 3200, "thorough": 60000}
    technique = "in-place conversions observed at bytecode granularity and cut short by injected exceptions at seeded points, in histories of refusals and retries"
    level_note = "Seeded search; the target's whole visible state is compared with {before, completed} at each observed instant and after every ending."
    rule = "a run counts if at least one observation or fault fired inside a conversion; distinct by kind of quantity and sequence of (action, location)"
    assumptions = ("one caller converts a given quantity at a time", "an instant is one reading of value, units and exponents")

    def setup(self, ctx):
        self.conv = Conversions(ctx.lib)

    def generate(self, ctx, rng, index):
        def some(k):
            kind = rng.choice(KINDS) if k else KINDS[index % len(KINDS)]
            return (kind,) + scenario(rng, kind)

        def where(x):
            st = self.conv.expected(x[1], x[2], [], rng.choice(x[3]))
            return st.exp.where if st.exp is not None else ()
        kind, setup, target, units = aim.best(some, where, index)
        plan = dict(label=kind, setup=setup, pool=[target], units=units, threads=[[]], stops=[], heap="lifo")
        if not chain(ctx, rng, self.conv, plan, rng.randint(1, 6), 0.25, 0.4, 160):
            return None
        plan["note"] = f"{len(plan['threads'][0])} conversions"
        return plan

    def execute(self, ctx, plan):
        r = Run(ctx, plan)
        r.prop = self
        return r.run()


PROP = C05()
