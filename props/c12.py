"""C12: a water record always describes water at a single temperature."""
from sim import sched
from sim.engine import Runner
from sim.observe import canon, outcome, show
from sim.prop import Prop

from .c05 import FAULTS

LOOKUP = "utility.get_water_properties"
PROPS = [("density", "g/cm^3"), ("viscosity", "cP"), ("thermal_conductivity", "kW/m*K"), ("enthalpy", "J/g"), ("entropy", "kJ/kg*K"),
         ("temperature", "F"), ("temperature", "R"), ("pressure", "psi"), ("internal_energy", "BTU/lb"), ("specific_volume", "L/kg"),
         ("Cp", "kJ/kg*K"), ("Cv", "BTU/lb*F")]
ODD = [274.999, 0, -5, 1345.5, 1e9, ["x", "nan"], ["x", "inf"], ["x", "-inf"], "300", None, ["L", 300], ["U", "Temperature", 300, "K"], 1345.0000001, True]
EDGES = [275, 275.0, 1345, 1345.0, 285, 284.99999, 285.00001, 373.15, 372.15, 365, 375, 1275, 1280.0, 1335, 1300.5, 295, 300, 300.0, ["n", 300.0], ["n", 1345.0]]


def temperature(rng, recent):
    c = rng.random()
    if c < 0.15 and recent:
        return rng.choice(recent)
    if c < 0.4:
        return rng.choice(ODD)
    if c < 0.65:
        return rng.choice(EDGES)
    if c < 0.8:
        return 275 + 10 * rng.randrange(108)
    t = rng.uniform(275, 1345)
    return rng.choice([t, round(t, 1), int(t), ["n", t]])


class Run(Runner):
    """self.now: what each record known to the run must look like."""

    def started(self):
        self.records, self.now = {}, {}
        for i, w in self.env.pool.items():
            self.track(("P", i), w)
        self.change = {}            # record -> what an unfinished change may turn it into

    def track(self, key, w):
        self.records[key] = w
        self.now[key] = canon(w)

    def lookup(self, t):
        return self.ctx.oracle.memo[("c12", repr(t))]

    def cap(self, opid):
        return 500_000

    def bad(self, kind, key, text):
        if not self.res.violations:
            self.res.violate(kind, f"{kind}|{key[0]}", text)

    def look(self, why, t):
        for key, w in self.records.items():
            self.res.count("records_compared")
            c = canon(w)
            if c == self.now[key] or c in self.change.get(key, ()):
                if canon(w.temperature) != c[1]:
                    self.bad("temperature", key, f"record shows {show(canon(w.temperature))} but holds {show(c)}")
                continue
            if key in self.change:
                self.bad("mixture", key, f"during the change of record {key} to {show(self.change[key][0][1]) if self.change[key] else 'a refused temperature'} "
                                         f"it is {show(c)}; before: {show(self.now[key])}")
            else:
                self.bad("disturbed", key, f"record {key} changed to {show(c)} while others were being worked on; it was {show(self.now[key])}")

    def before_op(self, t, opid, op):
        if op[0] == "wset":
            key = tuple(op[1])
            if key in self.records:
                exp = self.lookup(op[2])
                self.change[key] = [exp[1]] if exp[0] == "ok" else []
        elif op[0] == "iconv":
            key = tuple(op[1][1])
            w = self.records.get(key)
            if w is not None:
                # the owner edits one property; its other state is the edit's own business
                self.records.pop(key)
                t.edited = (key, w)

    def op_done(self, t, opid, op, value, exc, fired):
        if op[0] == "wset":
            self.res.count("changes_judged")
            key = tuple(op[1])
            w = self.records.get(key)
            if w is None:
                return
            new = self.change.pop(key)
            c, old = canon(w), self.now[key]
            if exc is None:
                self.res.count("changes_accepted")
                if not new:
                    self.bad("accepted", key, f"temperature {op[2]!r} is refused by a fresh lookup ({self.lookup(op[2])[1]}) but the record accepted it and is {show(c)}")
                elif c != new[0]:
                    self.bad("wrong", key, f"after the accepted change to {op[2]!r} the record is {show(c)}; a fresh lookup gives {show(new[0])}")
                self.now[key] = c
            elif fired:
                self.res.count("changes_cut_short")
                if c != old and c not in new:
                    self.bad("mixture", key, f"after the interrupted change to {op[2]!r} the record is {show(c)}; before: {show(old)}")
                self.now[key] = c
            else:
                self.res.count("changes_refused")
                if new:
                    self.bad("refused", key, f"temperature {op[2]!r} is fine for a fresh lookup but the record refused it: {type(exc).__name__}: {exc}")
                if c != old:
                    self.bad("mixture", key, f"after the refused change to {op[2]!r} the record is {show(c)}; before: {show(old)}")
                self.now[key] = c
        elif op[0] == "iconv":
            key, w = getattr(t, "edited", (None, None))
            if w is not None:
                t.edited = (None, None)
                self.track(key, w)
                self.res.count("properties_edited")
        elif op[0] == "call":
            if fired:
                return
            self.res.count("lookups_judged")
            exp = self.ctx.oracle.memo[("c12", repr(op[2]))]
            got = outcome(value, exc)
            if got != exp:
                self.bad("lookup", ("R", opid), f"{op[1]}{op[2]} gives {show(got)}; in a fresh process {show(exp)}")
            elif exc is None and got[1][0] == "W":
                self.track(("R", opid), value)
        elif op[0] == "un" and not fired:
            key = tuple(op[2])
            if exc is not None:
                self.bad("copy", key, f"{op} fails: {type(exc).__name__}: {exc}")
            elif key in self.records:
                self.res.count("copies_judged")
                if canon(value) != self.now[key] and not self.change.get(key):
                    self.bad("copy", key, f"copy of record {key} is {show(canon(value))}, the record is {show(self.now[key])}")
                self.track(("R", opid), value)
        self.look("after", t)

    def finished(self):
        if self.sim.hang is not None:
            self.res.violate("hang", "hang", f"call does not finish: {self.sim.hang}")
        elif self.sim.deadlock is not None:
            self.res.violate("hang", "hang", "callers wait for each other forever")
        self.res.nontrivial = bool(self.sim.log)


class C12(Prop):
    id = "C12"
    runs = {"quick": 5600, "thorough": 200000}
    technique = "histories of temperature changes to several water records by several callers, every record compared at bytecode granularity, changes cut short at seeded points"
    level_note = "Seeded search; after and during every change all records are compared with fresh lookups."
    rule = "a run counts if at least one preemption, fault or observation fired; distinct by number of callers and sequence of (caller, action, location)"
    assumptions = ("a record is changed by one caller at a time",)

    def generate(self, ctx, rng, index):
        nt = rng.choice([1, 1, 1, 2, 2, 3])
        plan = dict(label=f"{nt} callers", pool=[], threads=[], stops=[], first=rng.randrange(nt), heap="lifo")
        ids, recent = sched.Ids(), []
        for t in range(nt):
            mine, th = [], []
            for _ in range(rng.choice([1, 1, 2])):
                plan["pool"].append(["w", rng.choice([300, 412.5, 275, 900, 1345, 285.0])])
                mine.append(["P", len(plan["pool"]) - 1])
            for _ in range(rng.randint(1, 8)):
                c = rng.random()
                if c < 0.6:
                    T = temperature(rng, recent)
                    recent.append(T)
                    th.append(ids(["wset", rng.choice(mine), T]))
                elif c < 0.75:
                    o = ids(["call", LOOKUP, [temperature(rng, recent)] + rng.choice([[], [], [True], [False]])])
                    th.append(o)
                    if len(o["op"][2]) == 2 and o["op"][2][1] is False:
                        th.append(ids(["ledit", ["R", o["id"]], rng.choice(["append", "clear", "reverse", "pop", "set"])]))
                    elif rng.random() < 0.5:
                        mine.append(["R", o["id"]])
                elif c < 0.9:
                    p, u = rng.choice(PROPS)
                    th.append(ids(["iconv", ["of", rng.choice(mine), p], u]))
                else:
                    o = ids(["un", rng.choice(["deepcopy", "pickle"]), rng.choice(mine)])
                    th.append(o)
                    mine.append(["R", o["id"]])
            plan["threads"].append(th)
        p_look, p_fault = rng.choice([(1, 0.3), (0.3, 0.5), (0.1, 0.1), (0, 0.6)])
        for th in plan["threads"]:
            for o in th:
                exp = self.steps(ctx, o["op"])
                if exp is None or not exp.points:
                    continue
                if rng.random() < p_look:
                    pts = exp.points if len(exp.points) <= 120 else sorted(set(rng.sample(exp.points, 60) + exp.points[-30:] + exp.stores))
                    for s in pts:
                        plan["stops"].append({"op": o["id"], "step": s, "act": ["look"]})
                if nt > 1:
                    for s in sched.pick_points(rng, exp, rng.randint(0, 3)):
                        plan["stops"].append({"op": o["id"], "step": s, "act": ["switch"]})
                if rng.random() < p_fault:
                    src = exp.points if rng.random() < 0.5 else (exp.points[-8:] if rng.random() < 0.5 else exp.stores or exp.points)
                    plan["stops"].append({"op": o["id"], "step": rng.choice(src), "act": ["raise", rng.choice(FAULTS)]})
        plan["note"] = f"{len(plan['pool'])} records, {sum(map(len, plan['threads']))} operations"
        return plan

    def steps(self, ctx, op):
        """Where the operation goes, on a record of its own."""
        if op[0] == "wset":
            return ctx.oracle.expected(["wset", ["w", 300], op[2]], [])
        if op[0] == "call":
            return ctx.oracle.expected(op, [])
        if op[0] == "un":
            return ctx.oracle.expected(["un", op[1], ["w", 300]], [])
        if op[0] == "iconv":
            return ctx.oracle.expected(["iconv", ["wp", 300, op[1][2]], op[2]], [])
        return None

    def execute(self, ctx, plan):
        memo = ctx.oracle.memo
        for th in plan["threads"]:
            for o in th:
                op = o["op"]
                if op[0] == "wset":
                    memo[("c12", repr(op[2]))] = ctx.oracle.expected(["call", LOOKUP, [op[2]]], [], trace=False).outcome
                elif op[0] == "call":
                    memo[("c12", repr(op[2]))] = ctx.oracle.expected(op, [], trace=False).outcome
        return Run(ctx, plan).run()


PROP = C12()
