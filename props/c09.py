"""C09: registering a unit is isolated, repeatable and retryable."""
import math

from sim import catalog, core, sched
from sim.engine import Runner
from sim.observe import outcome, show
from sim.prop import Prop

from .c05 import FAULTS

STANDARD = {"Temperature": "K", "Pressure": "Pa", "Length": "m", "Time": "s", "Energy": "J", "Mass": "kg", "Force": "N"}
PAIRS = [("times3", "third"), ("times4", "quarter"), ("times07", "over07"), ("plus10", "minus10"), ("aff", "affinv")]
NAMES = ["smoot", "xu", "unitA", "unitB", "kfoo", "mbar2", "dX", "C2", "Kx", "lbx", "fta", "p", "nmi"]
CAP = 400_000
BUILT_IN = {u for us in catalog.CLASS_UNITS.values() for u in us}


def similar(rng, name):
    """A name that a careless registration could confuse with this one."""
    for _ in range(20):
        n = rng.choice([lambda: rng.choice("kmcdMu") + name, lambda: name + "s", name.upper, name.lower, name.capitalize,
                        lambda: name[:-1], lambda: name[1:], lambda: name + "2", lambda: name[::-1]])()
        if n and n != name and n not in BUILT_IN:
            return n
    return name + "x"


def flo(c):
    """Number of a canonical numeric form."""
    if c[0] == "f":
        return float.fromhex(c[1]) if c[1] != "nan" else math.nan
    if c[0] == "i":
        return float(c[1])
    if c[0] == "n":
        return float.fromhex(c[2]) if isinstance(c[2], str) and c[2].startswith(("0x", "-0x")) else float(c[2])
    return None


class Model:
    """Supplied functions composed with the existing unit's own conversions."""

    def __init__(self, ctx):
        self.ctx = ctx

    def plain(self, cls, v, a, b):
        if a == b:
            return v
        out = self.ctx.oracle.expected(["conv", catalog.U(cls, v, a), b], [], trace=False).outcome
        return flo(out[1][2]) if out[0] == "ok" else None

    def convert(self, cls, v, src, dst, sdef, ddef):
        std = STANDARD[cls]
        if sdef is not None:
            v = self.plain(cls, float(catalog.USER_FUNCS[sdef[3]](v)), sdef[2], std)
        else:
            v = self.plain(cls, v, src, std)
        if v is None:
            return None
        if ddef is not None:
            v = self.plain(cls, v, std, ddef[2])
            return None if v is None else float(catalog.USER_FUNCS[ddef[4]](v))
        return self.plain(cls, v, std, dst)


class Run(Runner):
    def started(self):
        self.defs = {}          # name -> list of definitions that may be in force
        self.open = {}          # name -> registrations under way
        self.loose = {}         # name -> a conversion may be refused
        self.running = {}       # opid -> {"names", "defs", "loose"}
        self.probing = False

    def cap(self, opid):
        return CAP

    # ---- bookkeeping of registrations
    def begin(self, d):
        name = d[1]
        self.open[name] = self.open.get(name, 0) + 1
        self.add(name, d)
        for r in self.running.values():
            if name in r["defs"]:
                self.put(r["defs"][name], d)
                r["loose"].add(name)

    def add(self, name, d):
        self.put(self.defs.setdefault(name, []), d)

    @staticmethod
    def put(lst, d):
        if d not in lst:
            lst.append(d)

    def end(self, d, completed):
        name = d[1]
        self.open[name] -= 1
        if completed:
            self.defs[name] = [d]
            self.loose[name] = False
        elif len(self.defs[name]) > 1:
            self.loose[name] = True

    def state(self, name):
        loose = self.open.get(name, 0) > 0 or self.loose.get(name, True)
        return list(self.defs.get(name, [])), loose

    # ---- judging conversions
    def judge(self, op, value, exc, defs, loose, when):
        q, dst = op[1], op[2]
        cls, v, src = q[1], q[2], q[3]
        got = outcome(value, exc)
        if foreign(self.classes, op):
            self.res.count("existing_unit_conversions_judged")
            exp = self.ctx.oracle.memo[self.key(op)]
            if got != exp:
                self.bad("other unit", op, f"{op} {when}: {show(exp)} in a fresh process, {show(got)} here")
            return
        self.res.count("new_unit_conversions_judged")
        used = [n for n in (src, dst) if n in self.names]
        if got[0] == "raise":
            if not any(loose.get(n, True) for n in used):
                self.bad("refused", op, f"{op} {when}: refused ({got[1]}) although the registration has completed")
            self.res.count("refused_while_registering")
            return
        c = got[1]
        if c[0] != "U" or c[1] != cls or c[3] != ["s", dst]:
            self.bad("wrong", op, f"{op} {when} gives {show(c)}")
            return
        x = flo(c[2])
        good = []
        for sd in (defs[src] if src in self.names else [None]):
            for dd in (defs[dst] if dst in self.names else [None]):
                y = v if src == dst else self.model_value(cls, v, src, dst, sd, dd)
                if y is None:
                    continue
                good.append(y)
                if abs(x - y) <= 1e-5 * max(abs(y), 1e-12, 300.0 if cls == "Temperature" else 0.0, 10.0):
                    return
        if good or src != dst:
            self.bad("wrong", op, f"{op} {when} gives {x!r}; the supplied functions give {good}")

    def model_value(self, cls, v, src, dst, sd, dd):
        return self.values[(cls, v, src, dst, str(sd), str(dd))]

    def key(self, op):
        return ("c09", str(op))

    def bad(self, kind, op, text):
        if not self.res.violations:
            self.res.violate(kind, f"{op[1][1]}|{kind}", text)

    # ---- hooks
    def before_op(self, t, opid, op):
        if op[0] == "reg":
            self.begin(op)
        elif op[0] in ("conv", "iconv"):
            names = [n for n in (op[1][3], op[2]) if n in self.names]
            r = {"defs": {}, "loose": set()}
            for n in names:
                ds, loose = self.state(n)
                r["defs"][n] = ds
                if loose:
                    r["loose"].add(n)
            self.running[opid] = r

    def op_done(self, t, opid, op, value, exc, fired):
        if op[0] == "reg":
            self.end(op, exc is None)
            self.res.count("registrations_completed" if exc is None else "registrations_cut_short")
            if exc is not None and not fired:
                self.bad_reg(op, exc)
            return
        r = self.running.pop(opid, None)
        if fired or r is None:
            return
        if op[0] == "iconv":
            value = self.last_target if exc is None else None
        self.judge(op, value, exc, r["defs"], {n: n in r["loose"] for n in r["defs"]}, "called")

    def bad_reg(self, op, exc):
        if not self.res.violations:
            self.res.violate("registration", f"{op[2]}|registration", f"{op} fails with {type(exc).__name__}: {exc}")

    def look(self, why, t):
        """Conversions made by somebody else at this very instant."""
        if self.res.violations:
            return
        for op in self.plan["watch"]:
            try:
                fn, args, kw = catalog.prepare(self.env, op)
            except Exception:
                continue
            try:
                value, exc = fn(*args, **kw), None
            except Exception as e:
                value, exc = None, e
            defs, loose = {}, {}
            for n in (op[1][3], op[2]):
                if n in self.names:
                    defs[n], loose[n] = self.state(n)
            self.judge(op, value, exc, defs, loose, "during " + str(t.op_id))

    def finished(self):
        if self.sim.hang is not None:
            self.res.violate("hang", "hang", f"call does not finish: {self.sim.hang}")
        elif self.sim.deadlock is not None:
            self.res.violate("hang", "hang", "callers wait for each other forever")
        else:
            class Last:
                op_id = "the end"
            self.look("end", Last)
        self.res.nontrivial = bool(self.sim.log)


def foreign(classes, op):
    """Whether a conversion has nothing to do with the new units."""
    cls, src, dst = op[1][1], op[1][3], op[2]
    return all(cls not in classes.get(n, ()) for n in (src, dst))


def strange(rng, defs):
    """A conversion to a unit nobody has registered, or not for this kind of quantity."""
    c, d = rng.choice(defs)
    n = similar(rng, d[1])
    if rng.random() < 0.5:
        c, n = rng.choice(sorted(STANDARD)), d[1]
    u = rng.choice(catalog.CLASS_UNITS[c])
    return rng.choice([["conv", catalog.U(c, 7.5, n), u], ["conv", catalog.U(c, 7.5, u), n]])


def all_ops(plan):
    return [o["op"] for th in plan["threads"] for o in th] + plan["watch"]


class C09(Prop):
    id = "C09"
    runs = {"quick": 4000, "thorough": 120000}
    technique = "registrations and conversions by several callers under seeded bytecode-level schedules, with registrations cut short, repeated and observed at every step"
    level_note = "Seeded search; at every observed instant of a registration other conversions are made and judged against composition of the supplied functions."
    rule = "a run counts if at least one preemption, fault or observation fired; distinct by kind of unit and sequence of (caller, action, location)"
    assumptions = ("two callers never register different definitions under one name at the same time", "names differ from built-in units")

    def setup(self, ctx):
        self.model = Model(ctx)

    def generate(self, ctx, rng, index):
        kinds = sorted(STANDARD)
        cls = kinds[index % len(kinds)]
        plan = dict(label=cls, pool=[], threads=[], stops=[], first=0, heap="lifo", watch=[])
        ids = sched.Ids()
        nt = rng.choice([1, 1, 2, 2, 3])
        names = rng.sample(NAMES, rng.choice([1, 1, 2, 3]))
        if rng.random() < 0.3:
            n = similar(rng, names[0])
            if n not in names:
                names.insert(rng.choice([0, len(names)]), n)
        defs = []
        for n in names:
            c = cls if rng.random() < 0.75 else rng.choice(kinds)
            to, fro = rng.choice(PAIRS)
            e = rng.choice(catalog.CLASS_UNITS[c])
            defs.append((c, ["reg", n, e, to, fro]))
        if nt == 1 and rng.random() < 0.4:
            c, d = rng.choice(defs)
            to, fro = rng.choice(PAIRS)
            defs.append((c, ["reg", d[1], rng.choice(catalog.CLASS_UNITS[c]), to, fro]))      # defined anew

        def conversion(p_new=0.7):
            c, d = rng.choice(defs)
            us = catalog.CLASS_UNITS[c]
            v = rng.choice([1, 2.5, 300, 7.0, 12, -3.5, 98.6])
            same = [x[1][1] for x in defs if x[0] == c]
            if rng.random() > p_new:
                return ["conv", catalog.U(c, v, rng.choice(us)), rng.choice(us)]
            ends = [rng.choice(same), rng.choice(us + [d[2]] * 3 + same)]
            rng.shuffle(ends)
            return ["conv", catalog.U(c, v, ends[0]), ends[1]]

        plan["threads"] = [[] for _ in range(nt)]
        for t in range(nt):
            for _ in range(rng.randint(2, 6)):
                op = rng.choice(defs)[1] if rng.random() < 0.5 or not t and not plan["threads"][0] else conversion()
                plan["threads"][t].append(ids(op))
        plan["watch"] = [conversion(0.75) for _ in range(rng.randint(2, 5))] + \
                        [strange(rng, defs) for _ in range(rng.randint(0, 3))] + \
                        [["conv", catalog.U(c, 7.5, d[1]), STANDARD[c]] for c, d in defs[:2]] + [["conv", catalog.U(c, 7.5, STANDARD[c]), d[1]] for c, d in defs[:2]]
        points = {}
        for th in plan["threads"]:
            for o in th:
                key = o["op"][0]
                if key == "reg":
                    exp = ctx.oracle.expected(o["op"], [])
                else:
                    exp = ctx.oracle.expected(o["op"], [], setup=[d for c, d in defs])
                if not exp.points:
                    continue
                if key == "reg":
                    for s in exp.points if rng.random() < 0.5 else rng.sample(exp.points, min(6, len(exp.points))):
                        plan["stops"].append({"op": o["id"], "step": s, "act": ["look"]})
                if nt > 1 and rng.random() < 0.8:
                    for _ in range(rng.randint(1, 3)):
                        plan["stops"].append({"op": o["id"], "step": rng.choice(exp.points), "act": ["switch"]})
                if rng.random() < (0.3 if key == "reg" else 0.05):
                    src = exp.stores if exp.stores and rng.random() < 0.5 else exp.points
                    plan["stops"].append({"op": o["id"], "step": rng.choice(src), "act": ["raise", rng.choice(FAULTS)]})
        plan["defs"] = [[c, d] for c, d in defs]
        plan["first"] = rng.randrange(nt)
        plan["note"] = f"{nt} callers, {len(defs)} definitions"
        return plan

    def execute(self, ctx, plan):
        r = Run(ctx, plan)
        r.names = {d[1] for _c, d in plan["defs"]}
        r.classes = {}
        for c, d in plan["defs"]:
            r.classes.setdefault(d[1], set()).add(c)
        byname = {}
        for _c, d in plan["defs"]:
            byname.setdefault(d[1], []).append(d)
        r.values = {}
        memo = ctx.oracle.memo
        for op in all_ops(plan):
            if op[0] != "conv":
                continue
            q, dst = op[1], op[2]
            cls, v, src = q[1], q[2], q[3]
            if foreign(r.classes, op):
                memo[r.key(op)] = ctx.oracle.expected(op, [], trace=False).outcome
                continue
            for sd in byname.get(src, [None]):
                for dd in byname.get(dst, [None]):
                    k = (cls, v, src, dst, str(sd), str(dd))
                    if k not in r.values:
                        r.values[k] = self.model.convert(cls, v, src, dst, sd, dd)
        return r.run()

    def shrinkable(self, plan):
        return super().shrinkable(plan) + ([("watch",)] if plan["watch"] else [])


PROP = C09()
