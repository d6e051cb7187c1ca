"""C25: calls made from inside other calls behave like separate calls."""
from sim import aim, catalog, core, sched
from sim.catalog import ENTRIES
from sim.engine import Runner, diff, snap
from sim.observe import outcome, show
from sim.prop import Prop

from .c05 import USER_UNITS
from .common import bound

# units whose functions call the library themselves, and the unit those calls need
RE_UNITS = [(("bolt", "m", "re:Length:yd:ft", "re:Length:ft:yd", "Length"), None),
            (("link", "ft", "re:Length:smoot:m", "re:Length:m:smoot", "Length"), USER_UNITS[0]),
            (("mug", "C", "re:Temperature:delisle:C", "re:Temperature:C:delisle", "Temperature"), USER_UNITS[1]),
            (("bag", "kg", "re:Mass:crate:g", "re:Mass:g:crate", "Mass"), USER_UNITS[2])]
SPECIAL = ["user unit"] * 4 + ["register"] * 3 + ["user function"] * 4
ALL = ENTRIES + SPECIAL
BUDGET = 150_000


class Run(Runner):
    def started(self):
        for op in self.plan["setup"]:
            fn, args, kw = catalog.prepare(self.env, op)
            fn(*args, **kw)
        self.base = snap(self.env)
        self.inner = {o["id"]: o["op"] for o in self.plan["inner"]}
        self.depth = 0
        self.nested = 0

    def cap(self, opid):
        # the outer call's own steps only: inner calls are counted for themselves
        return bound(self.exps[opid])

    def custom(self, t, act, where):
        """The caller makes another call here: a signal handler, a finaliser or a user's function."""
        opid = act[1]
        op = self.inner.get(opid)
        if op is None or self.depth > 2:
            return
        keep = (t.op_id, t.pending, t.cap, t.step, t.fault_fired, t.stop_at)
        try:
            fn, args, kw = catalog.prepare(catalog.Env(self.inst, self.env.pool, {}, self.env.userfuncs), op)
        except Exception:
            self.res.count("skipped_ops")
            return
        self.depth += 1
        value, exc = t.call(opid, self.stops.get(opid, ()), fn, args, kw, self.cap(opid))
        self.depth -= 1
        self.nested += 1
        self.res.count("inner_calls")
        t.op_id, t.pending, t.cap, t.step, t.fault_fired, t.stop_at = keep
        self.judge(opid, op, value, exc, f"made inside another call at {where}")

    def judge(self, opid, op, value, exc, who):
        exp = self.exps[opid]
        got = outcome(value, exc)
        self.res.count("answers_compared")
        if got != exp.outcome and not self.res.violations:
            self.res.violate("answer", f"{catalog.label(op)}|{who.split(' at ')[0]}", f"{op} {who}: alone {show(exp.outcome)}, here {show(got)}")

    def op_done(self, t, opid, op, value, exc, fired):
        self.judge(opid, op, value, exc, "with other calls made inside it" if self.nested else "afterwards")
        d = diff(self.base, snap(self.env))
        if d is not None and not self.res.violations:
            what = d[0] if isinstance(d[0], str) else f"operand {self.plan['pool'][d[0]]}"
            self.res.violate("changed", f"{catalog.label(op)}|changed", f"{what} changed from {show(d[1])} to {show(d[2])} during {op}")

    def finished(self):
        sim = self.sim
        if sim.hang is not None:
            self.res.violate("hang", "hang", f"call {sim.hang[1]} still running after {sim.hang[2]} steps at {sim.hang[3]}")
        elif sim.deadlock is not None:
            self.res.violate("hang", "deadlock", "a call made inside another call waits for it forever")
        self.res.nontrivial = self.nested > 0


class C25(Prop):
    id = "C25"
    runs = {"quick": 3200, "thorough": 80000}
    technique = "library calls started by the same caller at seeded bytecodes inside its own calls (signal handlers, finalisers, user functions), nested up to three deep, also with a second caller"
    level_note = "Seeded search over nesting points and operation pairs of every catalogue entry; inner, outer and later answers compared bit-exactly with a lone caller's."
    rule = "a run counts if at least one call was made inside another; distinct by catalogue entry and sequence of (caller, action, location)"
    assumptions = ("handlers and finalisers run between bytecodes of the library, of copy and of user functions", "the normal exit of a with block is not interrupted, as in CPython")

    def generate(self, ctx, rng, index):
        entry = aim.entry(ALL, index, rng)
        ids = sched.Ids()
        plan = dict(label=entry, setup=[], pool=[], threads=[[]], inner=[], stops=[], first=0, heap=rng.choice(["lifo", "fresh", "fifo"]))
        pool, setup = plan["pool"], plan["setup"]
        spent = 0
        unit = rng.choice(USER_UNITS) if entry in SPECIAL else None
        if unit is not None:
            other, p = rng.choice([u for u in USER_UNITS if u[0] != unit[0]]), 0.5
            if entry == "user function":
                unit, need = rng.choice(RE_UNITS)
                other, p = need or other, 1
            if rng.random() < p:
                setup.append(["reg"] + list(other[:4]))
            if entry != "register":
                setup.append(["reg"] + list(unit[:4]))

        def themed():
            name, old, to, fro, cls = unit
            us = catalog.CLASS_UNITS[cls]
            if entry != "register":
                us = us + [name] * 3
            if entry == "user function" and other[4] == cls:
                us = us + [other[0]] * 2
            c = rng.random()
            if c < 0.15 and entry != "user function":
                return ["reg"] + list(rng.choice([unit, other])[:4])
            if c < 0.8:
                return ["conv", catalog.U(cls, rng.choice([7.5, 300, 1]), rng.choice(us)), rng.choice(us)]
            return ["conv", catalog.U(other[4], 7.5, rng.choice(catalog.CLASS_UNITS[other[4]])), rng.choice(catalog.CLASS_UNITS[other[4]])]

        def expected(op):
            return ctx.oracle.expected(op, pool, setup=setup)

        def add(where, op):
            nonlocal spent
            op = catalog.poolify(rng, op, pool, 0.6)
            exp = expected(op)
            if exp.hung or exp.outcome[0] not in ("ok", "raise"):
                return None, None
            spent += exp.steps
            o = ids(op)
            where.append(o)
            return o, exp

        if entry == "register":
            base = ["reg"] + list(unit[:4])
        elif unit is not None:
            base = ["conv", catalog.U(unit[4], 7.5, unit[0]), rng.choice(catalog.CLASS_UNITS[unit[4]])]
            if rng.random() < 0.5:
                base = ["conv", catalog.U(unit[4], 7.5, base[2]), unit[0]]
        else:
            base = aim.op(lambda: catalog.make_op(rng, entry), ctx.oracle, index)
        outers = []
        limit = BUDGET
        for k in range(rng.randint(1, 3)):
            op = base if k == 0 else themed() if unit else sched.companion(rng, entry, base, 0.8)
            o, exp = add(plan["threads"][0], op)
            if o is None:
                if k == 0:
                    return None
                continue
            outers.append((o, exp))
            limit = sched.room(limit, exp)
            if spent > limit / 2:
                break

        def within():
            """What a handler or a user's function asks for meanwhile."""
            c = rng.random()
            if unit is not None:
                return base if c < 0.25 else themed() if c < 0.8 else catalog.make_op(rng, rng.choice(["conv:U", "conv:M", "bin:mul", "make"]))
            if c < 0.15:
                return base
            if c < 0.4:
                return sched.vary(rng, base)
            return catalog.make_op(rng, entry if c < 0.65 else rng.choice(sched.CHEAP))

        def nest(o, exp, depth):
            if not exp.points or spent > limit:
                return
            k = rng.choice([1, 2, 3]) if exp.steps > 5000 else rng.choice([2, 4, 8])
            for s in sched.pick_points(rng, exp, k, 0.5):
                if spent > limit:
                    return
                i, iexp = add(plan["inner"], within())
                if i is None:
                    continue
                plan["stops"].append({"op": o["id"], "step": s, "act": ["nest", i["id"]]})
                if depth < 2 and rng.random() < 0.25:
                    nest(i, iexp, depth + 1)
        def sweep(o, exp):
            """The same few calls, made inside at many points of one call."""
            few = [within() for _ in range(rng.randint(1, 3))]
            pts = set(rng.sample(exp.stores, min(len(exp.stores), 30))) | set(rng.sample(exp.points, min(len(exp.points), 15)))
            for s in rng.sample(sorted(pts), len(pts)):
                if spent > limit:
                    return
                i, _ = add(plan["inner"], rng.choice(few))
                if i is not None:
                    plan["stops"].append({"op": o["id"], "step": s, "act": ["nest", i["id"]]})

        sweeping = rng.random() < 0.5
        for o, exp in outers:
            if sweeping and exp.points:
                sweep(o, exp)
            else:
                nest(o, exp, 0)
        # later calls, and sometimes another caller
        for _ in range(rng.randint(1, 2)):
            if spent < limit:
                add(plan["threads"][0], rng.choice([base, themed() if unit else catalog.make_op(rng, rng.choice(sched.CHEAP))]))
        if rng.random() < 0.25 and spent < limit:
            plan["threads"].append([])
            for _ in range(rng.randint(1, 3)):
                o, exp = add(plan["threads"][1], themed() if unit else sched.companion(rng, entry, base))
                if o is not None:
                    for s in sched.pick_points(rng, exp, 2):
                        plan["stops"].append({"op": o["id"], "step": s, "act": ["switch"]})
            for o, exp in outers:
                for s in sched.pick_points(rng, exp, 2):
                    plan["stops"].append({"op": o["id"], "step": s, "act": ["switch"]})
            for o in plan["inner"]:
                for s in sched.pick_points(rng, expected(o["op"]), rng.choice([0, 1])):
                    plan["stops"].append({"op": o["id"], "step": s, "act": ["switch"]})
        new = {o["op"][1] for th in plan["threads"] + [plan["inner"]] for o in th if o["op"][0] == "reg"}
        if new:
            # while a unit is being registered its own conversions may be refused: not judged here
            for th in plan["threads"] + [plan["inner"]]:
                th[:] = [o for o in th if not (o["op"][0] == "conv" and uses(o["op"], pool, new))]
        return plan if plan["threads"][0] else None

    def execute(self, ctx, plan):
        r = Run(ctx, plan)
        r.exps = {o["id"]: ctx.oracle.expected(o["op"], plan["pool"], setup=plan["setup"]) for th in plan["threads"] + [plan["inner"]] for o in th}
        return r.run()

    def shrinkable(self, plan):
        return super().shrinkable(plan) + ([("inner",)] if plan["inner"] else [])


def uses(op, pool, names):
    q = op[1]
    if q[0] == "P":
        q = pool[q[1]]
    return op[2] in names or q[0] == "U" and q[3] in names


PROP = C25()
