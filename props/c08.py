"""C08: a call that is cut short leaves nothing behind."""
from sim import aim, catalog, core, sched
from sim.catalog import ENTRIES
from sim.engine import Runner, diff, snap
from sim.observe import outcome, show
from sim.prop import Prop

from .c05 import FAULTS, USER_UNITS, scenario, KINDS
from .common import Conversions, bound, seen

SPECIAL = ["iconv", "iconv", "user function", "user function", "register"]
ALL = ENTRIES + SPECIAL
BUDGET = 120_000


class Run(Runner):
    def started(self):
        for op in self.plan.get("setup", ()):
            fn, args, kw = catalog.prepare(self.env, op)
            fn(*args, **kw)
        self.base = snap(self.env)
        self.history = {}
        self.cut = 0

    def cap(self, opid):
        return bound(self.by_id[opid])

    def before_op(self, t, opid, op):
        if op[0] == "iconv":
            i = op[1][1]
            # two callers never convert the same target in place
            self.st = self.prop.conv.expected(self.plan["setup"], self.plan["pool"][i], self.history.setdefault(i, []), op[2])
            self.ctx.lib.activate(self.inst)

    def fail(self, kind, op, what):
        if not self.res.violations:
            self.res.violate(kind, f"{catalog.label(op)}|{kind}", what)

    def op_done(self, t, opid, op, value, exc, fired):
        if fired:
            self.cut += 1
            self.res.count("calls_cut_short")
            if exc is None:
                self.fail("swallowed", op, f"{fired} raised inside {op} did not reach the caller, which got {show(outcome(value, None))}")
            elif type(exc).__name__ != fired:
                self.fail("swallowed", op, f"{fired} raised inside {op} reached the caller as {type(exc).__name__}")
        boom = self.plan.get("boom", {}).get(str(opid))
        if boom and not fired:
            if exc is None or type(exc).__name__ != boom:
                self.fail("swallowed", op, f"{boom} raised by the user's conversion function in {op} reached the caller as {show(outcome(value, exc))}")
        i = None
        if op[0] == "iconv":
            i = op[1][1]
            st, now = self.st, seen(self.env.pool[i])
            if st.unusable or st.exp is None:
                return                       # what went before has no counterpart
            if now != st.old and (st.refused or now != st.new):
                self.fail("changed", op, f"{op} cut short by {fired} left its target as {show(now[0])}")
            if exc is None and now != st.new:
                self.fail("changed", op, f"{op} left its target as {show(now[0])}")
            if now != st.old:
                self.history[i].append(op[2])
        now = snap(self.env)
        if i is not None:
            self.base[i] = now[i]
        self.res.count("snapshots_compared")
        d = diff(self.base, now)
        if d is not None:
            what = d[0] if isinstance(d[0], str) else f"operand {self.plan['pool'][d[0]]}"
            self.fail("changed", op, f"{what} changed from {show(d[1])} to {show(d[2])} when {op} ended with {fired or type(exc).__name__}")
        if not fired and i is None:
            self.compare(opid, op, value, exc)

    def compare(self, opid, op, value, exc):
        exp = self.by_id[opid]
        if exp.hung or exp.outcome[0] in ("skip", "operand"):
            return
        got = outcome(value, exc)
        self.res.count("answers_after_a_cut" if self.cut else "answers_before_a_cut")
        if got != exp.outcome:
            self.fail("answer", op, f"{op} after {self.cut} calls were cut short: fresh process {show(exp.outcome)}, here {show(got)}")

    def finished(self):
        sim = self.sim
        if sim.hang is not None or sim.deadlock is not None:
            self.res.violations[:] = []
            if sim.hang is not None:
                op = next(o["op"] for th in self.plan["threads"] for o in th if o["id"] == sim.hang[1])
                self.fail("hang", op, f"{op} still running after {sim.hang[2]} steps at {sim.hang[3]}")
            else:
                self.fail("hang", ["x"], f"callers {sim.deadlock} wait forever after a call was cut short")
        self.res.nontrivial = self.cut > 0


class C08(Prop):
    id = "C08"
    runs = {"quick": 4000, "thorough": 80000}
    technique = "interrupts, time-outs, memory exhaustion and failing user functions injected at seeded bytecodes of every public call, followed by judged calls from the same and another thread"
    level_note = "Seeded search over abort points and kinds in every catalogue entry; later answers compared bit-exactly with a fresh process's, steps bounded."
    rule = "a run counts if at least one call was actually cut short; distinct by catalogue entry and sequence of (action, location)"
    assumptions = ("exceptions are delivered between bytecodes of the library, of copy and of user functions; C code is atomic",
                   "the normal exit of a with block is not a fault point, as in CPython")

    def setup(self, ctx):
        self.conv = Conversions(ctx.lib)

    def special(self, ctx, rng, entry, plan):
        """-> list of victim operations (all but the first may be probes of the same theme)"""
        pool = plan["pool"]
        if entry == "register":
            name, old, to, fro, cls = rng.choice(USER_UNITS)
            us = catalog.CLASS_UNITS[cls]
            a, b = rng.choice(us), rng.choice(us)
            reg = ["reg", name, old, to, fro]
            return [reg, ["conv", catalog.U(cls, 7.5, a), b], reg, ["conv", catalog.U(cls, 7.5, rng.choice(us)), rng.choice(us)]]
        if entry == "user function":
            name, old, to, fro, cls = rng.choice(USER_UNITS)
            plan["setup"] += [["reg", name, old, to, fro]]
            us = catalog.CLASS_UNITS[cls]
            k = rng.choice(sorted(catalog.BOOMS))
            plan["setup"] += [["reg", "broken", rng.choice([old, us[0]]), k, k]]
            plan["boomkind"] = catalog.BOOMS[k]
            a = rng.choice(us)
            out = [["conv", catalog.U(cls, 7.5, name), a], ["conv", catalog.U(cls, 7.5, a), name]]
            rng.shuffle(out)
            q = catalog.U(cls, 2.5, "broken")
            out.insert(rng.randrange(3), ["conv", q, rng.choice([u for u in us])])
            out.insert(rng.randrange(3), ["conv", catalog.U(cls, 2.5, rng.choice(us)), "broken"])
            pool.append(catalog.U(cls, 300.5, rng.choice([a, name])))
            out.insert(0, ["iconv", ["P", len(pool) - 1], rng.choice([name, a])])
            return out
        setup, target, units = scenario(rng, rng.choice([k for k in KINDS if k not in ("user unit", "constant")]))
        pool.append(target)
        i = len(pool) - 1
        return [["iconv", ["P", i], rng.choice(units)] for _ in range(rng.randint(2, 4))]

    def generate(self, ctx, rng, index):
        entry = aim.entry(ALL, index, rng)
        ids = sched.Ids()
        plan = dict(label=entry, setup=[], boom={}, pool=[], threads=[[], []], stops=[], first=0, heap=rng.choice(["lifo", "fresh"]))
        pool, setup = plan["pool"], plan["setup"]
        spent = 0

        def add(tid, op, share=0.5):
            nonlocal spent
            if op[0] == "iconv":
                st = self.conv.expected(setup, pool[op[1][1]], [], op[2])
                if st.unusable or st.exp is None:
                    return None, None
                exp = st.exp
            else:
                op = catalog.poolify(rng, op, pool, share)
                exp = ctx.oracle.expected(op, pool, setup=setup)
                if exp.hung or exp.outcome[0] in ("skip", "operand"):
                    return None, None
            o = ids(op)
            plan["threads"][tid].append(o)
            spent += exp.steps
            if plan.get("boomkind") and op[0] == "conv" and "broken" in (op[2], self.unit_of(op[1], pool)) and op[2] != self.unit_of(op[1], pool):
                plan["boom"][str(o["id"])] = plan["boomkind"]
            return o, exp

        if entry in SPECIAL:
            victims = self.special(ctx, rng, entry, plan)
            base = victims[0]
        else:
            base = aim.op(lambda: catalog.make_op(rng, entry), ctx.oracle, index)
            victims = [base]
            if rng.random() < 0.4:
                victims.append(sched.vary(rng, base))
        limit = BUDGET
        for v in victims:
            o, exp = add(0, v)
            if o is None:
                if v is base:
                    return None
                continue
            limit = sched.room(limit, exp)
            if exp.points and (v is base or rng.random() < 0.6):
                src = exp.stores if exp.stores and rng.random() < 0.35 else exp.points
                plan["stops"].append({"op": o["id"], "step": rng.choice(src), "act": ["raise", rng.choice(FAULTS)]})
                if rng.random() < 0.15:
                    plan["stops"].append({"op": o["id"], "step": rng.choice(src), "act": ["switch", 1]})
            # sometimes cut the retry as well
            if v[0] != "iconv" and rng.random() < 0.35 and spent < limit:
                o2, exp2 = add(0, v, 1.0)
                if o2 is not None and exp2.points:
                    plan["stops"].append({"op": o2["id"], "step": rng.choice(exp2.points), "act": ["raise", rng.choice(FAULTS)]})
        # judged calls afterwards, by the same caller and by another one
        for tid in (0, 1):
            if base[0] != "iconv" and spent < limit and rng.random() < 0.8:
                add(tid, base, 1.0)
            for _ in range(rng.randint(1, 3)):
                if spent < limit:
                    c = rng.random()
                    if entry in SPECIAL or c < 0.4:
                        op = catalog.make_op(rng, rng.choice(["conv:U", "conv:M", "bin:mul", "bin:div", "make"] + sched.CHEAP))
                    elif c < 0.7:
                        op = sched.vary(rng, base)
                    else:
                        op = catalog.make_op(rng, entry)
                    if op[0] != "iconv":
                        add(tid, op)
        if not plan["threads"][1]:
            plan["threads"].pop()
        return plan

    def unit_of(self, r, pool):
        if r[0] == "P":
            r = pool[r[1]]
        return r[3] if r[0] == "U" else None

    def execute(self, ctx, plan):
        r = Run(ctx, plan)
        r.prop = self
        r.by_id = {}
        for th in plan["threads"]:
            for o in th:
                if o["op"][0] == "iconv":
                    st = self.conv.expected(plan["setup"], plan["pool"][o["op"][1][1]], [], o["op"][2])
                    r.by_id[o["id"]] = st.exp
                else:
                    r.by_id[o["id"]] = ctx.oracle.expected(o["op"], plan["pool"], setup=plan["setup"])
        return r.run()


PROP = C08()
