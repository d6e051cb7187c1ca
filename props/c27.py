"""C27: a caller that stops for good inside a call holds nobody up."""
from sim import aim, catalog, core, sched
from sim.catalog import ENTRIES
from sim.engine import Runner, diff, snap
from sim.observe import outcome, show
from sim.prop import Prop

from .c05 import KINDS, USER_UNITS, scenario
from .common import Conversions, bound, seen

SPECIAL = ["iconv", "iconv", "register", "register"]
ALL = ENTRIES + SPECIAL
BUDGET = 150_000


class Run(Runner):
    def started(self):
        for op in self.plan["setup"]:
            fn, args, kw = catalog.prepare(self.env, op)
            fn(*args, **kw)
        self.base = snap(self.env)
        self.stalled = 0

    def cap(self, opid):
        return bound(self.exps[opid])

    def custom(self, t, act, where):
        if act[0] == "stall":
            self.stalled += 1
            self.sim.faults["stall"] = self.sim.faults.get("stall", 0) + 1
            self.sim.stall(t)

    def fail(self, kind, op, text):
        if not self.res.violations:
            self.res.violate(kind, f"{catalog.label(op)}|{kind}", text)

    def unchanged(self, op):
        now = snap(self.env)
        self.res.count("snapshots_compared")
        for i, st in self.targets.items():
            if i in now:
                c = seen(self.env.pool[i])
                if c != st.old and (st.refused or c != st.new):
                    self.fail("changed", op, f"{self.plan['pool'][i]}, whose conversion stopped half way, is {show(c[0])}")
                self.base[i] = now[i]
        d = diff(self.base, now)
        if d is not None:
            what = d[0] if isinstance(d[0], str) else f"operand {self.plan['pool'][d[0]]}"
            self.fail("changed", op, f"{what} changed from {show(d[1])} to {show(d[2])} while a caller stands still and {op} runs")

    def op_done(self, t, opid, op, value, exc, fired):
        if op[0] == "iconv":
            return
        exp = self.exps[opid]
        got = outcome(value, exc)
        self.res.count("answers_after_a_stall" if self.stalled else "answers_before_a_stall")
        if got != exp.outcome:
            self.fail("answer", op, f"{op} while {self.stalled} callers stand still: alone {show(exp.outcome)}, here {show(got)}")
        self.unchanged(op)

    def finished(self):
        sim = self.sim
        if sim.hang is not None:
            self.fail("hang", ["x"], f"call {sim.hang[1]} still running after {sim.hang[2]} steps at {sim.hang[3]}")
        elif sim.deadlock is not None:
            self.fail("hang", ["x"], f"callers {sim.deadlock} wait for ever for one that stands still")
        self.res.nontrivial = self.stalled > 0


class C27(Prop):
    id = "C27"
    runs = {"quick": 3200, "thorough": 80000}
    technique = "one or two callers are stopped for good at seeded bytecodes of their calls (suspended thread, fork) while others go on calling"
    level_note = "Seeded search over stop points in every catalogue entry, in-place conversions and registrations; the others' answers compared bit-exactly with a lone caller's."
    rule = "a run counts if a caller actually stopped inside a call; distinct by catalogue entry and sequence of (caller, action, location)"
    assumptions = ("a caller stops between bytecodes of the library, of copy or of user functions", "Python's own locks are not held at such a point")

    def setup(self, ctx):
        self.conv = Conversions(ctx.lib)

    def generate(self, ctx, rng, index):
        entry = aim.entry(ALL, index, rng)
        ids = sched.Ids()
        plan = dict(label=entry, setup=[], pool=[], threads=[[], []], stops=[], first=0, targets=[], heap=rng.choice(["lifo", "fresh"]))
        pool, setup = plan["pool"], plan["setup"]
        spent = 0
        names = set()

        def add(tid, op, share=0.5):
            nonlocal spent
            if op[0] == "iconv":
                st = self.conv.expected(setup, pool[op[1][1]], [], op[2])
                if st.unusable or st.exp is None:
                    return None, None
                exp = st.exp
            else:
                op = catalog.poolify(rng, op, pool, share)
                if catalog.pool_refs(op) & {i for i, _u in plan["targets"]}:
                    return None, None
                exp = ctx.oracle.expected(op, pool, setup=setup)
                if exp.hung or exp.outcome[0] not in ("ok", "raise"):
                    return None, None
            spent += exp.steps
            o = ids(op)
            plan["threads"][tid].append(o)
            return o, exp

        def stall(o, exp):
            if not exp.points:
                return False
            src = exp.stores if exp.stores and rng.random() < 0.4 else exp.points
            plan["stops"].append({"op": o["id"], "step": rng.choice(src), "act": ["stall"]})
            return True

        probes = []
        if entry == "register":
            name, old, to, fro, cls = rng.choice(USER_UNITS)
            us = catalog.CLASS_UNITS[cls]
            base = ["reg", name, old, to, fro]
            probes = [["conv", catalog.U(cls, 7.5, rng.choice(us)), rng.choice(us)] for _ in range(3)] + [base]
        elif entry == "iconv":
            setup2, target, units = scenario(rng, rng.choice([k for k in KINDS if k not in ("user unit", "constant")]))
            pool.append(target)
            base = ["iconv", ["P", 0], rng.choice(units)]
            plan["targets"].append([0, base[2]])
        else:
            base = aim.op(lambda: catalog.make_op(rng, entry), ctx.oracle, index)
        if rng.random() < 0.3 and base[0] == "call" or base[0] == "bin" and rng.random() < 0.3:
            add(0, base)
        o, exp = add(0, base)
        if o is None or not stall(o, exp):
            return None
        limit = sched.room(BUDGET, exp)
        judged = [1]
        crowd = rng.random()
        if crowd < 0.12 and base[0] not in ("iconv", "reg"):
            # many callers stop at the same place before anybody else goes on
            step = plan["stops"][-1]["step"]
            for tid in range(2, 2 + rng.choice([1, 1, 2, 3, 7])):
                if spent > limit / 2:
                    break
                plan["threads"].append([])
                o, exp = add(tid, plan["threads"][0][-1]["op"] if rng.random() < 0.7 else sched.vary(rng, base), 1.0)
                if o is not None and exp.points:
                    near = step if step in exp.points else rng.choice(exp.stores or exp.points)
                    plan["stops"].append({"op": o["id"], "step": near, "act": ["stall"]})
            plan["last"] = 1
        elif crowd < 0.4:
            # a second caller stops as well
            plan["threads"].append([])
            op = sched.vary(rng, base) if base[0] not in ("iconv", "reg") else catalog.make_op(rng, rng.choice(sched.CHEAP))
            o, exp = add(2, op)
            if o is not None:
                stall(o, exp)
                for s in sched.pick_points(rng, exp, 1):
                    plan["stops"].append({"op": o["id"], "step": s, "act": ["switch"]})
        for tid in judged:
            for _ in range(rng.randint(2, 5)):
                if spent > limit:
                    break
                c = rng.random()
                if probes and c < 0.6:
                    op = rng.choice(probes)
                elif base[0] not in ("iconv", "reg") and c < 0.3:
                    op = base
                elif base[0] not in ("iconv", "reg") and c < 0.6:
                    op = sched.vary(rng, base)
                else:
                    op = catalog.make_op(rng, rng.choice(["conv:U", "conv:M", "make", "bin:mul"] + sched.CHEAP))
                o, exp = add(tid, op, 0.8)
                if o is not None and len(plan["threads"][tid]) == 1 and plan.get("last") == tid:
                    plan["stops"] += [{"op": o["id"], "step": 0, "act": ["switch"]} for _ in plan["threads"]]
                if o is not None and rng.random() < 0.3:
                    for s in sched.pick_points(rng, exp, 1):
                        plan["stops"].append({"op": o["id"], "step": s, "act": ["switch"]})
        if not plan["threads"][1]:
            return None
        plan["first"] = rng.choice([0, 0, 1])
        return plan

    def execute(self, ctx, plan):
        r = Run(ctx, plan)
        r.targets = {i: self.conv.expected(plan["setup"], plan["pool"][i], [], u) for i, u in plan["targets"]}
        r.exps = {}
        for th in plan["threads"]:
            for o in th:
                op = o["op"]
                r.exps[o["id"]] = r.targets[op[1][1]].exp if op[0] == "iconv" else ctx.oracle.expected(op, plan["pool"], setup=plan["setup"])
        return r.run()


PROP = C27()
