"""C02: concurrent callers get the same answers as a lone caller."""
from sim import catalog, core
from sim.engine import Runner
from sim.observe import outcome, show
from sim.prop import Prop

from .common import bound, concurrent_plan


class Run(Runner):
    def prepare_expectations(self):
        # before the run's own instance becomes the active one
        plan = self.plan
        self.by_id = {}
        for th in plan["threads"] + [plan.get("after", [])]:
            for o in th:
                self.by_id[o["id"]] = self.ctx.oracle.expected(o["op"], plan["pool"])

    def cap(self, opid):
        return bound(self.by_id[opid])

    def compare(self, opid, op, value, exc, who):
        exp = self.by_id[opid]
        if exp.hung or exp.outcome[0] in ("skip", "operand"):
            return
        got = outcome(value, exc)
        self.res.count("answers_compared")
        if got != exp.outcome:
            self.res.violate("answer", f"{catalog.label(op)}|{who}",
                             f"{op} by {who}: alone {show(exp.outcome)}, here {show(got)}")

    def op_done(self, t, opid, op, value, exc, fired):
        self.compare(opid, op, value, exc, f"caller {t.idx}")

    def finished(self):
        sim = self.sim
        if sim.hang is not None:
            tid, opid, step, where = sim.hang
            op = next(o["op"] for th in self.plan["threads"] for o in th if o["id"] == opid)
            self.res.violate("hang", f"{catalog.label(op)}|hang", f"{op} still running after {step} steps at {where}")
        elif sim.deadlock is not None:
            self.res.violate("hang", "deadlock", f"callers {sim.deadlock} wait for each other forever")
        else:
            env = catalog.Env(self.inst, self.env.pool)
            for o in self.plan.get("after", ()):
                try:
                    fn, args, kw = catalog.prepare(env, o["op"])
                except Exception:
                    continue
                value, exc, steps, _t, hung = core.run_alone(fn, args, kw, bound(self.by_id[o["id"]]))
                if hung:
                    self.res.violate("hang", f"{catalog.label(o['op'])}|hang-after", f"{o['op']} hangs after the concurrent phase")
                    break
                self.compare(o["id"], o["op"], value, exc, "later caller")
        self.res.nontrivial = sim.switches > 0


class C02(Prop):
    id = "C02"
    runs = {"quick": 4000, "thorough": 100000}
    technique = "seeded bytecode-level thread schedules over isolated library instances; every answer compared bit-exactly with a lone caller's"
    level = "exploration"
    level_note = ("Seeded search over schedules of 2-3 callers, switch points at every shared-state bytecode; bit-exact lone-caller oracle; "
                  "not exhaustive in schedules or operands.")
    rule = "a run counts if at least one preemption inside or between calls took place; distinct by catalogue entry and sequence of switch locations"
    assumptions = ("CPython with a GIL: switches happen only between bytecodes", "C code (numpy, builtins) is atomic",
                   "a lone call in a fresh instance is what a lone call in a fresh process gives")

    def generate(self, ctx, rng, index):
        return concurrent_plan(ctx, rng, index)

    def execute(self, ctx, plan):
        r = Run(ctx, plan)
        r.prepare_expectations()
        return r.run()

    def shrinkable(self, plan):
        out = super().shrinkable(plan)
        if plan.get("after"):
            out.append(("after",))
        return out


PROP = C02()
