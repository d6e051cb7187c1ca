"""C01: calculations never change the quantities they are given."""
from sim import catalog, sched
from sim.engine import Runner, diff, snap
from sim.observe import show
from sim.prop import Prop

from .common import bound, concurrent_plan


class Run(Runner):
    def started(self):
        self.base = snap(self.env)
        self.bad = set()

    def compare(self, when, label):
        self.res.count("snapshots_compared")
        d = diff(self.base, snap(self.env))
        if d is not None and str(d[0]) not in self.bad:
            self.bad.add(str(d[0]))
            what = d[0] if isinstance(d[0], str) else f"operand {self.plan['pool'][d[0]]}"
            self.res.violate("changed", f"{label}|{when}", f"{what} changed from {show(d[1])} to {show(d[2])} ({when} {label})")

    def cap(self, opid):
        return 60_000_000

    def look(self, why, t):
        self.compare("during", self.labels.get(t.op_id, "?"))

    def before_op(self, t, opid, op):
        self.labels[opid] = catalog.label(op)

    def op_done(self, t, opid, op, value, exc, fired):
        self.compare("after failing" if exc is not None else "after", catalog.label(op))

    labels = None

    def finished(self):
        self.compare("at the end", "all")
        self.res.nontrivial = bool(self.sim.log)


class C01(Prop):
    id = "C01"
    runs = {"quick": 3200, "thorough": 60000}
    technique = "seeded schedules with observers at bytecode granularity; canonical snapshots of all shared objects compared at every observation"
    level_note = ("Seeded search over schedules of 1-3 callers; every shared quantity, list and constant is compared with its initial value at each "
                  "planned instant, each preemption and each call end.")
    rule = "a run counts if at least one observation or preemption inside a call fired; distinct by catalogue entry and sequence of locations"
    assumptions = ("observable state of a quantity is its class, value, units and exponents",)

    def generate(self, ctx, rng, index):
        plan = concurrent_plan(ctx, rng, index, after=False)
        if plan is None:
            return None
        # a dense watch over one call
        o = plan["threads"][0][0]
        exp = ctx.oracle.expected(o["op"], plan["pool"])
        pts = exp.points
        if len(pts) > 150:
            pts = rng.sample(exp.stores, min(75, len(exp.stores))) + rng.sample(pts, 75)
        for s in sorted(set(pts)):
            plan["stops"].append({"op": o["id"], "step": s, "act": ["look"]})
        return plan

    def execute(self, ctx, plan):
        r = Run(ctx, plan)
        r.labels = {}
        return r.run()


PROP = C01()
