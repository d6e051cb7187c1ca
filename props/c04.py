"""C04: the same calculation gives the same answer in every process."""
import gc
import os

from sim import aim, catalog, core, loader, sched
from sim.catalog import ENTRIES
from sim.engine import Runner
from sim.hashseed import hashseed
from sim.loader import PKG
from sim.observe import outcome, show
from sim.prop import Prop
from sim.serve import Helper, text

from .common import bound

NHELP = 3
HOT = ["reactions.balance_equation", "bin:eq", "bin:mul", "bin:div", "conv:M", "un:repr", "help:simplify_units"]


class Run(Runner):
    def cap(self, opid):
        return bound(self.by_id[opid])

    def op_done(self, t, opid, op, value, exc, fired):
        exp = self.by_id[opid]
        got = outcome(value, exc)
        self.res.count("answers_compared")
        if got != exp.outcome:
            self.differs(op, exp.outcome, got, "import order, address reuse or collection timing")
        elif exc is None and exp.text is not None and text(value) != exp.text:
            self.differs(op, exp.text, text(value), "import order, address reuse or collection timing (printed text)")

    def differs(self, op, a, b, why):
        self.res.violate("differs", f"{catalog.label(op)}|{why.split(',')[0]}",
                         f"{op}: {show(a)} in one process, {show(b)} in another ({why})")

    def finished(self):
        if self.sim.hang is not None:
            self.res.violate("hang", "hang", f"call {self.sim.hang} does not finish")


class C04(Prop):
    id = "C04"
    runs = {"quick": 1600, "thorough": 40000}
    technique = "the same operations in real processes with different hash seeds, and in simulated processes with seeded import orders, address-reuse policies and collection points"
    level_note = "Seeded choice of hash seeds, import orders, heap policies and collection instants; answers and printed text compared bit-exactly."
    rule = "a run counts if answers from at least two processes or configurations were compared; distinct by catalogue entry, hash seed, heap policy and collection points"
    measure = "CRC of (hash seed of the other process, heap policy, first imports, collection points that fired), per catalogue entry"
    simulated = Prop.simulated + ("module import order",)
    assumptions = ("addresses of objects that cannot be weakly referenced, and of classes, are the operating system's",)

    def setup(self, ctx):
        self.modules = sorted(ctx.lib.sources)
        self.helpers = {}
        self.own = int(os.environ.get("PYTHONHASHSEED", "0") or 0)

    def helper(self, h):
        if h not in self.helpers:
            self.helpers[h] = Helper(h)
        return self.helpers[h]

    def generate(self, ctx, rng, index):
        entry = aim.entry(ENTRIES, index, rng)
        plan = dict(label=entry, pool=[], threads=[[]], stops=[], heap=rng.choice(["lifo", "lifo", "fifo", "fresh", "down"]))
        ids = sched.Ids()
        order = [m for m in self.modules if m != PKG]
        rng.shuffle(order)
        plan["imports"] = order[:rng.choice([3, len(order)])] + [f"{PKG}.{s}" for s in loader.SUBPACKAGES]
        base = aim.op(lambda: catalog.make_op(rng, entry), ctx.oracle, index)
        spent = 0
        for i in range(rng.randint(3, 10)):
            c = rng.random()
            if i == 0:
                op = base
            elif c < 0.45:
                op = sched.vary(rng, base)
            elif c < 0.65:
                op = catalog.make_op(rng, entry)
            else:
                op = catalog.make_op(rng, rng.choice(HOT))
            if rng.random() < 0.2:
                op = catalog.poolify(rng, op, plan["pool"])
            exp = ctx.oracle.expected(op, plan["pool"], with_text=True)
            if exp.hung or exp.outcome[0] not in ("ok", "raise"):
                if i == 0:
                    return None
                continue
            spent += exp.steps
            if i == 0:
                limit = sched.room(250_000, exp)
            o = ids(op)
            plan["threads"][0].append(o)
            for s in sched.pick_points(rng, exp, rng.choice([0, 1, 3])):
                plan["stops"].append({"op": o["id"], "step": s, "act": ["gc"]})
            if spent > limit:
                break
        seeds = [hashseed(f"c04-{self.own}", j) for j in range(NHELP)]
        plan["hashseed"] = rng.choice(seeds)
        plan["note"] = f"heap {plan['heap']}, hash seed {plan['hashseed']}"
        return plan

    def execute(self, ctx, plan):
        r = Run(ctx, plan)
        ops = plan["threads"][0]
        r.by_id = {o["id"]: ctx.oracle.expected(o["op"], plan["pool"], with_text=True) for o in ops}
        other = self.helper(plan["hashseed"]).ask([o["op"] for o in ops], plan["pool"])
        gc.collect()
        res = r.run()
        for o, (out, txt, hung) in zip(ops, other):
            exp = r.by_id[o["id"]]
            res.count("processes_compared")
            if out != exp.outcome or hung != exp.hung:
                res.violate("differs", f"{catalog.label(o['op'])}|hash seed",
                            f"{o['op']}: {show(exp.outcome)} with hash seed {self.own}, {show(out)} with {plan['hashseed']}")
            elif txt != exp.text:
                res.violate("differs", f"{catalog.label(o['op'])}|hash seed text",
                            f"{o['op']}: prints {exp.text!r} with hash seed {self.own}, {txt!r} with {plan['hashseed']}")
        res.nontrivial = bool(ops)
        import zlib
        res.sig = zlib.crc32(f"{plan['hashseed']}{plan['heap']}{plan['imports'][:3]}".encode(), res.sig)
        return res


PROP = C04()
