"""C29: quantities in registered units travel between workers unharmed."""
import json
import pickle
import zlib

from sim import catalog, core, loader, sched, seams
from sim.engine import Result
from sim.observe import canon, outcome, show
from sim.oracle import STEP_CAP
from sim.prop import Prop

from .c05 import FAULTS

# name, existing unit, functions, class: several definitions of one name
UNITS = [("smoot", "m", "times07", "over07", "Length"), ("smoot", "ft", "times3", "third", "Length"),
         ("delisle", "C", "aff", "affinv", "Temperature"), ("delisle", "K", "plus10", "minus10", "Temperature"),
         ("crate", "lb", "times4", "quarter", "Mass"), ("crate", "g", "times3", "third", "Mass"),
         ("shift", "hr", "plus10", "minus10", "Time"), ("head", "psi", "times07", "over07", "Pressure"), ("push", "lbf", "times3", "third", "Force"),
         ("spark", "kJ", "times4", "quarter", "Energy"),
         # names that look like others with a prefix, or differ in one letter
         ("ksmoot", "m", "times4", "quarter", "Length"), ("kft", "m", "times3", "third", "Length"), ("Smoot", "yd", "times07", "over07", "Length"),
         ("mcrate", "kg", "times07", "over07", "Mass"), ("dK", "K", "times3", "third", "Temperature"), ("mpush", "N", "times4", "quarter", "Force"),
         ("khead", "Pa", "times3", "third", "Pressure")]
CLASSES = sorted({u[4] for u in UNITS})


def prepare_on(env, op, q):
    """The operation on a worker, its quantity having arrived in a parcel."""
    env.pool = {0: q}
    return catalog.prepare(env, op)


class Model:
    """What the operation gives on a fresh worker with the same completed registrations."""

    def __init__(self, ctx):
        self.ctx = ctx
        self.memo = {}

    def get(self, regs, recipe, op):
        key = json.dumps([regs, recipe, op])
        hit = self.memo.get(key)
        if hit is not None:
            return hit
        loader.HEAP[0] = loader.SimHeap()
        lib = self.ctx.lib
        sender = lib.new()
        env = catalog.Env(sender)
        apply(env, [["reg"] + list(u[:4]) for u in UNITS])
        arrived = None
        blob = None
        if recipe is not None:
            q = catalog.build(env, recipe)
            arrived = canon(q)
            blob = pickle.dumps(q)
        worker = lib.new()
        lib.activate(worker)
        env = catalog.Env(worker)
        apply(env, regs)
        try:
            q = pickle.loads(blob) if blob else None
        except Exception as x:
            out = (("unread", f"{type(x).__name__}: {x}"), 0, False, arrived, None)
            self.memo[key] = out
            return out
        fn, args, kw = prepare_on(env, op, q)
        value, exc, steps, _t, hung = core.run_alone(fn, args, kw, STEP_CAP)
        out = (outcome(value, exc), steps, hung, arrived, canon(env.pool[0]) if blob else None)
        if len(self.memo) > 20000:
            self.memo.clear()
        self.memo[key] = out
        return out


def apply(env, regs):
    for r in regs:
        fn, args, kw = catalog.prepare(env, r)
        fn(*args, **kw)


class C29(Prop):
    id = "C29"
    runs = {"quick": 3200, "thorough": 80000}
    technique = "simulated workers with different, repeated, interrupted and lost registrations exchanging pickled quantities in registered units"
    level_note = "Seeded histories of registrations, restarts and parcels; arrivals and answers compared bit-exactly with a fresh worker's that made the same registrations."
    rule = "a run counts if a quantity was sent and used; distinct by sequence of (worker, event, operation)"
    measure = "CRC of the sequence of (worker, event, operation, outcome)"
    simulated = Prop.simulated + ("parcels between workers", "worker restart")
    assumptions = ("a worker is one library instance; a restart discards it", "the sender knows the unit of what it sends")

    def setup(self, ctx):
        self.model = Model(ctx)

    def generate(self, ctx, rng, index):
        cls = CLASSES[index % len(CLASSES)]
        mine = [u for u in UNITS if u[4] == cls]
        others = [u for u in UNITS if u[4] != cls]
        nw = rng.choice([1, 2, 2, 3])
        plan = dict(label=cls, note=f"{nw} workers", workers=nw, events=[], heap=rng.choice(["lifo", "fifo", "fresh"]))
        ids = sched.Ids()
        us = catalog.CLASS_UNITS[cls]
        names = sorted({u[0] for u in mine})

        def quantity():
            e = [] if rng.random() < 0.8 else [rng.choice([1, 1.0, 2])]
            return catalog.U(cls, rng.choice([7.5, 300, 1, 0.25, -4]), rng.choice(names if rng.random() < 0.75 else us), *e)

        for _ in range(rng.randint(5, 24)):
            c = rng.random()
            e = dict(ids(None), w=rng.randrange(nw))
            if c < 0.3:
                u = rng.choice(mine if rng.random() < 0.85 else others)
                e.update(do="reg", op=["reg"] + list(u[:4]))
                if rng.random() < 0.2:
                    e["cut"] = [rng.randint(1, 40), rng.choice(FAULTS)]
            elif c < 0.38:
                e.update(do="restart")
            else:
                q = ["P", 0]
                k = rng.random()
                target = rng.choice(us + names * 2)
                if k < 0.5:
                    op = ["conv", q, target]
                elif k < 0.65:
                    op = ["iconv", q, target]
                elif k < 0.75:
                    op = ["un", rng.choice(["repr", "str", "copy", "deepcopy", "pickle", "neg"]), q]
                elif k < 0.85:
                    op = ["bin", rng.choice(["add", "sub", "eq"]), q, rng.choice([q, catalog.U(cls, 2, rng.choice(us))])]
                else:
                    op = ["bin", rng.choice(["mul", "div", "pow"]), q, 2]
                e.update(do="task", q=quantity(), op=op, hops=[[rng.randrange(nw), rng.choice([None] + us + names * 2)] for _ in range(rng.choice([0, 0, 1, 1, 2]))])
            plan["events"].append(e)
        return plan

    def shrinkable(self, plan):
        return [("events",)]

    def execute(self, ctx, plan):
        res = Result()
        lib = ctx.lib
        # references first: they need instances of their own
        regs = [[] for _ in range(plan["workers"])]        # completed registrations
        doubt = [{} for _ in range(plan["workers"])]       # interrupted ones: name -> definition
        loader.HEAP[0] = loader.SimHeap(plan.get("heap", "lifo"))
        seams.CLOCK.reset()
        sender = lib.new()
        senv = catalog.Env(sender)
        apply(senv, [["reg"] + list(u[:4]) for u in UNITS])
        workers = [lib.new() for _ in range(plan["workers"])]
        used = False
        for e in plan["events"]:
            w = e["w"]
            if w >= len(workers):
                continue
            if e["do"] == "restart":
                workers[w] = lib.new()
                regs[w], doubt[w] = [], {}
                res.faults["restart"] = res.faults.get("restart", 0) + 1
                res.sig = zlib.crc32(f"restart{w}".encode(), res.sig)
                continue
            if e["do"] == "reg":
                self.register(ctx, e, workers[w], regs[w], doubt[w], res)
            else:
                used |= self.task(ctx, e, senv, workers, regs, doubt, res)
            if res.violations:
                break
        res.nontrivial = used
        return res

    def register(self, ctx, e, inst, regs, doubt, res):
        op = e["op"]
        want, steps, hung, _a, _b = self.model.get(regs, None, op)
        if hung:
            return
        ctx.lib.activate(inst)
        fn, args, kw = catalog.prepare(catalog.Env(inst), op)
        if e.get("cut"):
            sim = core.Sim()
            box = []
            sim.spawn(lambda t: box.append((t.call(0, [(e["cut"][0], ["raise", e["cut"][1]])], fn, args, kw, 20 * steps + 10_000), t.fault_fired)))
            core.ACTIVE[0] = sim
            try:
                sim.run()
            finally:
                core.ACTIVE[0] = None
                core._cur = None
            (_v, exc), fired = box[0] if box else ((None, None), True)
            if fired:
                res.faults["cut"] = res.faults.get("cut", 0) + 1
                res.sig = zlib.crc32(repr(("cut", e["w"], op, e["cut"])).encode(), res.sig)
                if want[0] == "ok":
                    doubt[op[1]] = op
                return
        else:
            _v, exc, steps, _t, hung = core.run_alone(fn, args, kw, 20 * steps + 10_000)
            res.steps += steps
        got = outcome(None, exc)
        res.ops += 1
        res.sig = zlib.crc32(repr((e["w"], op, got[0])).encode(), res.sig)
        unsure = op[2] in doubt
        if got[0] != want[0] and not unsure:
            res.violate("registration", f"{op[1]}|registration", f"registering {op[1:3]} on worker {e['w']}: fresh worker {show(want)}, here {show(got)}")
        if got[0] == "ok":
            regs[:] = [r for r in regs if r != op] + [op]
            doubt.pop(op[1], None)
            if unsure:
                doubt[op[1]] = op       # made from a unit of which nothing is certain

    def task(self, ctx, e, senv, workers, regs, doubt, res):
        op, w = e["op"], e["w"]
        lib = ctx.lib
        want, steps, hung, sent, after = self.model.get(regs[w], e["q"], op)
        if hung:
            return False
        if want[0] == "unread":
            res.violate("parcel", "parcel", f"{e['q']} cannot be read by a fresh worker: {want[1]}")
            return True
        lib.activate(senv.inst)
        blob = pickle.dumps(catalog.build(senv, e["q"]))
        for h, use in e["hops"]:                  # by way of other workers, which may look at it
            h %= len(workers)
            lib.activate(workers[h])
            try:
                q = pickle.loads(blob)
                if use is not None:
                    try:
                        catalog.conv(q, use)
                    except Exception:
                        pass
                blob = pickle.dumps(q)
            except Exception as x:
                res.violate("parcel", "parcel", f"{e['q']} cannot pass through worker {h}: {type(x).__name__}: {x}")
                return True
            res.sig = zlib.crc32(repr((h, use)).encode(), res.sig)
        inst = workers[w]
        lib.activate(inst)
        env = catalog.Env(inst)
        try:
            q = pickle.loads(blob)
        except Exception as x:
            res.violate("parcel", "parcel", f"{e['q']} cannot be read by worker {w}: {type(x).__name__}: {x}")
            return True
        if canon(q) != sent:
            res.violate("parcel", "parcel", f"{e['q']} arrives at worker {w} as {show(canon(q))}")
            return True
        fn, args, kw = prepare_on(env, op, q)
        value, exc, took, _t, hung = core.run_alone(fn, args, kw, 20 * steps + 10_000)
        res.steps += took
        res.ops += 1
        got, now = outcome(value, exc), canon(q)
        res.sig = zlib.crc32(repr((w, op, got[0])).encode(), res.sig)
        res.count("answers_compared")
        if hung:
            res.violate("hang", f"{catalog.label(op)}|hang", f"{op} does not finish on worker {w}")
            return True
        answers = [(want, after)]
        if doubt[w]:
            # an interrupted registration may or may not have taken effect, whole or for one direction
            known = regs[w] + [d for d in doubt[w].values()]
            for cand in ([r for r in regs[w] if r[1] not in doubt[w]], known):
                try:
                    x = self.model.get(cand, e["q"], op)
                except Exception:
                    continue
                answers.append((x[0], x[4]))
            lib.activate(inst)
            if got[0] == "raise" and now == sent:
                return True
        if (got, now) not in answers:
            res.violate("answer", f"{catalog.label(op)}|answer",
                        f"{op} of {e['q']} on worker {w} (registered there: {[r[1:3] for r in regs[w]]}): a fresh worker gives {show(want)}, here {show(got)}")
        return True


PROP = C29()
