"""C28: a call takes no more work because of what the worker served before."""
import random
import zlib

from sim import aim, catalog, core, loader, sched, seams
from sim.catalog import ENTRIES
from sim.engine import Result
from sim.prop import Prop

from .c05 import FAMILIES, FAULTS, USER_UNITS
from .c26 import GROWTH, different, kinds
from .common import Conversions

SPECIAL = ["register", "register", "in place", "in place", "in place compound", "in place compound"]
ALL = ENTRIES + SPECIAL
BUDGET = 700_000
CHEAP_GROWTH = ["conv:U", "conv:bad", "bin:mulU", "bin:add", "make", "utility.get_water_properties", "help:parse_units", "iconv"]
EXTRA, FACTOR = 400, 1.5          # what a call may take more than in a fresh process


MORE = 25                         # parts added to a soak in which calls take more and more
SOAK = 500_000                    # calls and loops of unmeasured calls in each part of a soak


def allowed(steps):
    return int(steps * FACTOR) + EXTRA


def creeping(took):
    """Whether the same call in the same situation took more and more steps, without an end."""
    if len(took) < 40:
        return False
    q = len(took) // 4
    parts = [took[i * q:(i + 1) * q] for i in range(4)]
    mean = [sum(p) / q for p in parts]
    return max(parts[0]) < min(parts[3]) and all(b - a >= 2 for a, b in zip(mean, mean[1:])) and mean[3] - mean[2] > (mean[1] - mean[0]) / 2


class C28(Prop):
    id = "C28"
    runs = {"quick": 1600, "thorough": 40000}
    technique = "seeded histories of hundreds of calls, failures, calls cut short, repeated registrations and in-place conversions on one simulated worker, every call's steps counted by the simulator"
    level_note = "Seeded histories; the library's steps in every call are compared with those of the same call in a fresh process."
    rule = "a run counts if at least ten calls were measured; distinct by sequence of operations and abort points"
    measure = "CRC of the sequence of operations and abort points, per catalogue entry"
    assumptions = ("work is counted in bytecodes of the library, of copy and of user functions; what C code does inside one bytecode is not seen",
                   f"a call may take up to {FACTOR} times the steps of a fresh process and {EXTRA} more, for bookkeeping of a fixed size")

    def setup(self, ctx):
        self.conv = Conversions(ctx.lib)

    def generate(self, ctx, rng, index):
        if index % 6 == 5:
            return self.soak(rng, index // 6)
        entry = aim.entry(ALL, index, rng)
        plan = dict(label=entry, note="history", pool=[], setup=[], threads=[[]], stops=[], heap=rng.choice(["lifo", "fifo", "fresh"]))
        ids = sched.Ids()
        ops, pool = plan["threads"][0], plan["pool"]
        n = rng.choice([30, 80, 200, 400])
        spent = 0
        if entry.startswith("in place"):
            plan["note"] = "in place"
            pair = []
            for _ in range(rng.randint(1, 2)):
                if entry == "in place":
                    cls = rng.choice(["Length", "Temperature", "Pressure", "Mass", "Energy", "Time", "Force"])
                    us = catalog.CLASS_UNITS[cls]
                    pool.append(catalog.U(cls, 2.5, rng.choice(us)))
                else:
                    us = rng.choice(FAMILIES)
                    pool.append(catalog.M("MultiUnit", 2.5, rng.choice(us)))
                pair.append(rng.sample(us, min(len(us), rng.randint(2, 4))))
            last = [r[3] for r in pool]
            budget = BUDGET
            if rng.random() < 0.3:
                # to and fro, very often
                del pool[1:], pair[1:], last[1:]
                pair[0] = rng.sample(pair[0], 2)
                n, budget = 160, 4 * BUDGET
            while len(ops) < n and spent < budget:
                i = rng.randrange(len(pool))
                if n == 160:
                    u = pair[i][len(ops) % 2]
                else:
                    u = rng.choice(catalog.BAD_UNITS if rng.random() < 0.1 else pair[i])
                exp = self.fresh_conversion(pool[i], last[i], u)
                if exp is None:
                    spent += 2000
                    continue
                spent += exp[0]
                o = ids(["iconv", ["P", i], u])
                ops.append(o)
                if exp[1] == "ok":
                    last[i] = u
            return plan
        unit = None
        if entry == "register":
            unit = rng.choice(USER_UNITS)
            plan["setup"].append(["reg"] + list(unit[:4]))
        base = aim.op(lambda: catalog.make_op(rng, entry), ctx.oracle, index) if unit is None else ["reg"] + list(unit[:4])
        few = [base]
        for _ in range(rng.randint(1, 4)):
            if unit is not None:
                us = catalog.CLASS_UNITS[unit[4]] + [unit[0]] * 3
                few.append(["conv", catalog.U(unit[4], 7.5, rng.choice(us)), rng.choice(us)])
            else:
                few.append(sched.companion(rng, entry, base, 0.7, 0.0))
        while len(ops) < n and spent < BUDGET:
            c = rng.random()
            if c < 0.5:
                op = rng.choice(few)
            elif unit is not None:
                op = few[0] if c < 0.7 else catalog.make_op(rng, "conv:U")
            elif c < 0.8:
                op = sched.vary(rng, rng.choice(few))
            else:
                op = catalog.make_op(rng, entry if c < 0.95 else "conv:bad")
            exp = ctx.oracle.expected(op, [], trace=False, setup=plan["setup"])
            if exp.hung or exp.outcome[0] not in ("ok", "raise"):
                spent += 3000
                if not ops and op is base:
                    return None
                continue
            spent += exp.steps + 100
            o = ids(op)
            ops.append(o)
            if rng.random() < 0.02:
                # a great variety of other calls, not measured themselves
                k = entry if entry in kinds() and rng.random() < 0.8 else rng.choice(CHEAP_GROWTH)
                ops.append(dict(ids(None), fill=[k, rng.choice([40, 120, 300]), rng.randrange(1 << 40)]))
                spent += 60_000
            if exp.steps > 3 and rng.random() < 0.06:
                plan["stops"].append({"op": o["id"], "step": rng.randint(1, exp.steps), "act": ["raise", rng.choice(FAULTS)]})
        return plan if len(ops) >= 5 else None

    def soak(self, rng, index):
        """The same few calls again and again between thousands of different ones."""
        entry = aim.entry(kinds(), index, rng)
        plan = dict(label=f"soak {entry}", note="soak", pool=[], setup=[], threads=[[]], stops=[], heap=rng.choice(["lifo", "fifo", "fresh"]))
        ids = sched.Ids()
        few = [different(rng, entry) for _ in range(5)]
        for _ in range(rng.choice([2, 3, 4])):
            plan["threads"][0].append(dict(ids(None), fill=[entry, 4000, rng.randrange(1 << 40)], cap=SOAK))
            for op in few + [different(rng, entry) for _ in range(3)]:
                plan["threads"][0].append(ids(op))
        return plan

    def fresh_conversion(self, recipe, last, unit):
        """(steps, outcome) of a conversion of a newly made quantity, or None."""
        st = self.conv.expected([], recipe[:3] + [last], [], unit)
        if st.unusable or st.exp is None:
            return None
        return st.exp.steps, "ok" if st.refused is None else "refused"

    def execute(self, ctx, plan):
        res = Result()
        todo = plan["threads"][0]
        inplace = plan["note"] == "in place"
        want = {}
        if not inplace:
            want = {o["id"]: ctx.oracle.expected(o["op"], [], trace=False, setup=plan["setup"]) for o in todo if o["op"] is not None}
        stops = {s["op"]: (s["step"], s["act"]) for s in plan["stops"]}
        loader.HEAP[0] = loader.SimHeap(plan.get("heap", "lifo"))
        seams.CLOCK.reset()
        inst = ctx.lib.new()
        env = catalog.Env(inst)
        for s in plan["setup"]:
            fn, args, kw = catalog.prepare(env, s)
            fn(*args, **kw)
        env.pool = {i: catalog.build(env, r) for i, r in enumerate(plan["pool"])}
        last = [r[3] for r in plan["pool"]]
        taken, extra = {}, [[]]
        queue = list(todo)
        while queue or plan["note"] == "soak" and self.longer(ctx, inst, todo, extra, want, queue, res):
            o = queue.pop(0)
            op = o["op"]
            if op is None:
                self.fill(env, o["fill"], res, o.get("cap", 100_000))
                extra.append([])
                continue
            if not inplace and (want[o["id"]].hung or want[o["id"]].outcome[0] not in ("ok", "raise")):
                continue
            if inplace:
                fresh = self.fresh_conversion(plan["pool"][op[1][1]], last[op[1][1]], op[2])
                ctx.lib.activate(inst)
                if fresh is None:
                    continue
                steps = fresh[0]
            else:
                steps = want[o["id"]].steps
            try:
                fn, args, kw = catalog.prepare(env, op)
            except Exception:
                res.count("skipped_ops")
                continue
            res.sig = zlib.crc32(repr((op, stops.get(o["id"]))).encode(), res.sig)
            if o["id"] in stops:
                self.cut(stops[o["id"]], fn, args, kw, res, allowed(steps))
                continue
            _v, exc, took, _t, hung = core.run_alone(fn, args, kw, max(20 * allowed(steps), 50_000))
            res.steps += took
            res.ops += 1
            res.count("calls_measured")
            taken.setdefault(repr((op, last[op[1][1]] if inplace else None)), []).append(took)
            if inplace and exc is None and not hung:
                last[op[1][1]] = op[2]
            if took > allowed(steps):
                res.violate("slower", f"{catalog.label(op)}|slower", f"{op} takes {'more than ' if hung else ''}{took} steps after {res.ops - 1} earlier calls, {steps} in a fresh process")
                break
            if not inplace:
                extra[-1].append(took - steps)
        else:
            if len(extra) > MORE:
                most = [max([x for part in extra[1 + i * MORE // 4:1 + (i + 1) * MORE // 4] for x in part] + [0]) for i in range(4)]
                if most[3] - most[0] >= 200 and all(b > a for a, b in zip(most, most[1:])) and most[3] - most[2] > (most[1] - most[0]) / 3:
                    res.violate("slower", "soak", f"calls take more and more steps between ever new calls of {plan['label'][5:]}: up to {most} more than in a fresh process")
            for k, t in taken.items():
                if creeping(t):
                    res.violate("slower", "creeping", f"{k} takes more and more steps each time: {t[0]} at first, {t[len(t) // 2]} after {len(t) // 2} times, {t[-1]} after {len(t)}")
                    break
        res.nontrivial = res.ops >= 10
        return res

    def longer(self, ctx, inst, todo, extra, want, queue, res):
        """Calls take more and more, though still no more than they may: see whether that ends."""
        first = next((o["fill"] for o in todo if o["op"] is None), None)
        half = len(extra) // 2
        early, late = ([x for part in parts for x in part] for parts in (extra[:half], extra[half:]))
        if first is None or len(extra) > MORE or not early or not late or max(late) < max(early + [0]) + 10:
            return False
        rng = random.Random(f"more {first} {len(extra)}")
        queue.append(dict(op=None, fill=[first[0], first[1], rng.randrange(1 << 40)], cap=2 * SOAK))
        for k in range(5):
            op, i = different(rng, first[0]), f"more {len(extra)} {k}"
            want[i] = ctx.oracle.expected(op, [], trace=False)
            queue.append(dict(op=op, id=i))
        ctx.lib.activate(inst)
        res.count("soaks_prolonged")
        return True

    def fill(self, env, how, res, cap):
        entry, n, seed = how
        rng = random.Random(seed)
        spent = 0
        with core.coarsely():
            for _ in range(n):
                if spent > cap:
                    break
                try:
                    fn, args, kw = catalog.prepare(env, different(rng, entry))
                except Exception:
                    continue
                spent += core.run_alone(fn, args, kw, 300_000)[2] + 5
                res.count("calls_not_measured")
        res.sig = zlib.crc32(repr(how).encode(), res.sig)

    def cut(self, stop, fn, args, kw, res, cap):
        sim = core.Sim()
        sim.spawn(lambda t: t.call(0, [stop], fn, args, kw, max(20 * cap, 50_000)))
        core.ACTIVE[0] = sim
        try:
            sim.run()
        finally:
            core.ACTIVE[0] = None
            core._cur = None
        for k, n in sim.faults.items():
            res.faults[k] = res.faults.get(k, 0) + n


PROP = C28()
