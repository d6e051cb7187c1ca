"""C26: a long-lived worker keeps nothing of the calculations it has finished."""
import gc
import random
import sys
import types
import weakref
import zlib

from sim import aim, catalog, core, loader, sched, seams
from sim.catalog import ENTRIES
from sim.engine import Result
from sim.prop import Prop

from .c05 import FAULTS
from .common import bound

GROWTH = ["conv:U", "conv:M", "conv:bad", "make", "bin:mul", "bin:div", "bin:mulU", "bin:pow", "bin:scal", "bin:add", "bin:eq", "un:repr", "un:copy",
          "utility.get_water_properties", "utility.get_gas_constant", "reactions.balance_equation", "help:parse_units", "help:get_unit_string",
          "usolve", "thermodynamics.peng_robinson", "reactions.integral_method", "process_safety.FAR", "utility.reynolds",
          "heat_transfer.deltat_logmean", "reactions.arrhenius", "mass_transfer.wilke_chang", "iconv", "reg"]
STEPS = 6_000_000          # steps of library code a growth run may spend
QUARTERS = 4
ENOUGH, PROLONGED = 150_000, 100      # bytes no bookkeeping of limited size needs; parts of a prolonged soak
TAGS = ("P", "R", "c", "x", "n", "L", "T", "w", "wp", "top", "bot", "of", "el", "fn", "do", "num", "B", "A")


def watch(v, out, depth=0):
    """Weak references to every quantity, list element and record in v."""
    if depth > 3:
        return
    if isinstance(v, (list, tuple)):
        for y in v:
            watch(y, out, depth + 1)
    elif type(v).__module__.startswith(loader.PKG):
        try:
            out.append((type(v).__name__, weakref.ref(v)))
        except TypeError:
            return


def footprint(inst):
    """Bytes the library's own modules lead to."""
    seen, size = set(), 0
    stack = [m.__dict__ for m in inst.modules.values()]
    skip = (types.ModuleType, types.CodeType, types.BuiltinFunctionType, types.FrameType)
    while stack:
        o = stack.pop()
        if id(o) in seen or isinstance(o, skip):
            continue
        seen.add(id(o))
        if isinstance(o, type) and not o.__module__.startswith(loader.PKG):
            continue
        if o is inst.lib.builtins or isinstance(o, types.FunctionType) and not str(o.__module__).startswith(loader.PKG):
            continue
        size += sys.getsizeof(o)
        stack.extend(gc.get_referents(o))
    return size


class C26(Prop):
    id = "C26"
    runs = {"quick": 1600, "thorough": 30000}
    technique = "seeded histories of calls, failures and calls cut short on one simulated worker; weak references and the size of everything the library can reach are the monitors"
    level_note = "Seeded histories; every operand and result must be reclaimable after each call, and what the library holds must stop growing within a soak of thousands of different calls."
    rule = "a run counts if at least one call finished and was inspected; distinct by sequence of operations and abort points"
    measure = "CRC of the sequence of operations and abort locations, per catalogue entry"
    assumptions = ("memory is what the library's modules lead to; the allocator's own behaviour is not examined",
                   "a store that fills up to a fixed size within half of a soak is not growth")

    def generate(self, ctx, rng, index):
        if index % 20 == 3:
            entry = aim.entry(kinds(), index // 20, rng)
            return dict(label=f"soak {entry}", entry=entry, threads=[[]], stops=[], seed=rng.randrange(1 << 40), note="soak")
        entry = aim.entry(ENTRIES, index, rng)
        plan = dict(label=entry, threads=[[]], stops=[], heap=rng.choice(["lifo", "fresh"]), note="release")
        ids, spent = sched.Ids(), 0
        base = aim.op(lambda: catalog.make_op(rng, entry), ctx.oracle, index)
        for k in range(rng.randint(2, 6)):
            op = base if k == 0 else sched.companion(rng, entry, base, 0.7)
            exp = ctx.oracle.expected(op, [])
            if exp.hung or exp.outcome[0] not in ("ok", "raise"):
                if k == 0:
                    return None
                continue
            o = ids(op)
            plan["threads"][0].append(o)
            spent += exp.steps
            if exp.points and rng.random() < 0.4:
                src = exp.stores if exp.stores and rng.random() < 0.35 else exp.points
                plan["stops"].append({"op": o["id"], "step": rng.choice(src), "act": ["raise", rng.choice(FAULTS)]})
            if spent > 120_000:
                break
        return plan

    def execute(self, ctx, plan):
        return self.soak(ctx, plan) if plan["note"] == "soak" else self.release(ctx, plan)

    # ------------------------------------------------------------- release
    def release(self, ctx, plan):
        res = Result()
        exps = {o["id"]: ctx.oracle.expected(o["op"], []) for o in plan["threads"][0]}
        loader.HEAP[0] = loader.SimHeap(plan.get("heap", "lifo"))
        seams.CLOCK.reset()
        inst = ctx.lib.new()
        env = catalog.Env(inst)
        mine = set()
        for name in catalog.CONSTANTS:
            try:
                mine.add(id(inst.get("utility.constants." + name)))
            except catalog.Missing:
                pass
        stops = {}
        for s in plan["stops"]:
            stops.setdefault(s["op"], []).append((s["step"], s["act"]))
        for o in plan["threads"][0]:
            op, exp = o["op"], exps[o["id"]]
            try:
                watched, alive, hung, cut = self.one(env, op, stops.get(o["id"], ()), bound(exp), res, mine)
            except (catalog.Skip, catalog.Missing):
                res.count("skipped_ops")
                continue
            if hung:
                res.violate("hang", f"{catalog.label(op)}|hang", f"{op} does not finish")
                break
            res.ops += 1
            res.sig = zlib.crc32(repr(op).encode(), res.sig)
            res.count("objects_watched", watched)
            if alive:
                res.violate("kept", f"{catalog.label(op)}|kept", f"{op}{' cut short' if cut else ''}: {len(alive)} of {watched} quantities it was given or returned are still held by the library afterwards ({alive[0]})")
                break
        res.nontrivial = res.ops > 0
        return res

    def one(self, env, op, stops, cap, res, mine):
        """Makes the operands, the call and its result, drops them all and looks what is left; the caller lives on."""
        sim = core.Sim()
        box = []

        def work(t):
            fn, args, kw = catalog.prepare(env, op)
            refs = []
            for a in args + tuple(kw.values()):
                if id(a) not in mine:
                    watch(a, refs)
            fn_self = getattr(fn, "__self__", None)
            if fn_self is not None and not isinstance(fn_self, (type, types.ModuleType)):
                watch(fn_self, refs)
            t.tidy = False           # a kept exception keeps the frames it went through
            value, exc = t.call(0, stops, fn, args, kw, cap)
            watch(value, refs)
            if exc is not None:
                watch(list(getattr(exc, "args", ())), refs)
            return [(n, r) for n, r in refs if r() is not None and id(r()) not in mine]

        def body(t):
            refs = work(t)
            t.pending = []
            gc.collect()
            box.append((len(refs), [n for n, r in refs if r() is not None], bool(t.fault_fired)))
        t = sim.spawn(body)
        core.ACTIVE[0] = sim
        try:
            sim.run()
        finally:
            core.ACTIVE[0] = None
            core._cur = None
        res.steps += t.step
        for k, n in sim.faults.items():
            res.faults[k] = res.faults.get(k, 0) + n
        for e in sim.log:
            res.sig = zlib.crc32(repr(e[3:]).encode(), res.sig)
        t.body = None
        t.pending = []
        watched, alive, cut = box[0] if box else (0, [], False)
        return watched, alive, sim.hang is not None, cut

    # --------------------------------------------------------------- soak
    def soak(self, ctx, plan):
        """Many different calls of one kind: what the library holds must stop growing."""
        res = Result()
        rng = random.Random(plan["seed"])
        loader.HEAP[0] = loader.SimHeap()
        seams.CLOCK.reset()
        inst = ctx.lib.new()
        env = catalog.Env(inst)
        entry, n = plan["entry"], 0
        sizes = []
        self.many(env, rng, entry, res, 40_000, 6_000)      # first uses may fill tables
        per = 40
        cost = max(1, self.many(env, rng, entry, res, per) // per)
        each = plan.get("each") or max(60, min(2500, STEPS // QUARTERS // cost))
        gc.collect()
        sizes.append(footprint(inst))
        while len(sizes) <= QUARTERS or len(sizes) <= PROLONGED and self.growing(sizes) and sizes[-1] - sizes[1] < ENOUGH:
            # a table of limited size fills up and then stops, so a growing one is watched for longer
            self.many(env, rng, entry, res, each)
            n += each
            gc.collect()
            sizes.append(footprint(inst))
        res.count("soak_calls", n)
        res.sig = zlib.crc32(repr((entry, plan["seed"])).encode())
        if len(sizes) > QUARTERS + 1:
            res.count("soaks_prolonged")
        if self.growing(sizes) and sizes[-1] - sizes[1] >= ENOUGH:
            grown = [b - a for a, b in zip(sizes, sizes[1:])]
            res.violate("grows", f"{entry}|grows", f"what the library holds grows by {grown} bytes per {each} different calls of {entry} and never stops")
        res.nontrivial = True
        return res

    @staticmethod
    def growing(sizes):
        return all(b - a > 128 for a, b in zip(sizes[1:], sizes[2:]))

    def many(self, env, rng, entry, res, n, cap=core.NEVER):
        """n different calls, some of them cut short; returns their cost."""
        spent, cut = 0, []
        with core.coarsely():
            for _ in range(n):
                if spent >= cap:
                    break
                spent += 20
                try:
                    fn, args, kw = catalog.prepare(env, different(rng, entry))
                except Exception:
                    continue
                if rng.random() < 0.03 and entry != "reg":
                    cut.append((fn, args, kw))
                    continue
                steps = core.run_alone(fn, args, kw, 300_000)[2]
                spent += steps
                res.steps += steps
                res.ops += 1
        for fn, args, kw in cut:
            sim = core.Sim()
            stop = (rng.randint(1, 300), ["raise", rng.choice(FAULTS)])
            sim.spawn(lambda t: t.call(0, [stop], fn, args, kw, 3_000_000))
            core.ACTIVE[0] = sim
            sim.run()
            core.ACTIVE[0] = None
            core._cur = None
            for k, c in sim.faults.items():
                res.faults[k] = res.faults.get(k, 0) + c
        return spent


def kinds():
    """What soaks are about: besides the usual, everything that reaches a difference."""
    return GROWTH + [e for e in ENTRIES if e in aim.WEIGHTS and e not in GROWTH]


def different(rng, entry):
    """A call unlike all earlier ones."""
    v = round(rng.uniform(1, 1000), 6)
    if entry == "iconv":
        cls = rng.choice(["Length", "Temperature", "Pressure", "Mass"])
        us = catalog.CLASS_UNITS[cls]
        return ["iconv", catalog.U(cls, v, rng.choice(us)), rng.choice(us)]
    if entry == "reg":
        return ["reg", rng.choice(["smoot", "other", "third"]), "m", "times07", "over07"]
    if entry == "utility.get_water_properties":
        t = round(rng.uniform(276, 1344) if rng.random() < 0.5 else rng.choice([rng.uniform(-400, 275), rng.uniform(1346, 3000)]), 6)
        return ["call", entry, [t if rng.random() < 0.6 else catalog.U("Temperature", t, rng.choice(["K", "C", "F", "R"]))]]
    if entry == "reactions.balance_equation":
        return ["call", entry, [rng.choice([catalog.equation(rng), f"C{rng.randint(1, 99)}H{rng.randint(1, 99)} + O2 -> CO2 + H2O"])]]
    if entry == "help:parse_units":
        return ["static", "parse_units", [f"m^{v}*kg/s^{rng.randint(1, 9)}"]]
    if entry == "make" and rng.random() < 0.5:
        return ["make", catalog.M("MultiUnit", v, f"m^{v}/s^{rng.randint(1, 9)}")]
    if entry in ("conv:M", "help:get_unit_string") and rng.random() < 0.5:
        e = round(rng.uniform(1, 3), 4)
        return ["conv", catalog.M("MultiUnit", v, f"m^{e}/s"), f"ft^{e}/hr"] if entry == "conv:M" else ["meth", catalog.M("MultiUnit", v, f"m^{e}/s"), "get_unit_string", []]
    op = catalog.make_op(rng, entry)
    spoilt = rng.random() < 0.2               # a call that is refused, unlike earlier ones too
    if op[0] == "conv" and spoilt:
        return op[:2] + [f"{op[2]}{rng.choice(['q', '^', '/q', '*q'])}{v}"]

    varied = op[0] == "bin" and rng.random() < 0.5       # units unlike earlier ones

    def fresh(r):
        if spoilt and rng.random() < 0.3:
            if isinstance(r, str):
                return f"{r}{v}"
            if isinstance(r, list) and r and r[0] == "M":
                return r[:3] + [f"{r[3]}/q{v}"]
            if isinstance(r, list) and r and r[0] == "U":
                return [r[0], r[1], r[2], f"{r[3]}{v}"] + r[4:]
        if isinstance(r, list) and r and r[0] in catalog.QUANT and isinstance(r[2], (int, float)):
            q = list(r)
            q[2] = v if rng.random() < 0.7 else q[2]
            if q[0] == "M" and varied and rng.random() < 0.7:
                q[3] = f"mol^{round(rng.uniform(0.5, 3), 4)}*{q[3]}"
            if q[0] == "U" and len(q) > 4 and rng.random() < 0.5:
                q[4] = round(rng.uniform(0.5, 3), 4)
            return q
        if isinstance(r, float) and rng.random() < 0.5:
            return r * rng.uniform(0.9, 1.1)
        if isinstance(r, list):
            keep = 1 if r and isinstance(r[0], str) and r[0] in TAGS else 0
            return r[:keep] + [fresh(y) for y in r[keep:]]
        return r
    keep = 2 if isinstance(op[1], str) else 1
    return op[:keep] + [fresh(x) for x in op[keep:]]


PROP = C26()
