"""C03: an answer does not depend on what a worker computed before."""
import heapq
import pickle
import zlib

from sim import aim, catalog, core, loader, sched, seams
from sim.catalog import ENTRIES
from sim.engine import Result
from sim.observe import outcome, show
from sim.prop import Prop

from .common import bound

T0 = 1_700_000_000.0


def chained(rng, op, earlier):
    """Sometimes feeds an earlier result into an operation."""
    if not earlier or rng.random() > 0.15:
        return op
    r = ["R", rng.choice(earlier)]
    c = rng.random()
    if c < 0.3:
        return ["bin", rng.choice(["mul", "div", "add", "sub", "eq"]), r, rng.choice([r, 2, 0.5])]
    if c < 0.5:
        return ["un", rng.choice(["repr", "neg", "deepcopy"]), r]
    if c < 0.7:
        return ["bin", "mul", r, catalog.mut_q(rng, rng.choice(catalog.QUANTITIES))]
    if c < 0.85:
        return ["bin", "div", catalog.mut_q(rng, rng.choice(catalog.MULTIS)), r]
    return ["bin", "pow", r, rng.choice([2, 0.5, -1])]


class C03(Prop):
    id = "C03"
    runs = {"quick": 1600, "thorough": 40000}
    technique = "simulated long-lived workers and a faulty task queue (pickled tasks; loss, duplication, delay, reordering, time-outs, crashes) over isolated library instances"
    level_note = "Seeded histories and fault sequences; each answer compared bit-exactly with a fresh process's; delivery checked once faults stop."
    rule = "a run counts if a worker served at least two tasks; distinct by catalogue entry and sequence of (worker, operation, fault)"
    measure = "CRC of the sequence of served operations (histories) or of (worker, operation, queue fault) events (farms), per catalogue entry"
    simulated = Prop.simulated + ("task queue and result channel", "worker crash and restart", "task time-out")
    assumptions = ("a worker is one library instance; a crash discards it and a fresh one takes over",
                   "the client retries an unanswered task after a time-out, to any worker")

    # ------------------------------------------------------------- plans
    def generate(self, ctx, rng, index):
        kind = "farm" if index % 3 == 2 else "history"
        nth = index // 3 * 2 + index % 3 if kind == "history" else index // 3
        entry = aim.entry(ENTRIES, nth, rng)
        plan = dict(label=entry, note=kind, pool=[], tasks=[], heap=rng.choice(["lifo", "fifo", "fresh"]))
        ids = sched.Ids()
        pool = plan["pool"]
        themes = [entry] + [rng.choice(sched.CHEAP) for _ in range(rng.randint(0, 3))]
        bases = [aim.op(lambda: catalog.make_op(rng, t), ctx.oracle, nth if t is entry else 0) for t in themes]
        probe = ctx.oracle.expected(bases[0], pool, trace=False)
        if probe.hung or probe.outcome[0] not in ("ok", "raise"):
            return None
        n = max(4, min(rng.randint(8, 40), 500_000 // (probe.steps + 2000)))
        if kind == "farm":
            n = max(3, min(n, rng.randint(4, 10)))
        earlier, seen, spent = [], [], 0
        fill = kind == "history" and rng.random() < 0.12
        while len(plan["tasks"]) < n and spent < 600_000:
            i = 0 if rng.random() < 0.5 else rng.randrange(len(themes))
            c = rng.random()
            if c < 0.25 and seen:
                op = rng.choice(seen)                      # asked again
            else:
                if c < 0.65:
                    raw = sched.vary(rng, bases[i])
                elif c < 0.8:
                    raw = bases[i]
                else:
                    raw = catalog.make_op(rng, themes[i])
                op = catalog.poolify(rng, raw, pool, 0.3, 0.6)
                op = chained(rng, op, earlier)
            by_id = {o["id"]: o["op"] for o in plan["tasks"]}
            exp = ctx.oracle.expected(catalog.inline(op, by_id), pool, trace=False)
            if exp.hung or exp.outcome[0] not in ("ok", "raise"):
                spent += 3000
                continue
            spent += exp.steps
            o = ids(op)
            plan["tasks"].append(o)
            if not catalog.result_refs(op):
                seen.append(op)
                if exp.outcome[0] == "ok" and exp.outcome[1][0] in ("U", "M"):
                    earlier.append(o["id"])
        if fill:
            # very long history: unjudged filler calls before the last probes
            where = rng.randrange(1, len(plan["tasks"]) + 1)
            plan["filler"] = {"at": plan["tasks"][where - 1]["id"], "n": rng.choice([40, 140, 300, 600]),
                              "entry": rng.choice([entry, "conv:U", "conv:M", "bin:mul", "make", "utility.get_water_properties", "bin:div"]),
                              "seed": rng.randrange(1 << 30)}
            if ctx.oracle.expected(bases[0], pool, trace=False).steps > 60000 and plan["filler"]["entry"] == entry:
                plan["filler"]["entry"] = "conv:U"
        if kind == "farm":
            nw = rng.choice([1, 2, 2, 3])
            plan["workers"] = nw
            faults = []
            horizon = len(plan["tasks"]) * 3
            for _ in range(rng.randint(0, 8)):
                m = rng.randrange(horizon)
                k = rng.choice(["drop", "dup", "delay", "crash", "abort", "crash_after", "dup"])
                f = {"kind": k, "n": m}
                if k == "delay":
                    f["by"] = rng.choice([0.5, 2.0, 7.0, 30.0])
                if k in ("crash", "abort"):
                    f["frac"] = rng.random()
                    f["exc"] = rng.choice(["KeyboardInterrupt", "TimeoutError", "MemoryError", "SimAbort"])
                faults.append(f)
            plan["faults"] = faults
            plan["place"] = [rng.randrange(nw) for _ in range(40)]
        return plan

    def shrinkable(self, plan):
        return [(k,) for k in ("faults", "tasks") if plan.get(k)]

    # --------------------------------------------------------- execution
    def execute(self, ctx, plan):
        by_id = {o["id"]: o["op"] for o in plan["tasks"]}
        want = {}
        for o in plan["tasks"]:
            want[o["id"]] = ctx.oracle.expected(catalog.inline(o["op"], by_id), plan["pool"], trace=False)
        loader.HEAP[0] = loader.SimHeap(plan.get("heap", "lifo"))
        seams.CLOCK.reset(T0)
        res = Result()
        if plan.get("workers"):
            Farm(ctx, plan, want, res).run()
        else:
            self.history(ctx, plan, want, res)
        res.sim_time = max(res.sim_time, seams.CLOCK.now - T0)
        return res

    def judge(self, res, op, exp, got, where):
        res.count("answers_compared")
        if got != exp.outcome:
            res.violate("answer", f"{catalog.label(op)}|{where}", f"{op} on {where}: fresh process {show(exp.outcome)}, here {show(got)}")

    def history(self, ctx, plan, want, res):
        inst = ctx.lib.new()
        pool = build_pool(inst, plan["pool"])
        env = catalog.Env(inst, pool, {})
        fill = plan.get("filler")
        for o in plan["tasks"]:
            exp = want[o["id"]]
            if exp.hung or exp.outcome[0] not in ("ok", "raise"):
                continue
            try:
                fn, args, kw = catalog.prepare(env, o["op"])
            except (catalog.Skip, catalog.Missing):
                res.count("skipped_ops")
                continue
            except Exception as e:
                res.violate("answer", f"{catalog.label(o['op'])}|operand", f"{o['op']}: an operand that a fresh process builds fails with {type(e).__name__} here")
                return
            value, exc, steps, _t, hung = core.run_alone(fn, args, kw, bound(exp))
            res.steps += steps
            res.ops += 1
            res.sig = zlib.crc32(repr(o["op"]).encode(), res.sig)
            if hung:
                res.violate("hang", f"{catalog.label(o['op'])}|hang", f"{o['op']} does not finish after this history")
                return
            if exc is None:
                env.results[o["id"]] = value
            self.judge(res, o["op"], exp, outcome(value, exc), f"a worker with {res.ops - 1} earlier calls")
            if res.violations:
                return
            if fill and fill["at"] == o["id"]:
                self.filler(env, fill, res)
        res.nontrivial = res.ops > 1

    def filler(self, env, fill, res):
        import random
        rng = random.Random(fill["seed"])
        base = catalog.make_op(rng, fill["entry"])
        with core.coarsely():
            for _ in range(fill["n"]):
                op = sched.vary(rng, base) if rng.random() < 0.5 else catalog.make_op(rng, fill["entry"])
                try:
                    fn, args, kw = catalog.prepare(env, op)
                    core.run_alone(fn, args, kw, 300_000)
                except Exception:
                    pass
                res.count("filler_calls")


def build_pool(inst, recipes):
    env = catalog.Env(inst)
    pool = {}
    for i, r in enumerate(recipes):
        try:
            pool[i] = catalog.build(env, r)
        except Exception:
            pass
    return pool


class Farm:
    """Client, queue, workers: a discrete-event simulation on the simulated clock."""

    TIMEOUT = 10.0

    def __init__(self, ctx, plan, want, res):
        self.ctx, self.plan, self.want, self.res = ctx, plan, want, res
        self.heap = []
        self.seq = 0
        self.msg = 0
        self.execs = 0
        self.drop = self.index("drop")
        self.dup = self.index("dup")
        self.delay = self.index("delay")
        self.crash = self.index("crash")
        self.abort = self.index("abort")
        self.crash_after = self.index("crash_after")
        self.answered = {}
        self.tries = {}

    def index(self, kind):
        return {f["n"]: f for f in self.plan.get("faults", ()) if f["kind"] == kind}

    def at(self, dt, what, *args):
        self.seq += 1
        heapq.heappush(self.heap, (seams.CLOCK.now + dt, self.seq, what, args))

    def note(self, *what):
        self.res.log.append(what)
        self.res.sig = zlib.crc32(repr(what).encode(), self.res.sig)

    def fault(self, kind):
        self.res.faults[kind] = self.res.faults.get(kind, 0) + 1

    def send(self, deliver, *args):
        n = self.msg
        self.msg += 1
        if n in self.drop:
            self.fault("drop")
            self.note("drop", n)
            return
        d = 0.01
        if n in self.delay:
            self.fault("delay")
            d += self.delay[n].get("by", 1.0)
        self.at(d, deliver, *args)
        if n in self.dup:
            self.fault("dup")
            self.note("dup", n)
            self.at(d + 0.5, deliver, *args)

    def run(self):
        ctx, plan = self.ctx, self.plan
        self.client = ctx.lib.new()
        self.cenv = catalog.Env(self.client, build_pool(self.client, plan["pool"]), {})
        self.workers = [ctx.lib.new() for _ in range(plan["workers"])]
        self.by_id = {o["id"]: o["op"] for o in plan["tasks"]}
        for o in plan["tasks"]:
            self.at(0.0, self.submit, o["id"])
        while self.heap and not self.res.violations:
            when, _s, what, args = heapq.heappop(self.heap)
            seams.CLOCK.now = max(seams.CLOCK.now, when)
            what(*args)
        if not self.res.violations:
            for o in plan["tasks"]:
                if o["id"] not in self.answered and self.tries.get(o["id"], 0) > 0:
                    self.res.violate("liveness", f"{catalog.label(o['op'])}|unanswered", f"{o['op']} is never answered although faults stopped")
                    break
        self.res.sim_time = seams.CLOCK.now - T0
        self.res.nontrivial = self.res.ops > 1

    def submit(self, tid):
        if tid in self.answered:
            return
        exp = self.want[tid]
        op = self.by_id[tid]
        if exp.hung or exp.outcome[0] not in ("ok", "raise"):
            return
        for r in catalog.result_refs(op):
            if r not in self.by_id or self.want[r].outcome[0] != "ok":
                return
            if r not in self.cenv.results:
                self.at(1.0, self.submit, tid)
                self.tries[tid] = self.tries.get(tid, 0)
                if self.tries[tid] > 200:
                    return
                return
        n = self.tries[tid] = self.tries.get(tid, 0) + 1
        if n > 40:
            return
        self.ctx.lib.activate(self.client)
        try:
            blob = pickle.dumps((op, {i: self.cenv.pool[i] for i in catalog.pool_refs(op) if i in self.cenv.pool},
                                 {i: self.cenv.results[i] for i in catalog.result_refs(op)}))
        except Exception as e:
            self.res.violate("transport", f"{catalog.label(op)}|pickle", f"the arguments of {op} cannot be sent: {type(e).__name__}: {e}")
            return
        place = self.plan["place"]
        w = place[(tid + n) % len(place)] % len(self.workers)
        self.send(self.serve, w, tid, blob)
        self.at(self.TIMEOUT * n, self.submit, tid)

    def serve(self, w, tid, blob):
        ctx, op, exp = self.ctx, self.by_id[tid], self.want[tid]
        inst = self.workers[w]
        ctx.lib.activate(inst)
        n = self.execs
        self.execs += 1
        self.note("serve", w, catalog.label(op))
        seams.CLOCK.now += 0.05
        try:
            op, pool, results = pickle.loads(blob)
            fn, args, kw = catalog.prepare(catalog.Env(inst, pool, results), op)
        except (catalog.Skip, catalog.Missing):
            self.answered[tid] = None
            return
        except Exception as e:
            self.res.violate("transport", f"{catalog.label(op)}|unpickle", f"{op} cannot be read by a worker: {type(e).__name__}: {e}")
            return
        cut = self.crash.get(n) or self.abort.get(n)
        if cut is not None:
            sim = core.Sim()
            step = max(1, int(exp.steps * cut["frac"]))
            out = []
            sim.spawn(lambda t: out.append(t.call(0, [(step, ["raise", cut["exc"]])], fn, args, kw, bound(exp))))
            core.ACTIVE[0] = sim
            sim.run()
            core.ACTIVE[0] = None
            self.fault("crash" if n in self.crash else "abort")
            self.note("cut", w, step)
            if n in self.crash:
                self.workers[w] = ctx.lib.new()
            return                      # no answer; the client will try again
        value, exc, steps, _t, hung = core.run_alone(fn, args, kw, bound(exp))
        self.res.steps += steps
        self.res.ops += 1
        if hung:
            self.res.violate("hang", f"{catalog.label(op)}|hang", f"{op} does not finish on worker {w}")
            return
        got = outcome(value, exc)
        C03.judge(PROP, self.res, op, exp, got, f"worker {w}")
        if self.res.violations:
            return
        try:
            reply = pickle.dumps((exc is None, value if exc is None else type(exc).__name__))
        except Exception as e:
            self.res.violate("transport", f"{catalog.label(op)}|reply", f"the answer to {op} cannot be sent: {type(e).__name__}: {e}")
            return
        if n in self.crash_after:
            self.fault("crash")
            self.workers[w] = ctx.lib.new()
        self.send(self.reply, tid, reply)

    def reply(self, tid, blob):
        self.ctx.lib.activate(self.client)
        op, exp = self.by_id[tid], self.want[tid]
        try:
            ok, value = pickle.loads(blob)
        except Exception as e:
            self.res.violate("transport", f"{catalog.label(op)}|reply", f"the answer to {op} cannot be read: {type(e).__name__}: {e}")
            return
        got = outcome(value, None) if ok else ["raise", value]
        C03.judge(PROP, self.res, op, exp, got, "the client")
        if tid in self.answered:
            self.res.count("duplicate_answers")
        self.answered[tid] = got
        if ok:
            self.cenv.results.setdefault(tid, value)


PROP = C03()
