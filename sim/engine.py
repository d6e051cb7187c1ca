"""Runs a plan: callers (threads) x operations x stops over a shared pool."""
import gc

from . import catalog, core, loader, seams
from .observe import canon, outcome, show


class Ctx:
    """Per-process context handed to the properties."""

    def __init__(self, lib, oracle):
        self.lib = lib
        self.oracle = oracle


class Result:
    def __init__(self):
        self.violations = []
        self.stats = {}
        self.faults = {}
        self.sig = 0
        self.steps = 0
        self.switches = 0
        self.ops = 0
        self.log = []
        self.nontrivial = False
        self.sim_time = 0.0

    def count(self, name, n=1):
        self.stats[name] = self.stats.get(name, 0) + n

    def violate(self, kind, sig, detail, **extra):
        self.violations.append(dict(kind=kind, sig=sig, detail=detail, **extra))


def stops_by_op(plan):
    out = {}
    for s in plan.get("stops", ()):
        out.setdefault(s["op"], []).append((s["step"], s["act"]))
    return out


class Runner:
    """One execution.  Subclass hooks: started, look, op_done, finished."""

    def __init__(self, ctx, plan):
        self.ctx = ctx
        self.plan = plan
        self.res = Result()
        self.stops = stops_by_op(plan)

    # hooks ---------------------------------------------------------------
    def started(self):
        pass

    def look(self, why, thread):
        pass

    def op_done(self, thread, opid, op, value, exc, fired):
        pass

    def finished(self):
        pass

    def cap(self, opid):
        return core.NEVER

    def custom(self, thread, act, where):
        raise RuntimeError(act)

    # ----------------------------------------------------------------------
    def run(self):
        plan, ctx, res = self.plan, self.ctx, self.res
        loader.HEAP[0] = loader.SimHeap(plan.get("heap", "lifo"))
        seams.CLOCK.reset()
        self.inst = ctx.lib.new(plan.get("imports"))
        self.env = catalog.Env(self.inst, userfuncs=self.userfuncs())
        self.env.pool = {}
        for i, r in enumerate(plan.get("pool", ())):
            try:
                self.env.pool[i] = catalog.build(self.env, r)
            except Exception:
                pass                      # ops that use it are skipped
        self.sim = core.Sim(observer=self.look, custom=self.custom)
        core.ACTIVE[0] = self.sim
        self.started()
        self.results = []
        for ops in plan["threads"]:
            results = {}
            self.results.append(results)
            self.sim.spawn(lambda t, ops=ops, results=results: self._body(t, ops, results))
        try:
            self.sim.run(plan.get("first", 0))
        finally:
            core.ACTIVE[0] = None
            core._cur = None
        self.finished()
        sim = self.sim
        res.faults = sim.faults
        res.sig = sim.sig
        res.switches = sim.switches
        res.log = sim.log
        res.sim_time = seams.CLOCK.now - 1_700_000_000.0
        return res

    def userfuncs(self):
        return None

    def _body(self, t, ops, results):
        env = catalog.Env(self.inst, self.env.pool, results, self.env.userfuncs)
        for item in ops:
            opid, op = item["id"], item["op"]
            try:
                fn, args, kw = catalog.prepare(env, op)
            except (catalog.Skip, catalog.Missing):
                self.res.count("skipped_ops")
                continue
            except Exception:
                self.res.count("unbuildable_operands")
                continue
            self.before_op(t, opid, op)
            value, exc = t.call(opid, self.stops.get(opid, ()), fn, args, kw, self.cap(opid))
            self.res.steps += t.step
            self.res.ops += 1
            if exc is None:
                results[opid] = value
            self.op_done(t, opid, op, value, exc, t.fault_fired)

    def before_op(self, t, opid, op):
        pass


def snap(env, extra=()):
    """Canonical state of every shared object and constant."""
    out = {i: canon(v) for i, v in env.pool.items()}
    for name in catalog.CONSTANTS:
        try:
            out[name] = canon(env.inst.get("utility.constants." + name))
        except loader.Missing:
            pass
    return out


def diff(a, b):
    for k in a:
        if a[k] != b.get(k):
            return k, a[k], b.get(k)
    return None
