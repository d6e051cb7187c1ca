"""Plans of several callers over shared, read-only quantities."""
import json

from sim import aim, catalog, core, loader, sched
from sim.catalog import ENTRIES
from sim.observe import canon, outcome
from sim.oracle import STEP_CAP, Expected
from sim.serve import text

BUDGET = 160_000        # steps of library code a run may plan for


def concurrent_plan(ctx, rng, index, after=True):
    entry = aim.entry(ENTRIES, index, rng)
    ids = sched.Ids()
    plan = dict(label=entry, pool=[], threads=[[], []], stops=[], first=0, heap=rng.choice(["lifo", "fifo", "fresh"]))
    pool = plan["pool"]
    share = rng.choice([0.3, 0.7, 0.95])
    spent = 0

    def add(tid, op):
        nonlocal spent
        op = catalog.poolify(rng, op, pool, share)
        exp = ctx.oracle.expected(op, pool)
        if exp.hung or exp.outcome[0] in ("skip", "operand"):
            return None
        spent += exp.steps
        plan["threads"][tid].append(ids(op))
        return exp

    base = aim.op(lambda: catalog.make_op(rng, entry), ctx.oracle, index)
    exp = add(0, base)
    if exp is None:
        return None
    limit = sched.room(BUDGET, exp)
    strategy = rng.choice(["race", "race", "race", "scatter", "pingpong"])
    na = rng.randint(1, 3)
    for _ in range(na - 1):
        if spent < limit / 4:
            add(0, sched.companion(rng, entry, base, 0.8))
    for _ in range(rng.randint(2, 8) if strategy == "race" else rng.randint(1, 3)):
        if spent < limit:
            add(1, sched.companion(rng, entry, base))
    if not plan["threads"][1]:
        add(1, catalog.make_op(rng, "bin:mul"))
    if rng.random() < 0.25 and spent < limit:
        plan["threads"].append([])
        for _ in range(rng.randint(1, 3)):
            add(2, sched.companion(rng, entry, base))
    if strategy == "race":
        sched.races(rng, ctx, plan, 0, 1)
        if len(plan["threads"]) > 2:
            for o in plan["threads"][2]:
                exp = ctx.oracle.expected(o["op"], pool)
                for s in sched.pick_points(rng, exp, 2):
                    plan["stops"].append({"op": o["id"], "step": s, "act": ["switch"]})
    elif strategy == "scatter":
        sched.scatter(rng, ctx, plan)
    else:
        sched.pingpong(rng, ctx, plan)
    plan["note"] = strategy
    if after:
        plan["after"] = []
        if rng.random() < 0.6:
            plan["after"].append(ids(plan["threads"][0][0]["op"]))
        if plan["threads"][1] and rng.random() < 0.4:
            plan["after"].append(ids(plan["threads"][1][-1]["op"]))
        if rng.random() < 0.5:
            op = catalog.poolify(rng, catalog.make_op(rng, rng.choice(sched.CHEAP)), pool, share)
            if ctx.oracle.expected(op, pool).outcome[0] in ("ok", "raise"):
                plan["after"].append(ids(op))
    return plan


def bound(exp):
    return exp.steps * 20 + 20000


class Conversions:
    """What a chain of in-place conversions of a new quantity does on a fresh instance.

    The chain is replayed from the start, so no object crosses instances."""

    def __init__(self, lib):
        self.lib = lib
        self.memo = {}

    def expected(self, setup, target, history, unit):
        """-> Step: state before, refusal (or None), state after, non-in-place answer."""
        key = json.dumps([setup, target, history, unit])
        hit = self.memo.get(key)
        if hit is not None:
            return hit
        loader.HEAP[0] = loader.SimHeap()
        env = catalog.Env(self.lib.new())
        out = Step()
        try:
            for op in setup:
                fn, args, kw = catalog.prepare(env, op)
                fn(*args, **kw)
            q = catalog.build(env, target)
            for u in history:
                catalog.iconv(q, u)
        except Exception as e:
            out.unusable = f"{type(e).__name__}: {e}"
        else:
            out.old = seen(q)
            value, exc, _s, _t, hung = core.run_alone(catalog.conv, (q, unit), None, STEP_CAP)
            out.answer = outcome(value, exc)
            if not hung and seen(q) == out.old:
                _v, exc, steps, trace, hung = core.run_alone(catalog.iconv, (q, unit), None, STEP_CAP, True)
                out.exp = Expected(outcome(None, exc), steps, hung, trace)
                out.refused = None if exc is None else type(exc).__name__
                out.new = seen(q)
            if hung:
                out.unusable = "does not finish"
        if len(self.memo) > 20000:
            self.memo.clear()
        self.memo[key] = out
        return out


class Step:
    unusable = old = new = answer = refused = exp = None


def seen(q):
    """Everything a user sees of a quantity at one instant."""
    return [canon(q), text(q)]
