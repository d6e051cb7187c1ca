"""What a lone caller in a fresh process gets for an operation."""
import json

from . import aim, core, catalog, loader, seams, serve
from .observe import canon, outcome

STEP_CAP = 3_000_000


class Expected:
    """outcome, number of steps, and the steps worth stopping at."""
    __slots__ = ("outcome", "steps", "hung", "points", "stores", "text", "touched", "hot", "where")

    def __init__(self, out, steps=0, hung=False, trace=None):
        self.outcome = out
        self.steps = steps
        self.hung = hung
        self.text = None
        self.touched = ()
        # first and last step at each distinct location the call passed through
        trace = trace or []
        n = len(trace)
        last = dict(zip(trace, range(1, n + 1)))
        first = dict(zip(reversed(trace), range(n, 0, -1)))
        self.points = sorted(set(first.values()) | set(last.values()))
        # of those, the ones next to a write that others could see
        self.stores = sorted({x[loc] for x in (first, last) for loc in x if core.is_store(loc)})
        # or inside code that is not as recorded, if there is any
        self.where = frozenset(loc for loc in first if loc in aim.HOT) if aim.HOT else frozenset()
        self.hot = sorted({x[loc] for x in (first, last) for loc in self.where})
        if self.hot:
            between = [s for s in self.points if self.hot[0] < s < self.hot[-1]]
            self.stores = sorted(set(self.hot + between[::max(1, len(between) // len(self.hot))]))


class Oracle:
    def __init__(self, lib):
        self.lib = lib
        self.memo = {}
        self.evaluations = 0

    def expected(self, op, pool, trace=True, userfuncs=None, with_text=False, setup=()):
        used = {i: pool[i] for i in sorted(catalog.pool_refs(op))}
        key = json.dumps([op, used, trace, with_text, setup], sort_keys=True)
        hit = self.memo.get(key)
        if hit is not None:
            return hit
        self.evaluations += 1
        loader.HEAP[0] = loader.SimHeap()
        inst = self.lib.new()
        env = catalog.Env(inst, userfuncs=userfuncs)
        envs = [env]
        if '"re:' in key:
            # what a user's function asks of the library is answered by another instance
            env.apart = catalog.Env(self.lib.new(), userfuncs=userfuncs)
            env.apart.apart = catalog.Env(self.lib.new(), userfuncs=userfuncs)
            envs = [env.apart.apart, env.apart, env]
        try:
            for e in envs:
                for s in setup:
                    fn, args, kw = catalog.prepare(e, s)
                    fn(*args, **kw)
            env.pool = {i: catalog.build(env, r) for i, r in used.items()}
            fn, args, kw = catalog.prepare(env, op)
        except (catalog.Skip, catalog.Missing) as e:
            res = Expected(["skip", str(e)])
        except Exception as e:
            # an operand cannot even be constructed: the operation is that failure
            res = Expected(["operand", type(e).__name__])
        else:
            seams.TOUCHED.clear()
            value, exc, steps, tr, hung = core.run_alone(fn, args, kw, STEP_CAP, trace)
            touched = tuple(sorted(seams.TOUCHED))
            res = Expected(outcome(value, exc), steps, hung, tr)
            res.touched = touched
            if with_text and exc is None and not hung:
                res.text = serve.text(value)
        if len(self.memo) > 20000:
            self.memo.clear()
        self.memo[key] = res
        return res
