"""One lane of a check: runs its share of seeds and reports as JSON lines."""
import faulthandler
import gc
import hashlib
import importlib
import json
import os
import random
import sys
import traceback

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, VERIF)
sys.dont_write_bytecode = True

from sim import aim, catalog, core, loader, seams          # noqa: E402
from sim.engine import Ctx                            # noqa: E402
from sim.oracle import Oracle                         # noqa: E402

LANES = 8


def derive(prop, seed, index):
    h = hashlib.sha256(f"{prop}:{seed}:{index}".encode()).hexdigest()
    return random.Random(int(h, 16))


def load_prop(pid):
    return importlib.import_module("props." + pid.lower()).PROP


def make_ctx():
    import numpy  # noqa: F401
    lib = loader.Library()
    lib.install()
    seams.install()
    lib.new()                       # warms every outside import once
    core.install(lib, [c for code in [catalog.USER_CODE, catalog._reenter.__code__] + [f.__code__ for f in catalog.USER_FUNCS.values()]
                       for c in loader.walk_code(code)])
    aim.install(lib)
    gc.collect()
    gc.freeze()
    gc.disable()                    # collections happen only where a plan says so
    return Ctx(lib, Oracle(lib))


def record(prop, plan, v, index):
    return dict(property=prop.id, index=index, hashseed=int(os.environ.get("PYTHONHASHSEED", "0") or 0),
                what=v["kind"], sig=v["sig"], detail=v["detail"], plan=plan)


def lane_main(pid, tier, seed, lane, total, out_path, wall):
    prop = load_prop(pid)
    ctx = make_ctx()
    prop.setup(ctx)
    aim.profile(ctx.oracle)
    t0 = seams.REAL["monotonic"]()
    out = open(out_path, "w")

    def emit(kind, /, **kw):
        out.write(json.dumps(dict(kw, kind=kind)) + "\n")
        out.flush()

    agg = dict(runs=0, ops=0, steps=0, switches=0, nontrivial=0, sim_time=0.0, stats={}, faults={}, labels={})
    sigs = set()
    samples = []
    bad = {}
    truncated = False
    for index in range(lane, total, LANES):
        if seams.REAL["monotonic"]() - t0 > wall:
            truncated = True
            break
        rng = derive(pid, seed, index)
        faulthandler.dump_traceback_later(300, exit=True, file=seams.REAL["stderr"])
        try:
            plan = prop.generate(ctx, rng, index)
            if plan is None:
                agg["stats"]["no_plan"] = agg["stats"].get("no_plan", 0) + 1
                continue
            res = prop.execute(ctx, plan)
        except Exception:
            emit("error", index=index, error=traceback.format_exc())
            faulthandler.cancel_dump_traceback_later()
            break
        faulthandler.cancel_dump_traceback_later()
        agg["runs"] += 1
        agg["ops"] += res.ops
        agg["steps"] += res.steps
        agg["switches"] += res.switches
        agg["sim_time"] += res.sim_time
        for k, n in res.stats.items():
            agg["stats"][k] = agg["stats"].get(k, 0) + n
        for k, n in res.faults.items():
            agg["faults"][k] = agg["faults"].get(k, 0) + n
        lab = plan.get("label")
        if lab:
            agg["labels"][lab] = agg["labels"].get(lab, 0) + 1
        if res.nontrivial:
            agg["nontrivial"] += 1
            sigs.add(f"{lab}|{res.sig:08x}")
            if len(samples) < 2:
                samples.append(dict(index=index, label=lab, threads=[[o["op"] for o in th] for th in plan.get("threads", [])][:3],
                                    events=[list(map(str, e)) for e in res.log[:6]], note=plan.get("note")))
        stop = False
        for v in res.violations:
            if v["sig"] not in bad:
                bad[v["sig"]] = True
                emit("violation", **record(prop, plan, v, index))
                if len(bad) >= 3:
                    stop = True
        if agg["runs"] % 64 == 0:
            gc.collect()
        if stop:
            break
    emit("summary", lane=lane, agg=agg, sigs=sorted(sigs), samples=samples, truncated=truncated,
         oracle=ctx.oracle.evaluations, wall=seams.REAL["monotonic"]() - t0)
    out.close()


# ------------------------------------------------------------------ replay
def run_plan(prop, ctx, plan):
    return prop.execute(ctx, plan)


def violates(prop, ctx, plan, kind):
    try:
        res = run_plan(prop, ctx, plan)
    except Exception:
        return None
    for v in res.violations:
        if v["kind"] == kind:
            return v
    return None


def minimise(prop, ctx, plan, kind, budget=45.0, tries=600):
    """Greedy ddmin over stops, operations and prop-specific lists."""
    t0 = seams.REAL["monotonic"]()
    used = [0]

    def ok(p):
        if used[0] >= tries or seams.REAL["monotonic"]() - t0 > budget:
            return False
        used[0] += 1
        return violates(prop, ctx, p, kind) is not None

    def get(p, path):
        for k in path:
            p = p[k]
        return p

    def with_list(p, path, new):
        q = json.loads(json.dumps(p))
        get(q, path[:-1])[path[-1]] = new
        return q

    changed = True
    while changed:
        changed = False
        for path in prop.shrinkable(plan):
            items = get(plan, path)
            n = max(1, len(items) // 2)
            while n >= 1 and items:
                i = 0
                while i < len(items):
                    cand = items[:i] + items[i + n:]
                    q = with_list(plan, path, cand)
                    if ok(q):
                        plan, items, changed = q, cand, True
                    else:
                        i += n
                n //= 2
        if used[0] >= tries or seams.REAL["monotonic"]() - t0 > budget:
            break
    # blank out pool entries nothing refers to
    if plan.get("pool"):
        refs = set()
        for th in plan.get("threads", []):
            for o in th:
                refs |= catalog.pool_refs(o["op"])
        q = json.loads(json.dumps(plan))
        q["pool"] = [r if i in refs else None for i, r in enumerate(plan["pool"])]
        if ok(q):
            plan = q
    return plan, used[0]


def say(v):
    print(json.dumps(dict(reproduced=v is not None, detail=v and v["detail"])), file=seams.REAL["stdout"], flush=True)


def main(argv):
    mode = argv[0]
    if mode == "lane":
        pid, tier, seed, lane, total, out_path, wall = argv[1:]
        lane_main(pid, tier, int(seed), int(lane), int(total), out_path, float(wall))
    elif mode == "minimise":
        src, dst = argv[1:]
        rec = json.load(open(src))
        prop = load_prop(rec["property"])
        ctx = make_ctx()
        prop.setup(ctx)
        v = violates(prop, ctx, rec["plan"], rec["what"])
        if v is None:
            json.dump(dict(rec, reproduced=False), open(dst, "w"))
            return
        plan, n = minimise(prop, ctx, rec["plan"], rec["what"])
        res = run_plan(prop, ctx, plan)
        v = next(x for x in res.violations if x["kind"] == rec["what"])
        json.dump(dict(rec, plan=plan, detail=v["detail"], sig=v["sig"], executions=n, reproduced=True,
                       log=[list(map(str, e)) for e in res.log[:40]]), open(dst, "w"), indent=1)
    elif mode == "batch":
        # re-run a lane's seeds in order up to the violating one
        rec = json.load(open(argv[1]))
        prop = load_prop(rec["property"])
        ctx = make_ctx()
        prop.setup(ctx)
        aim.profile(ctx.oracle)
        hit = None
        for index in range(rec["index"] % LANES, rec["index"] + 1, LANES):
            rng = derive(rec["property"], rec["seed"], index)
            plan = prop.generate(ctx, rng, index)
            if plan is None:
                continue
            res = prop.execute(ctx, plan)
            if index == rec["index"]:
                hit = next((v for v in res.violations if v["kind"] == rec["what"]), None)
        say(hit)
        sys.exit(1 if hit else 0)
    elif mode == "serve":
        # a helper process with another hash seed: answers operations for C04
        from sim import serve
        serve.main(make_ctx())
    elif mode == "replay":
        rec = json.load(open(argv[1]))
        prop = load_prop(rec["property"])
        ctx = make_ctx()
        prop.setup(ctx)
        v = violates(prop, ctx, rec["plan"], rec["what"])
        say(v)
        sys.exit(1 if v else 0)


if __name__ == "__main__":
    try:
        main(sys.argv[1:])
    except Exception:
        print(traceback.format_exc(), file=seams.REAL["stderr"], flush=True)
        os._exit(4)
