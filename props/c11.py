"""C11: importing is safe in any order, concurrently and after a failure."""
import importlib
import sys
import types
import zlib

from sim import aim, catalog, core, imports, loader, sched, world
from sim.engine import Runner
from sim.observe import outcome, show
from sim.oracle import Expected
from sim.prop import Prop

from .c05 import FAULTS
from .c10 import brief, disturbance

PKG = loader.PKG
PACKAGES = [f"{PKG}.{s}" for s in loader.SUBPACKAGES]


class Base:
    """The library as imported undisturbed, in the usual order."""

    def __init__(self, ctx):
        self.ctx = ctx
        ctx.lib.new()
        self.modules = sorted(n for n in ctx.lib.sources if n in sys.modules or self.importable(n))
        self.names = {n: sorted(k for k, v in vars(sys.modules[n]).items() if not k.startswith("_") and not isinstance(v, types.ModuleType))
                      for n in self.modules if n in sys.modules}
        self.leaves = [n for n in self.modules if n in PACKAGES or not any(builds_on(s, n) for s in self.modules)]
        self.full = fingerprint(ctx)
        self.memo = {}

    @staticmethod
    def importable(n):
        try:
            importlib.import_module(n)
            return True
        except Exception:
            return False

    def expected(self, src):
        """-> (names the statement binds in an undisturbed process, steps of a first import)"""
        hit = self.memo.get(src)
        if hit is None:
            imports.forget()
            self.ctx.lib.new()
            try:
                names = imports.public(imports.run_import(src, imports.namespace()))
            except Exception as e:
                names = f"{type(e).__name__}: {e}"
            imports.forget()
            self.ctx.lib.new([])
            value, exc, steps, trace, hung = core.run_alone(imports.run_import, (src, imports.namespace()), None, 3_000_000, True)
            hit = self.memo[src] = (names, Expected(["ok"] if exc is None else ["raise", repr(exc)], steps, hung, trace))
        return hit


def builds_on(sibling, name):
    """One inner module uses what another inner module of the same sub-package defines."""
    if sibling == name or sibling in PACKAGES or sibling.rpartition(".")[0] != name.rpartition(".")[0]:
        return False
    mine = {id(v) for v in vars(sys.modules[name]).values() if getattr(v, "__module__", None) == name or isinstance(v, (dict, list))}
    return any(id(v) in mine for k, v in vars(sys.modules[sibling]).items() if k not in ("__builtins__", "__annotations__"))


def fingerprint(ctx):
    """Everything a user can reach, and some answers."""
    out = {}
    for n in PACKAGES:
        out[n] = imports.public(vars(sys.modules[n]))
    for n in sorted(sys.modules):
        if n.startswith(PKG + ".") and n not in out:
            out[n] = imports.public(vars(sys.modules[n]))
    out["twins"] = imports.twins()
    env = catalog.Env(loader.Instance(ctx.lib))
    out["answers"] = [answer(env, op) for op in imports.PROBES]
    return out


def answer(env, op):
    """What the library answers now; None if that part is not imported."""
    try:
        fn, args, kw = catalog.prepare(env, op)
        value, exc = fn(*args, **kw), None
    except catalog.Missing:
        return None
    except Exception as e:
        value, exc = None, e
    return outcome(value, exc)


def first_difference(a, b):
    for k in a:
        if k not in b:
            return f"{k} is missing"
        if a[k] != b[k]:
            if isinstance(a[k], dict):
                gone = sorted(set(a[k]) - set(b[k]))
                new = sorted(set(b[k]) - set(a[k]))
                other = [n for n in a[k] if n in b[k] and a[k][n] != b[k][n]]
                return f"{k}: missing {gone[:4]}, additional {new[:4]}, different {other[:4]}"
            return f"{k}: {str(b[k])[:200]} instead of {str(a[k])[:200]}"
    return None


class Run(Runner):
    def started(self):
        self.flying = {}
        self.kept = []
        self.base = world.shared()

    def cap(self, opid):
        return 2_000_000

    def bad(self, kind, text):
        if not self.res.violations:
            self.res.violate(kind, f"{kind}|{self.plan['label']}", text)

    def custom(self, t, act, where):
        if act[0] == "cut":
            if len(self.flying) == 1:
                t.fault_fired = act[1]
                self.sim.faults[act[1]] = self.sim.faults.get(act[1], 0) + 1
                t.pending = []
                t.stop_at = t.cap
                raise core.FAULT_KINDS[act[1]]("injected")
            self.res.count("cuts_not_made")
            return
        inside, t.in_call = t.in_call, False
        before, mine = world.shared(), world.personal()
        world.change(act)
        after, now = world.shared(), world.personal()
        for k in world.differences(before, after):
            self.base[k] = after[k]
        for k in world.differences(mine, now):
            t.own[k] = now[k]
        t.in_call = inside
        self.sim.faults[f"world: {act[0]}"] = self.sim.faults.get(f"world: {act[0]}", 0) + 1

    def before_op(self, t, opid, op):
        self.flying[opid] = op
        t.own = world.personal()
        t.in_call = True

    def op_done(self, t, opid, op, value, exc, fired):
        t.in_call = False
        del self.flying[opid]
        if fired:
            self.res.count("imports_cut_short")
        if op[0] != "imp":
            return
        src = op[1]
        said = [s for s in world.written() if s.startswith(("std", "os.write"))]
        if said:
            self.bad("prints", f"{src!r} prints to {said[0]}")
        mine = world.personal()
        for k in world.differences(t.own, mine):
            self.bad("settings", f"{src!r} changes {k}: {t.own[k]} -> {mine[k]}")
        if not self.flying:
            self.settings(src)
        if fired:
            return
        self.res.count("imports_judged")
        names, _exp = self.expects[src]
        if exc is not None:
            self.bad("fails", f"{src!r} fails: {type(exc).__name__}: {exc}")
            return
        got = imports.public(value)
        if got != names:
            self.bad("names", f"{src!r} binds other names than usual: {first_difference({'names': names}, {'names': got})}")
        changed = [k for k, v in imports.IDENTITY.items() if value.get(k) != v]
        if changed:
            self.bad("identity", f"{src!r} overwrites {changed[0]} of the importing module: {value.get(changed[0])!r}")
        self.kept.append((src, imports.objects(value)))

    def settings(self, what):
        self.res.count("settings_compared")
        now = world.shared()
        for k in world.differences(self.base, now):
            self.bad("settings", f"{what!r} changes {k}: {brief(self.base[k], now[k])}")

    def finished(self):
        for t in self.sim.threads:
            t.in_call = False
        if self.sim.hang is not None:
            self.bad("hang", f"import does not finish: {self.sim.hang}")
        elif self.sim.deadlock is not None:
            self.bad("hang", "importing callers wait for each other forever")
        else:
            if not self.res.stats.get("imports_cut_short"):
                self.answers(f"after {[o['op'][1] for th in self.plan['threads'] for o in th]}")
            self.again()
        self.res.nontrivial = True
        self.sim.sig = zlib.crc32(repr([[o["op"] for o in th] for th in self.plan["threads"]]).encode(), self.sim.sig)

    def answers(self, when):
        """What is imported answers as it does in a process that imported everything."""
        env = catalog.Env(loader.Instance(self.ctx.lib))
        for op, want in self.probes:
            got = answer(env, op)
            if got is None:
                self.res.count("answers_not_imported")
                continue
            self.res.count("answers_compared")
            if got != want:
                self.bad("answers", f"{when}, {op} gives {show(got)}; with everything imported {show(want)}")
                return

    def again(self):
        """Whatever happened, importing everything now gives the whole library."""
        try:
            for n in self.plan["finally"]:
                importlib.import_module(n)
        except Exception as e:
            self.bad("fails", f"importing {n} afterwards fails: {type(e).__name__}: {e}")
            return
        if not self.res.violations and self.plan["label"] != "part":
            self.answers("after everything is imported")
        now = fingerprint(self.ctx)
        d = first_difference({k: v for k, v in self.full.items() if k in now or k in PACKAGES}, now)
        if d is not None:
            self.bad("library", f"the library differs from the one usually imported: {d}")
        for src, objs in self.kept:
            for k, v in objs.items():
                home = sys.modules.get(v.__module__)
                there = getattr(home, v.__name__, None)
                if "." not in v.__qualname__ and isinstance(there, type(v)) and there is not v:
                    self.bad("twins", f"{src!r} gave a {k} that is not the library's {v.__module__}.{v.__name__} any more")
        self.res.count("libraries_compared")


class C11(Prop):
    id = "C11"
    runs = {"quick": 4000, "thorough": 80000}
    technique = "import statements of several callers under seeded bytecode-level schedules with the interpreter's module locks under the scheduler, imports cut short and retried, optional modules absent"
    level_note = "Seeded search over order, form, interleaving, abort point and world; the resulting library is compared with an undisturbed import."
    rule = "every run imports in its own order and counts; distinct by statements of each caller and sequence of (caller, action, location)"
    measure = "CRC of the import statements of every caller and the sequence (caller, action, source location) of everything that fired"
    simulated = Prop.simulated + ("waiting on the interpreter's module locks", "presence of optional modules", "standard streams", "environment", "working directory")
    assumptions = ("callers that import at the same time name sub-packages, or inner modules no other inner module builds on: Python resolves such knots by handing out unfinished modules",
                   "the interpreter's own import code is not interrupted or preempted half way",
                   "no import is cut short while another caller waits for it: Python lets the waiting caller go on with the remains",
                   "after an import was cut short the sub-packages are imported, not their inner modules: Python does not import the parent of a module that survived",
                   "warnings of the Python compiler about the source text are not the library's output")

    def setup(self, ctx):
        world.install()
        world.reset()
        imports.install()
        self.base = Base(ctx)

    def one(self, rng, modules):
        aimed = [m for m in self.aimed if m in modules or m in PACKAGES]
        if aimed and rng.random() < 0.4:
            return rng.choice(aimed)
        return rng.choice(PACKAGES if rng.random() < 0.5 else modules)

    def statement(self, rng, modules):
        b = self.base
        mod = self.one(rng, modules)
        form = rng.choice(["import", "as", "star", "star", "from", "from", "fromsub", "lib", "dunder"])
        names = b.names.get(mod, [])
        if form == "as":
            return f"import {mod} as m"
        if form == "star":
            return f"from {mod} import *"
        if form == "from" and names:
            return f"from {mod} import {', '.join(rng.sample(names, min(len(names), rng.randint(1, 3))))}"
        if form == "fromsub" and mod.count("."):
            return f"from {mod.rpartition('.')[0]} import {mod.rpartition('.')[2]}"
        if form == "lib":
            return f"import importlib; m = importlib.import_module({mod!r})"
        if form == "dunder":
            return f"m = __import__({mod!r}, fromlist=['*'])" if rng.random() < 0.5 else f"m = __import__({mod!r})"
        return f"import {mod}"

    def generate(self, ctx, rng, index):
        world.reset()
        self.aimed = sorted(aim.MODULES | {m.rpartition(".")[0] for m in aim.MODULES}) if index % 2 else []
        if index % 15 == 7 or self.aimed and index % 6 == 3:
            return self.part(ctx, rng, index)
        nt = rng.choice([1, 1, 2, 2, 3])
        fin = PACKAGES[:]
        if rng.random() < 0.7:
            rng.shuffle(fin)
        plan = dict(label=f"{nt} callers", pool=[], threads=[], stops=[], first=rng.randrange(nt), heap="lifo", imports=[], world=[])
        plan["finally"] = fin
        ids = sched.Ids()
        cut = rng.random() < 0.5
        modules = PACKAGES if cut else self.base.modules if nt == 1 else self.base.leaves
        for t in range(nt):
            th = []
            srcs = [self.statement(rng, modules) for _ in range(rng.randint(1, 4))]
            for src in srcs:
                o = ids(["imp", src])
                th.append(o)
                _names, exp = self.base.expected(src)
                if not exp.points:
                    continue
                if nt > 1:
                    for s in sched.pick_points(rng, exp, rng.randint(0, 4)):
                        plan["stops"].append({"op": o["id"], "step": s, "act": ["switch"]})
                if rng.random() < 0.15:
                    plan["stops"].append({"op": o["id"], "step": rng.choice(exp.points), "act": self.disturbance(rng)})
                if cut and rng.random() < 0.5:
                    pts = exp.hot if exp.hot and rng.random() < 0.4 else exp.points
                    plan["stops"].append({"op": o["id"], "step": rng.choice(pts), "act": ["cut", rng.choice(FAULTS)]})
                    if rng.random() < 0.7:
                        th.append(ids(["imp", src]))           # the same again
            plan["threads"].append(th)
        for _ in range(rng.choice([0, 0, 1, 2])):
            plan["world"].append(self.disturbance(rng))
        plan["probes"] = [rng.choice(imports.QUESTIONS) for _ in range(6)]
        plan["note"] = "; ".join(o["op"][1] for th in plan["threads"] for o in th)[:200]
        return plan

    def part(self, ctx, rng, index):
        """One caller imports a part of the library and asks many questions."""
        mods = [self.one(rng, self.base.modules) for _ in range(rng.choice([1, 1, 1, 2]))]
        ids = sched.Ids()
        fin = PACKAGES[:]
        rng.shuffle(fin)
        th = [ids(["imp", f"import {m}"]) for m in mods]
        plan = dict(label="part", pool=[], threads=[th], stops=[], first=0, heap="lifo", imports=[], world=[], note="; ".join(o["op"][1] for o in th))
        plan["finally"] = fin
        plan["probes"] = [rng.choice(imports.QUESTIONS) for _ in range(160)]
        if self.aimed and catalog.WORDS:
            more = [catalog.about(rng, rng.choice(catalog.WORDS)) for _ in range(20)]
            plan["probes"] += [op for op in more if not ctx.oracle.expected(op, []).hung]
        return plan

    @staticmethod
    def disturbance(rng):
        while True:
            d = disturbance(rng)
            if d[0] not in ("files", "path"):
                return d

    def execute(self, ctx, plan):
        world.reset()
        expects = {o["op"][1]: self.base.expected(o["op"][1]) for th in plan["threads"] for o in th}
        world.reset()
        env = catalog.Env(ctx.lib.new())
        probes = [(op, answer(env, op)) for op in plan["probes"]]
        world.reset()
        imports.forget()
        for act in plan["world"]:
            world.change(act)
        r = Run(ctx, plan)
        r.expects, r.full = expects, self.base.full
        r.probes = probes
        bad = next((s for s, (n, _e) in expects.items() if isinstance(n, str)), None)
        res = r.run()
        if bad is not None and not res.violations:
            res.violate("fails", "fails|alone", f"{bad!r} fails in an undisturbed process: {expects[bad][0]}")
        for act in plan["world"]:
            k = f"world: {act[0]}"
            res.faults[k] = res.faults.get(k, 0) + 1
        imports.forget()
        world.reset()
        return res

    def shrinkable(self, plan):
        return super().shrinkable(plan) + [(k,) for k in ("world", "probes") if plan[k]]


PROP = C11()
