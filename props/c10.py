"""C10: calculations do not depend on or disturb the outside world."""
import random

from sim import aim, catalog, sched, seams, world
from sim.catalog import ENTRIES
from sim.engine import Runner
from sim.observe import outcome, show
from sim.prop import Prop

from .c05 import FAULTS
from .common import bound


def disturbance(rng, k=None):
    k = k or rng.choice(["stream", "stream", "stream", "files", "clock", "seed", "env", "cwd", "filters", "path", "decimal", "machine", "machine", "argv",
                    "stdin", "interactive", "terminal", "collector", "printing", "errstate", "logging", "limits"])
    if k == "stream":
        return [k, rng.choice(["stdout", "stdout", "stderr"]), rng.choice(world.STREAM_MODES)]
    if k == "files":
        return [k, rng.random() < 0.8]
    if k == "clock":
        return [k, rng.choice([1e-3, 1.0, 60.0, 3600.0, 1e6, 1e9, -1.0, -3600.0, -1e8])]
    if k == "seed":
        return [k, rng.randrange(1000)]
    if k == "env":
        name, v = rng.choice(world.ENV_CHANGES)
        return [k, name, rng.choice([v, v, None, "1"])]
    if k == "cwd":
        return [k, rng.choice(["gone", "gone", "other"])]
    if k == "filters":
        return [k, rng.choice(["ignore", "always", "default", "once"])]
    if k == "machine":
        return [k] + machine(rng, rng.choice(["pid", "cpus", "host", "user"]))
    if k == "argv":
        return [k, rng.choice([["--debug"], ["-v", "imperial"], ["K"]])]
    if k == "stdin":
        return [k, rng.choice([None, "", "y\n"])]
    if k == "terminal":
        return [k, rng.choice(["stdout", "stderr"])]
    if k == "printing":
        return [k, rng.choice([{"precision": 2}, {"suppress": True}, {"threshold": 2, "edgeitems": 1}])]
    if k == "errstate":
        return [k, {"all": rng.choice(["ignore", "warn"])}]
    if k == "logging":
        return [k, rng.choice([10, 50])]
    if k == "limits":
        what = rng.choice(["recursion", "recursion", "switching", "digits", "collector", "network"])
        return [k, what, rng.choice({"recursion": [1500, 3000, 20000], "switching": [1e-4, 0.05], "digits": [0, 640, 100000], "collector": [[100, 5, 5], [50000, 20, 20]],
                                     "network": [1.0, 30.0]}[what])]
    if k == "decimal":
        return [k, rng.choice([1, 2, 5, 28, 50]), rng.choice(world.ROUNDING)]
    return [k]


def machine(rng, what):
    return [what, rng.choice({"pid": [1, 4243, 99999], "cpus": [1, 2, 64, None], "host": ["localhost", "node7"], "user": ["root", "nobody"]}[what])]


BROUGHT_IN = {"decimal": ["decimal"], "fractions": ["decimal"], "random": ["seed"], "secrets": ["seed"], "os": ["env", "cwd", "files", "machine"], "time": ["clock"], "datetime": ["clock"],
              "sys": ["limits", "argv", "stream", "stdin", "terminal", "interactive", "path"], "warnings": ["filters", "stream"], "logging": ["logging", "stream"], "gc": ["collector", "limits"],
              "socket": ["machine", "limits"], "getpass": ["machine", "env"], "platform": ["machine"], "multiprocessing": ["machine"], "tempfile": ["files", "env", "cwd"],
              "pathlib": ["files", "cwd"], "io": ["files"], "shutil": ["files", "env"], "locale": ["env"], "getopt": ["argv"], "argparse": ["argv"]}


def relevant(rng, touched):
    """A change to something the call is known to look at."""
    what = rng.choice(touched)
    if what.startswith("module "):
        return disturbance(rng, rng.choice(BROUGHT_IN[what[7:]]))
    if what.startswith("env "):
        return ["env", what[4:], rng.choice(["1", "0", "", "12", "3", "-1", "imperial", "SI", "true", "/nonexistent", "abc", "C", None])]
    if what.startswith("machine "):
        return ["machine"] + machine(rng, what[8:])
    if what.startswith("terminal "):
        return what.split()
    return ["clock", rng.choice([1.0, 60.0, 3600.0, 1e5, 1e9, -1.0, -3600.0, -1e8])]


class Run(Runner):
    def started(self):
        self.in_flight = 0
        self.base = world.shared()

    def cap(self, opid):
        return bound(self.exps[opid])

    def bad(self, kind, op, text):
        if not self.res.violations:
            self.res.violate(kind, f"{kind}|{self.plan['label']}", text)

    def custom(self, t, act, where):
        """The world changes at this moment of the call."""
        inside, t.in_call = t.in_call, False
        before = world.shared()
        mine = world.personal()
        world.change(act)
        after = world.shared()
        for k in world.differences(before, after):
            self.base[k] = after[k]
        now = world.personal()
        for k in world.differences(mine, now):
            t.own[k] = now[k]
        t.in_call = inside
        self.sim.faults[f"world: {act[0]}"] = self.sim.faults.get(f"world: {act[0]}", 0) + 1

    def before_op(self, t, opid, op):
        self.in_flight += 1
        t.own = world.personal()
        t.in_call = True

    def op_done(self, t, opid, op, value, exc, fired):
        t.in_call = False
        self.in_flight -= 1
        exp = self.exps[opid]
        self.res.count("calls_cut_short" if fired else "calls_judged")
        if not fired:
            got = outcome(value, exc)
            if got != exp.outcome:
                self.bad("answer", op, f"{op} gives {show(got)}; in an undisturbed process {show(exp.outcome)}")
        w = world.written()
        if w:
            self.bad("writes", op, f"{op} writes to {w[0]}")
        now = world.personal()
        for k in world.differences(t.own, now):
            self.bad("settings", op, f"{op} changes {k}: {t.own[k]} -> {now[k]}")
        if not self.in_flight:
            self.settings(op)

    def settings(self, op):
        self.res.count("settings_compared")
        now = world.shared()
        for k in world.differences(self.base, now):
            self.bad("settings", op, f"{op} changes {k}: {brief(self.base[k], now[k])}")

    def finished(self):
        for t in self.sim.threads:
            t.in_call = False
        if self.sim.hang is not None:
            self.bad("hang", None, f"call does not finish: {self.sim.hang}")
        elif self.sim.deadlock is not None:
            self.bad("hang", None, "callers wait for each other forever")
        else:
            self.settings("the run")
        self.res.nontrivial = bool(self.sim.log)


def brief(a, b):
    if isinstance(a, dict):
        return str([(k, a.get(k), b.get(k)) for k in sorted(set(a) | set(b)) if a.get(k) != b.get(k)])[:200]
    return f"{str(a)[:120]} -> {str(b)[:120]}"


class C10(Prop):
    id = "C10"
    runs = {"quick": 2400, "thorough": 80000}
    technique = "calls made while a simulated world (streams, files, clock, randomness, environment, working directory, warning filters) fails or changes at seeded bytecode points"
    level_note = "Seeded search; answers compared bit for bit with an undisturbed process, all process-wide settings and everything written compared after every call."
    rule = "a run counts if at least one disturbance, fault or preemption fired; distinct by catalogue entry and sequence of (caller, action, location)"
    simulated = Prop.simulated + ("standard streams", "file opening and other system calls (audit hook)", "random generators' seeds", "environment variables",
                                  "working directory", "warning filters")
    assumptions = ("numpy's RuntimeWarnings about the caller's own numbers are numpy's output, not the library's",
                   "loading modules of Python's own library on first use is not a dependence on files")

    def setup(self, ctx):
        world.install()
        world.reset()
        seams.TOUCHED.clear()
        ctx.lib.new()
        self.at_import = tuple(sorted(seams.TOUCHED - {"entropy"}))
        # operations that look at the world get more attention
        self.lookers = []
        for e in ENTRIES:
            rng = random.Random(f"C10 {e}")
            if any(ctx.oracle.expected(catalog.make_op(rng, e), []).touched for _ in range(2)):
                self.lookers.append(e)

    def generate(self, ctx, rng, index):
        world.reset()
        entry = aim.entry(ENTRIES, index, rng)
        if self.lookers and rng.random() < 0.3:
            entry = rng.choice(self.lookers)
        nt = rng.choice([1, 1, 1, 2])
        plan = dict(label=entry, pool=[], threads=[[] for _ in range(nt)], stops=[], first=0, heap="lifo", world=[])
        ids, exps, steps = sched.Ids(), {}, 0
        for k in range(rng.randint(1, 4) if nt == 1 else rng.randint(2, 5)):
            op = aim.op(lambda: catalog.make_op(rng, entry if k == 0 or rng.random() < 0.6 else rng.choice(sched.CHEAP)), ctx.oracle, index if k == 0 else 0)
            op = catalog.poolify(rng, op, plan["pool"], 0.3)
            exp = ctx.oracle.expected(op, plan["pool"])
            if exp.hung or exp.outcome[0] in ("skip", "operand") or steps > 150_000:
                continue
            steps += exp.steps
            o = ids(op)
            plan["threads"][k % nt].append(o)
            exps[o["id"]] = exp
        if not plan["threads"][0]:
            return None
        touched = {k: [x for x in e.touched if x != "entropy"] for k, e in exps.items()}
        early = sorted(set(self.at_import).union(*touched.values(), (f"module {m}" for m in aim.IMPORTS if m in BROUGHT_IN)))
        for _ in range(rng.randint(1 if early else 0, 3)):
            plan["world"].append(relevant(rng, early) if early and rng.random() < 0.7 else disturbance(rng))
        for th in plan["threads"]:
            for o in th:
                exp = exps[o["id"]]
                if not exp.points:
                    continue
                for _ in range(rng.randint(0, 3)):
                    known = touched[o["id"]] + [m for m in early if m.startswith("module ")]
                    act = relevant(rng, known) if known and rng.random() < 0.6 else disturbance(rng)
                    plan["stops"].append({"op": o["id"], "step": rng.choice([0] + exp.points), "act": act})
                if nt > 1:
                    for s in sched.pick_points(rng, exp, rng.randint(0, 4)):
                        plan["stops"].append({"op": o["id"], "step": s, "act": ["switch"]})
                if rng.random() < 0.25:
                    s = rng.choice(exp.stores if exp.stores and rng.random() < 0.4 else exp.points)
                    plan["stops"].append({"op": o["id"], "step": s, "act": ["raise", rng.choice(FAULTS)]})
        plan["note"] = f"{nt} callers"
        return plan

    def execute(self, ctx, plan):
        world.reset()
        exps = {o["id"]: ctx.oracle.expected(o["op"], plan["pool"]) for th in plan["threads"] for o in th}
        world.reset()
        for act in plan["world"]:
            world.change(act)
        r = Run(ctx, plan)
        r.exps = exps
        res = r.run()
        for act in plan["world"]:
            k = f"world: {act[0]}"
            res.faults[k] = res.faults.get(k, 0) + 1
        world.reset()
        return res

    def shrinkable(self, plan):
        return super().shrinkable(plan) + ([("world",)] if plan["world"] else [])


PROP = C10()
