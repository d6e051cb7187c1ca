"""C07: results belong to the caller and share nothing."""
from sim import aim, catalog, core, sched
from sim.catalog import ENTRIES
from sim.engine import Runner
from sim.observe import WATER_PROPS, canon, outcome, show
from sim.prop import Prop

from .c05 import FAULTS
from .common import bound

# not documented as a helper, and returns the lists it was given
SKIP = {"help:common", "un:repr", "bin:eq", "help:get_exponent_total", "help:get_unit_string", "help:get_unit_class", "help:check_units", "help:strings"}
# those most likely to hand out an operand or something remembered come up more often
SOURCES = [e for e in ENTRIES if e not in SKIP] + ["un:neg", "un:copy", "bin:scal", "bin:rscal", "bin:pow", "conv:U", "conv:M",
                                                   "utility.get_water_properties", "utility.get_gas_constant"] * 2
ALT = {"m": ["cm", "ft", "km"], "cm": ["m", "ft"], "ft": ["m", "in"], "in": ["m"], "kg": ["g", "lb"], "g": ["kg"], "lb": ["kg"], "s": ["min", "hr"],
       "min": ["s"], "hr": ["s"], "K": ["R"], "F": ["K"], "R": ["K"], "W": ["kW", "J/s"], "kW": ["W"], "J": ["kJ", "BTU"], "kJ": ["J"], "BTU": ["J"],
       "Pa": ["kPa", "atm"], "kPa": ["Pa"], "atm": ["Pa"], "bar": ["Pa"], "L": ["m^3"], "cP": ["kg/m*s"], "uPa": ["Pa"]}


def text_of(e):
    v = e[1] if e[0] == "i" else float.fromhex(e[1]) if e[0] == "f" else None
    return "" if v in (1, 1.0, "1", None) else f"^{v}"


def other_units(rng, c):
    """A unit that a quantity of canonical form c can be converted to, probably."""
    if c[0] == "U":
        cls, unit, e = c[1], c[3][1], c[4]
        us = catalog.CLASS_UNITS.get(cls)
        if not us:
            return None
        u = rng.choice(us)
        return u if "^" in u else u + text_of(e)
    if c[0] == "M":
        halves, k = [], 0
        units = [b for h in (c[3], c[4]) if h[0] == "Q" for b in h[1:] if b[0] == "B"]
        swap = [i for i, b in enumerate(units) if b[2][1] in ALT]
        if not units:
            return None
        pick = rng.choice(swap) if swap else -1
        for h in (c[3], c[4]):
            part = []
            for b in h[1:]:
                u = b[2][1]
                if k == pick:
                    u = rng.choice([x for x in ALT[u] if "/" not in x and "^" not in x] or [u])
                part.append(u + text_of(b[3]))
                k += 1
            halves.append("*".join(part))
        return halves[0] + ("/" + halves[1] if halves[1] else "")
    return None


def editable(rng, ref, c):
    """-> an in-place operation on the object ref whose canonical form is c, or None"""
    if c[0] in ("U", "M"):
        u = other_units(rng, c)
        return None if u is None else ["iconv", ref, u]
    if c[0] == "W":
        if rng.random() < 0.25:
            return ["wset", ref, rng.choice([310, 402.5, 999, 5])]
        p = rng.choice([p for p in WATER_PROPS if p != "phase"])
        u = other_units(rng, c[1 + WATER_PROPS.index(p)])
        return None if u is None else ["iconv", ["of", ref, p], u]
    if c[0] == "L" and rng.random() < 0.7:
        return ["ledit", ref, rng.choice(["append", "clear", "reverse", "pop", "set"])]
    if c[0] in ("L", "T") and len(c) > 1:
        i = rng.randrange(len(c) - 1)
        return editable(rng, ["el", ref, i], c[1 + i])
    return None


def root(ref):
    while ref[0] in ("of", "el"):
        ref = ref[1]
    return tuple(ref)


class Run(Runner):
    def started(self):
        self.live = {("P", i): v for i, v in self.env.pool.items()}
        for name in catalog.CONSTANTS:
            try:
                self.live[("c", name)] = self.inst.get("utility.constants." + name)
            except catalog.Missing:
                pass
        self.state = {k: canon(v) for k, v in self.live.items()}

    def cap(self, opid):
        return 60_000_000

    def names(self, k):
        if k[0] == "P":
            return f"quantity {self.plan['pool'][k[1]]}"
        if k[0] == "c":
            return f"constant {k[1]}"
        return f"the result of {self.ops[k[1]]}"

    def op_done(self, t, opid, op, value, exc, fired):
        if self.res.violations:
            return
        hit = None
        if op[0] in ("iconv", "wset", "ledit"):
            hit = root(op[1])
            self.res.count("edits")
        for k, v in self.live.items():
            c = canon(v)
            if c != self.state[k]:
                if k == hit:
                    self.res.count("edits_effective")
                    self.dirty.add(k)
                    self.state[k] = c
                    continue
                self.res.violate("shared", f"{catalog.label(op)}|{k[0]}",
                                 f"{op} changed {self.names(k)} from {show(self.state[k])} to {show(c)}")
                return
        if hit is None and exc is None:
            self.live[("R", opid)] = value
            self.state[("R", opid)] = canon(value)
            self.res.count("results_held")
            refs = {("P", i) for i in catalog.pool_refs(op)} | {("R", i) for i in catalog.result_refs(op)}
            clean = not refs & (self.dirty | self.tainted)
            if not clean:
                self.tainted.add(("R", opid))
            exp = self.expect.get(opid)
            if clean and exp is not None:
                self.judge(op, exp, outcome(value, exc), "here")

    def judge(self, op, exp, got, where):
        self.res.count("answers_compared")
        if got != exp.outcome:
            self.res.violate("later answer", f"{catalog.label(op)}|{where}",
                             f"{op} {where}: fresh process {show(exp.outcome)}, after the edits {show(got)}")

    def finished(self):
        env = catalog.Env(self.inst, self.env.pool)
        for op in self.probes:
            if self.res.violations:
                break
            exp = self.probe_exp[catalog_key(op)]
            if exp.hung or exp.outcome[0] not in ("ok", "raise"):
                continue
            try:
                fn, args, kw = catalog.prepare(env, op)
            except (catalog.Skip, catalog.Missing):
                continue
            except Exception as e:
                self.res.violate("later answer", f"{catalog.label(op)}|operand", f"operands of {op} cannot be made any more: {type(e).__name__}")
                break
            value, exc, _s, _t, hung = core.run_alone(fn, args, kw, bound(exp))
            self.judge(op, exp, ["hang"] if hung else outcome(value, exc), "asked again")
        self.res.nontrivial = self.res.stats.get("edits_effective", 0) > 0
        import zlib
        self.sim.sig = zlib.crc32(repr(sorted(map(str, self.dirty))).encode() + repr([o["op"] for o in self.plan["threads"][0]]).encode(), self.sim.sig)


def catalog_key(op):
    import json
    return json.dumps(op)


class C07(Prop):
    id = "C07"
    runs = {"quick": 3000, "thorough": 60000}
    technique = "seeded histories deriving quantities from each other and then converting or editing some, with interrupted edits, collections and address reuse"
    level_note = "Seeded histories; every live quantity, list, record and constant is compared after each step, and later answers with a fresh process's."
    rule = "a run counts if at least one edit changed its own target; distinct by the whole sequence of operations and edits"
    measure = "CRC of the sequence of operations and of the objects that were edited"
    assumptions = ("a caller edits only what was returned to it, not the private unit lists inside a quantity",)

    def generate(self, ctx, rng, index):
        entry = aim.entry(SOURCES, index, rng)
        plan = dict(label=entry, pool=[], threads=[[]], stops=[], heap=rng.choice(["lifo", "lifo", "fifo", "fresh"]), probes=[])
        ids = sched.Ids()
        pool, ops = plan["pool"], plan["threads"][0]
        forms = {}                 # ref -> canonical form when obtained
        by_id, spent, edits, limit = {}, 0, 0, 90_000
        base = aim.op(lambda: catalog.make_op(rng, entry), ctx.oracle, index)
        for i in range(rng.randint(4, 14)):
            c = rng.random()
            if i == 0:
                op = catalog.poolify(rng, base, pool, 0.6)
            elif forms and c < 0.45:
                ref = rng.choice(sorted(forms)) if rng.random() < 0.5 else sorted(forms)[-1]
                op = editable(rng, list(ref), forms[ref])
                if op is None:
                    continue
                o = ids(op)
                ops.append(o)
                edits += 1
                if rng.random() < 0.1:
                    plan["stops"].append({"op": o["id"], "step": rng.randint(1, 400), "act": ["raise", rng.choice(FAULTS)]})
                if rng.random() < 0.2:
                    plan["stops"].append({"op": o["id"], "step": 0, "act": ["gc"]})
                continue
            elif forms and c < 0.6:
                r = list(rng.choice(sorted(forms)))
                if forms[tuple(r)][0] not in ("U", "M"):
                    op = ["un", rng.choice(["deepcopy", "pickle"]), r]
                else:
                    op = rng.choice([["bin", "mul", r, 2], ["bin", "mul", 2, r], ["bin", "div", r, 4.0], ["un", "neg", r], ["un", "deepcopy", r], ["un", "copy", r], ["un", "pickle", r],
                                     ["bin", "add", r, r], ["bin", "sub", r, r], ["bin", "mul", r, r], ["bin", "div", 1, r], ["bin", "pow", r, 1], ["bin", "pow", r, 2],
                                     ["bin", "mul", r, rng.choice([1, 1.0, True])], ["bin", "mul", r, rng.choice([0, 0.0, -1])], ["bin", "mul", 1, r], ["bin", "div", r, rng.choice([1, 1.0])], ["bin", rng.choice(["add", "sub"]), r, rng.choice([0, 0.0])],
                                     ["bin", "pow", r, rng.choice([1.0, True, 0])],
                                     ["conv", r, other_units(rng, forms[tuple(r)]) or "m"], ["bin", "mul", r, catalog.mut_q(rng, rng.choice(catalog.QUANTITIES))]])
            elif c < 0.8:
                op = catalog.poolify(rng, rng.choice([base, sched.vary(rng, base)]), pool, 0.6)
            else:
                op = catalog.poolify(rng, catalog.make_op(rng, rng.choice(SOURCES if rng.random() < 0.3 else sched.CHEAP)), pool, 0.6)
            if spent > limit and i:
                continue
            exp = ctx.oracle.expected(catalog.inline(op, by_id), pool, trace=False)
            spent += exp.steps + 500
            if i == 0:
                limit = sched.room(limit, exp)
            if exp.hung or exp.outcome[0] not in ("ok", "raise"):
                if i == 0:
                    return None
                continue
            o = ids(op)
            ops.append(o)
            by_id[o["id"]] = op
            if exp.outcome[0] == "ok":
                forms[("R", o["id"])] = exp.outcome[1]
            for p in catalog.pool_refs(op):
                if ("P", p) not in forms and pool[p][0] in ("U", "M", "wp", "w"):
                    form = ctx.oracle.expected(["un", "deepcopy", pool[p]], pool, trace=False).outcome
                    if form[0] == "ok":
                        forms[("P", p)] = form[1]
        # ask again with newly made operands: answers must not have been edited
        asked = [catalog.unpool(catalog.inline(o["op"], by_id), pool) for o in ops if o["id"] in by_id]
        room = 120_000
        for op in asked[:1] + asked[:0:-1]:
            exp = ctx.oracle.expected(op, [], trace=False)
            if exp.steps < room and len(plan["probes"]) < 5:
                room -= exp.steps
                plan["probes"].append(op)
        plan["probes"].append(catalog.make_op(rng, rng.choice(sched.CHEAP)))
        if rng.random() < 0.5:
            plan["probes"].append(sched.vary(rng, base))
        return plan if edits else None

    def execute(self, ctx, plan):
        r = Run(ctx, plan)
        ops = {o["id"]: o["op"] for o in plan["threads"][0]}
        derived = {i: op for i, op in ops.items() if op[0] not in ("iconv", "wset", "ledit")}
        r.ops = ops
        r.dirty = set()
        r.tainted = set()       # computed from something edited
        r.expect = {i: ctx.oracle.expected(catalog.inline(op, derived), plan["pool"], trace=False) for i, op in derived.items()}
        r.probes = plan["probes"]
        r.probe_exp = {catalog_key(op): ctx.oracle.expected(op, [], trace=False) for op in plan["probes"]}
        return r.run()

    def shrinkable(self, plan):
        return super().shrinkable(plan) + ([("probes",)] if plan.get("probes") else [])


PROP = C07()
