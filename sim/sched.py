"""Seeded choice of operations and of the moments at which things happen."""
from . import catalog

CHEAP = ["bin:add", "bin:sub", "bin:mul", "bin:div", "bin:mulU", "bin:divU", "bin:pow", "bin:scal", "bin:rscal", "bin:eq",
         "un:repr", "un:neg", "un:copy", "conv:U", "conv:M", "conv:bad", "make", "utility.get_gas_constant",
         "utility.get_water_properties", "reactions.balance_equation", "help:parse_units", "usolve",
         "thermodynamics.rendlich_kwong", "thermodynamics.peng_robinson", "utility.reynolds", "help:get_unit_string",
         "heat_transfer.wall_viscosity_correction_factor", "reactions.integral_method", "utility.schmidt",
         "process_safety.K_from_standard", "heat_transfer.deltat_logmean", "utility.biot"]


class Ids:
    def __init__(self):
        self.n = 0

    def __call__(self, op):
        self.n += 1
        return {"id": self.n, "op": op}


def vary(rng, op):
    """The same operation, slightly different: what a careless key of remembered answers might not tell apart."""
    op = list(op)
    k = op[0]
    if k == "call" and len(op) > 3 and (not op[2] or rng.random() < 0.5) and op[3]:
        kw = dict(op[3])
        n = rng.choice(sorted(kw))
        kw[n] = nudge(rng, kw[n])
        op[3] = kw
    elif k == "call" and op[2]:
        if rng.random() < 0.15 and len(op) == 3:
            return other_form(rng, op)
        op[2] = nudge_one(rng, op[2])
    elif k == "usolve":
        op[2] = nudge_one(rng, op[2])
    elif k == "static":
        op[2] = nudge_one(rng, op[2])
    elif k == "make":
        op[1] = nudge(rng, op[1])
    elif k == "meth":
        q = nudge(rng, op[1])
        op[3] = [[a[0], q] if isinstance(a, list) and a[0] in ("top", "bot") else a for a in op[3]]
        op[1] = q
    elif k == "bin":
        if rng.random() < 0.12:
            op[2], op[3] = op[3], op[2]
        else:
            i = rng.choice((2, 3))
            op[i] = nudge(rng, op[i])
    elif k == "un":
        op[2] = nudge(rng, op[2])
    elif k in ("conv", "iconv"):
        c = rng.random()
        if c < 0.45:
            op[1] = nudge(rng, op[1])
        elif c < 0.75:
            op[2] = other_unit(rng, op[1], op[2])
        else:
            op[2] = respell(rng, op[2])
    return op


def nudge_one(rng, args):
    args = list(args)
    i = rng.randrange(len(args))
    if args[i] is None and rng.random() < 0.7:
        i = rng.randrange(len(args))
    args[i] = nudge(rng, args[i])
    return args


def other_form(rng, op):
    """The same call with its last arguments given by name, or two alike arguments exchanged."""
    names = catalog.KWNAMES.get(op[1])
    args = list(op[2])
    if names and rng.random() < 0.5:
        cut = rng.randrange(len(args))
        return ["call", op[1], args[:cut], dict(zip(names[cut:], args[cut:]))]
    alike = [(i, j) for i in range(len(args)) for j in range(i) if isinstance(args[i], list) and isinstance(args[j], list)
             and args[i][:2] == args[j][:2] and args[i] != args[j]]
    if alike:
        i, j = rng.choice(alike)
        args[i], args[j] = args[j], args[i]
    return ["call", op[1], args]


def other_unit(rng, q, unit):
    if isinstance(q, list) and q[0] == "U":
        return rng.choice(catalog.CLASS_UNITS.get(q[1], ["m"]))
    fams = catalog.family_of(unit)
    return rng.choice(rng.choice(fams)) if fams else unit


def respell(rng, unit):
    """The same compound unit written in another way (or nearly the same)."""
    top, slash, bottom = unit.partition("/")
    if not unit or "/" in bottom or not all(top.split("*")) or slash and not all(bottom.split("*")):
        return unit
    top, bottom = top.split("*"), bottom.split("*") if slash else []

    def power(x, f):
        u, _, e = x.partition("^")
        try:
            v = f(float(e) if e else 1.0)
        except ValueError:
            return x
        return u if v == 1 else f"{u}^{v:g}"
    c = rng.random()
    if c < 0.3:
        rng.shuffle(top)
        rng.shuffle(bottom)
    elif c < 0.6 and bottom:
        i = rng.randrange(len(bottom))                   # m/s -> m*s^-1
        top = top + [power(bottom.pop(i), lambda e: -e)]
    elif c < 0.7 and len(top) > 1:
        bottom = bottom + [power(top.pop(rng.randrange(len(top))), lambda e: -e)]
    elif c < 0.8:
        half = rng.choice([top, bottom or top])
        i = rng.randrange(len(half))
        u, hat, e = half[i].partition("^")
        half[i] = f"{u}^{e}.0" if hat and e.lstrip("-").isdigit() else half[i] if hat else f"{u}^1"
    elif c < 0.85:
        half = rng.choice([top, bottom or top])
        i = rng.randrange(len(half))
        half[i] = half[i].swapcase() if rng.random() < 0.3 else half[i][0].swapcase() + half[i][1:]
    elif c < 0.93:
        half = rng.choice([top, bottom or top])
        i = rng.randrange(len(half))
        half[i] = power(half[i], rng.choice([lambda e: e + 1, lambda e: -e, lambda e: e / 2, lambda e: e * 2]))
    elif c < 0.97:
        for half in (top, bottom):                       # m^2 -> m*m
            for x in [x for x in half if x.partition("^")[2] in ("2", "3")]:
                u, _, e = x.partition("^")
                i = half.index(x)
                half[i:i + 1] = [u] * int(e)
    elif bottom:
        top, bottom = bottom, top
    return "*".join(top) + ("/" + "*".join(bottom) if bottom else "")


def rewrite(rng, eq):
    """The same reaction in another order or spacing, or one molecule different."""
    left, arrow, right = eq.partition("->")
    if not arrow:
        return eq
    sides = [[m.strip() for m in left.split("+")], [m.strip() for m in right.split("+")]]
    c = rng.random()
    gap, at = " + ", " -> "
    if c < 0.45:
        for s in sides:
            rng.shuffle(s)
    elif c < 0.6:
        sides.reverse()
    elif c < 0.75:
        gap, at = rng.choice([("+", "->"), ("  +  ", "  -> "), (" +", " ->")])
    elif c < 0.9:
        s = rng.choice(sides)
        s[rng.randrange(len(s))] = rng.choice(catalog.MOLECULES)
    else:
        s = rng.choice(sides)
        s.append(rng.choice(s + sides[0]))
    return at.join(gap.join(s) for s in sides)


WORDS = [["vapor", "liquid", "solid"], ["cube", "hemisphere", "sphere", "cylinder"], ["K", "R", "C", "F"], ["m^3", "L", "ft^3"], ["Pa", "atm", "psi", "kPa"]]


def nudge_text(rng, r):
    if "->" in r:
        return rewrite(rng, r)
    for w in WORDS:
        if r in w and rng.random() < 0.7:
            return rng.choice(w)
    return respell(rng, r)


def nudge_number(rng, v):
    return rng.choice([v * 2, v + 1, float(v), v * 1.0001, -v, v * 3, v + 1e-9, v + 0.3, v + 0.04, v * (1 + 2e-16), ["n", float(v)], int(v) if v == v and abs(v) < 1e15 else v])


def nudge(rng, r):
    if isinstance(r, bool):
        return not r if rng.random() < 0.5 else r
    if r is None:
        return r
    if isinstance(r, str):
        return nudge_text(rng, r)
    if isinstance(r, (int, float)):
        if isinstance(r, int) and 0 <= r <= 12:           # iteration counts and the like
            return rng.choice([r, max(0, r - 1), r + 1, float(r), min(12, r * 2)])
        return nudge_number(rng, r)
    if r[0] in catalog.QUANT:
        q = list(r)
        c = rng.random()
        v = q[2]
        if c < 0.45 and isinstance(v, (int, float)):
            q[2] = nudge_number(rng, v)
        elif c < 0.85:
            if q[0] == "U":
                if rng.random() < 0.35 and q[1] not in ("Area", "Volume"):
                    q = q[:4] + [rng.choice([1, 2, -1, 0.5, 3, 1.0, 0.7, 1.4])]
                else:
                    q[3] = rng.choice(catalog.CLASS_UNITS.get(q[1], [q[3]]))
            elif rng.random() < 0.5:
                fams = catalog.family_of(q[3])
                if fams:
                    q[3] = rng.choice(rng.choice(fams))
            else:
                q[3] = respell(rng, q[3])
        elif q[0] == "M":
            q[1] = rng.choice(["MultiUnit", q[1], "Velocity"])
        else:
            q[1] = rng.choice(["Unit", q[1]])
        return q
    if r[0] in ("L", "T", "A") and len(r) > 2:
        i = rng.randrange(1, len(r))
        return r[:i] + [nudge(rng, r[i])] + r[i + 1:]
    return r


def companion(rng, entry, base, p_same=0.5, p_ident=0.2):
    """An operation for a second caller, biased to collide with base."""
    c = rng.random()
    if c < p_ident:
        return base
    if c < p_same:
        return vary(rng, base)
    if c < p_same + 0.15:
        return catalog.make_op(rng, entry)
    return catalog.make_op(rng, rng.choice(CHEAP))


def room(budget, exp):
    """Steps a plan about this call may take: some more calls like it fit in."""
    return max(budget, min(3 * exp.steps, 900_000))


def pick_points(rng, exp, k, p_store=0.4):
    """k distinct steps of a call, uniform over locations or biased to writes."""
    pts = set()
    for _ in range(k):
        src = exp.stores if exp.stores and rng.random() < p_store else exp.points
        if src:
            pts.add(rng.choice(src))
        if exp.steps and rng.random() < 0.1:
            pts.add(rng.randrange(1, exp.steps + 1))
    return sorted(pts)


def races(rng, ctx, plan, a, b, k=(1, 6)):
    """Caller a is cut at points of its calls; each time caller b makes one whole call."""
    first = True
    for o in plan["threads"][a]:
        exp = ctx.oracle.expected(o["op"], plan["pool"])
        for s in pick_points(rng, exp, rng.randint(*k)):
            plan["stops"].append({"op": o["id"], "step": s, "act": ["switch", b]})
    for o in plan["threads"][b]:
        if not first:
            plan["stops"].append({"op": o["id"], "step": 0, "act": ["switch", a]})
        first = False


def scatter(rng, ctx, plan, k=4, act=("switch",)):
    """Independent preemptions anywhere in anybody's calls."""
    for th in plan["threads"]:
        for o in th:
            exp = ctx.oracle.expected(o["op"], plan["pool"])
            for s in pick_points(rng, exp, rng.randint(0, k)):
                plan["stops"].append({"op": o["id"], "step": s, "act": list(act)})
            if rng.random() < 0.3:
                plan["stops"].append({"op": o["id"], "step": 0, "act": ["switch"]})


def pingpong(rng, ctx, plan):
    """Alternating at every step within a window of each call."""
    for th in plan["threads"]:
        for o in th:
            exp = ctx.oracle.expected(o["op"], plan["pool"])
            if not exp.points:
                continue
            src = exp.stores if exp.stores and rng.random() < 0.5 else exp.points
            start = max(1, rng.choice(src) - rng.randint(0, 6))
            gap = rng.choice([1, 1, 2, 3])
            for s in range(start, start + gap * rng.randint(4, 24), gap):
                plan["stops"].append({"op": o["id"], "step": s, "act": ["switch"]})
