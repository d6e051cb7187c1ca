"""Records the tree in /repo as the one the search compares with: writes baseline.json."""
import json
import os
import random
import sys

sys.dont_write_bytecode = True
os.environ.setdefault("PYTHONHASHSEED", "0")
HERE = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, HERE)

from sim import aim, catalog, core, worker          # noqa: E402
from sim import seams                               # noqa: E402
from props.c05 import FAMILIES, USER_UNITS          # noqa: E402

SAMPLES = 40


def conversion(rng, op="iconv"):
    if rng.random() < 0.5:
        cls = rng.choice(sorted(catalog.CLASS_UNITS))
        us = catalog.CLASS_UNITS[cls]
        return [op, catalog.U(cls, 2.5, rng.choice(us)), rng.choice(us)]
    us = rng.choice(FAMILIES)
    return [op, catalog.M("MultiUnit", 2.5, rng.choice(us)), rng.choice(us)]


def register(rng):
    return ["reg"] + list(rng.choice(USER_UNITS)[:4])


MORE = {"iconv": conversion, "in place": conversion, "in place compound": conversion, "register": register, "reg": register,
        "user unit": register, "user function": register}


def main():
    aim.PATH = os.devnull + "/none"
    ctx = worker.make_ctx()
    functions, loose = aim.survey(ctx.lib)
    owners = {id(c): aim.owner(m, c) for m, (code, _p, _f) in ctx.lib.sources.items() for c in aim.walk_code(code)}
    reach = {}
    for entry in catalog.ENTRIES + sorted(MORE):
        rng = random.Random(entry)
        seen = set()
        for _ in range(SAMPLES):
            op = MORE[entry](rng) if entry in MORE else catalog.make_op(rng, entry)
            env = catalog.Env(ctx.lib.new())
            try:
                fn, args, kw = catalog.prepare(env, op)
            except Exception:
                continue
            _v, _e, _s, trace, _h = core.run_alone(fn, args, kw, 400_000, True)
            seen.update(owners[c] for c, _off in trace if c in owners)
        if entry in ("user unit", "user function"):
            seen.update(reach["conv:U"])
        reach[entry] = sorted(x for x in seen if x in functions)
    out = dict(functions={f: [x[0] for x in v] for f, v in sorted(functions.items())},
               loose={m: [x[0] for x in v] for m, v in sorted(loose.items())}, reach=reach,
               constants=sorted({repr(c) for v in [*functions.values(), *loose.values()] for x in v for c in x[-1]}))
    with open(os.path.join(HERE, "baseline.json"), "w") as fh:
        json.dump(out, fh, separators=(",", ":"), sort_keys=True)
        fh.write("\n")
    print(len(functions), "functions", len(reach), "entries", file=seams.REAL["stdout"])


main()
