"""Points the search at code that differs from the recorded tree.

baseline.json holds a hash of every statement of the library as it was when the
checks were written, and the functions each catalogue entry passes through.  If
the tree under test differs, every other plan is about operations that reach
what is different, and moments inside it come up more often.  Only the choice of
plans is affected; what counts as a violation is not.
"""
import ast
import dis
import hashlib
import json
import os
import random

from . import catalog, core
from .loader import PKG, walk_code

PATH = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "baseline.json")


def _hash(node):
    return hashlib.sha1(ast.dump(node).encode()).hexdigest()[:10]


_BODIES = ("body", "orelse", "finalbody", "handlers", "cases")


def _header(node):
    """A compound statement without what it contains."""
    kept = {f: getattr(node, f) for f in _BODIES if getattr(node, f, None)}
    for f in kept:
        setattr(node, f, [])
    try:
        return _hash(node)
    finally:
        for f, v in kept.items():
            setattr(node, f, v)


def _statements(node):
    for child in ast.iter_child_nodes(node):
        if isinstance(child, ast.stmt):
            body = getattr(child, "body", None)
            first = body[0].lineno if isinstance(body, list) and body else child.end_lineno + 1
            yield _header(child) if isinstance(body, list) else _hash(child), child.lineno, max(child.lineno, first - 1), _imported(child), _constants(child)
        yield from _statements(child)


def _imported(node):
    if isinstance(node, ast.Import):
        return [a.name.partition(".")[0] for a in node.names]
    if isinstance(node, ast.ImportFrom) and node.module and not node.level:
        return [node.module.partition(".")[0]]
    return []


def _constants(node):
    """Texts and numbers in a statement, not in what it contains."""
    if isinstance(node, ast.Expr) and isinstance(node.value, ast.Constant):
        return []
    out = []
    todo = [node]
    while todo:
        x = todo.pop()
        if isinstance(x, ast.Constant) and type(x.value) in (str, int, float):
            out.append(x.value)
        for f, v in ast.iter_fields(x):
            if x is not node or f not in _BODIES:
                todo += [y for y in (v if isinstance(v, list) else [v]) if isinstance(y, ast.AST)]
    return out


def survey(lib):
    """-> {function: [(hash, first line, last line, imports, constants)]}, {module: [(hash, first line, last line, names, imports, constants)]}"""
    functions, loose = {}, {}

    def visit(mod, prefix, body):
        for s in body:
            if isinstance(s, (ast.FunctionDef, ast.AsyncFunctionDef)):
                functions.setdefault(f"{mod}:{prefix}{s.name}", []).extend(
                    [(_header(s), s.lineno, s.body[0].lineno - 1, [], _constants(s))] + list(_statements(s)))
            elif isinstance(s, ast.ClassDef):
                loose.setdefault(mod, []).append((_header(s), s.lineno, s.body[0].lineno - 1, [s.name], [], []))
                visit(mod, f"{prefix}{s.name}.", s.body)
            else:
                names = sorted({t.id for t in ast.walk(s) if isinstance(t, ast.Name) and isinstance(t.ctx, ast.Store)})
                loose.setdefault(mod, []).append((_hash(s), s.lineno, s.end_lineno, names, _imported(s), [c for x in ast.walk(s) if isinstance(x, ast.stmt) for c in _constants(x)]))

    for mod, (_code, _p, path) in lib.sources.items():
        with open(path, "rb") as fh:
            visit(mod[len(PKG) + 1:], "", ast.parse(fh.read()).body)
    return functions, loose


def owner(mod, code):
    """The function or method a code object belongs to."""
    return f"{mod[len(PKG) + 1:]}:{code.co_qualname.partition('.<locals>')[0]}"


def _new(now, then):
    then = list(then)
    out = []
    for x in now:
        if x[0] in then:
            then.remove(x[0])
        else:
            out.append(x)
    return out, bool(then)


WEIGHTS = {}       # catalogue entry -> how much it has to do with the difference
HOT = set()        # (id(code), offset) inside it
MODULES = set()    # the modules it is in
IMPORTS = set()    # the modules it brings in
COVERED = {}       # how many plans are about a call that passes there


def install(lib):
    WEIGHTS.clear()
    HOT.clear()
    COVERED.clear()
    MODULES.clear()
    IMPORTS.clear()
    catalog.WORDS.clear()
    catalog.NUMBERS.clear()
    constants = []
    try:
        with open(PATH) as fh:
            base = json.load(fh)
    except OSError:
        return
    functions, loose = survey(lib)
    lines, names, outside = {}, set(), {}
    for f, now in functions.items():
        new, gone = _new(now, base["functions"].get(f, ()))
        if new or gone:
            lines[f] = {n for x in (new or now) for n in range(x[1], x[2] + 1)}
            IMPORTS.update(m for x in new for m in x[3])
            constants += [x[4] for x in new]
    for mod, now in loose.items():
        for x in _new(now, base["loose"].get(mod, ()))[0]:
            names.update(x[3])
            IMPORTS.update(x[4])
            constants.append(x[5])
            outside.setdefault(mod, set()).update(range(x[1], x[2] + 1))
    names -= {"self"}
    if not lines and not outside:
        return
    # of long tables only what is new
    known = set(base["constants"])
    special = {c for cs in constants for c in cs if len(cs) < 20 or repr(c) not in known}
    catalog.WORDS.extend(sorted(c for c in special if isinstance(c, str) and 0 < len(c) < 30 and " " not in c))
    catalog.NUMBERS.extend(sorted(c for c in special if not isinstance(c, str) and c not in (0, 1)))
    touched = set(lines)
    MODULES.update(f"{PKG}.{m}" for m in {f.partition(":")[0] for f in lines} | set(outside))
    for mod, (code, _p, _f) in lib.sources.items():
        for c in walk_code(code):
            f = owner(mod, c)
            elig = core.ELIG.get(id(c), {})
            if f in lines:
                HOT.update((id(c), off) for off, line in elig.items() if line in lines[f])
            elif f in functions:
                for x in dis.get_instructions(c):
                    if x.argval in names and x.opname.startswith(("LOAD_", "STORE_")):
                        touched.add(f)
                        HOT.add((id(c), x.offset))
            elif f not in functions:
                here = outside.get(mod[len(PKG) + 1:], ())
                HOT.update((id(c), off) for off, line in elig.items() if line in here)
    for entry, reach in base["reach"].items():
        n = len(touched & set(reach))
        if n:
            WEIGHTS[entry] = n * n / len(reach) ** 0.5


def profile(oracle, samples=6):
    """Prefers entries that get to parts of the difference which few others get to."""
    if not HOT:
        return
    reach, by = {}, {}
    for e in sorted(WEIGHTS):
        if e not in catalog.ENTRIES:
            continue
        rng = random.Random(f"aim {e}")
        reach[e] = set()
        spent = 0
        for _ in range(samples):
            if spent < 60_000:
                exp = oracle.expected(catalog.make_op(rng, e), [])
                reach[e] |= exp.where
                spent += exp.steps
        for loc in reach[e]:
            by[loc] = by.get(loc, 0) + 1
    rare = {e: sum(1 / by[loc] for loc in locs) for e, locs in reach.items()}
    total, plain = sum(rare.values()), sum(WEIGHTS.values())
    if not total:
        return
    for e in WEIGHTS:
        WEIGHTS[e] = 0.3 * WEIGHTS[e] / plain + 0.7 * (rare[e] / total if e in rare else 1 / len(WEIGHTS))


def entry(entries, index, rng):
    """The catalogue entry of plan number index."""
    if WEIGHTS and index % 2:
        known = [e for e in entries if e in WEIGHTS]
        if known:
            return rng.choices(known, [WEIGHTS[e] for e in known])[0]
    return entries[index % len(entries)]


def best(make, where, index, tries=6):
    """One of several things made by make(): preferably one that gets where few others did."""
    if not HOT or not index % 2:
        return make(0)
    found = None
    for k in range(tries):
        x = make(k)
        locs = where(x)
        n = min((COVERED.get(loc, 0) for loc in locs), default=core.NEVER)
        if found is None or n < found[0]:
            found = n, x, locs
    for loc in found[2]:
        COVERED[loc] = COVERED.get(loc, 0) + 1
    return found[1]


def op(make, oracle, index):
    return best(lambda _k: make(), lambda x: oracle.expected(x, []).where, index)
