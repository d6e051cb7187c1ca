"""Loads many independent instances of the library from /repo's working tree.

The sources are compiled once per process; every instance executes the cached
code objects into brand-new module objects, so an instance is as good as a
freshly started process for anything the library keeps at module level.
"""
import builtins
import importlib
import importlib.machinery
import importlib.util
import os
import sys
import types
import warnings
import weakref

ROOT = os.environ.get("VERIF_REPO", "/repo")
PKG = "cheme_calculations"
SUBPACKAGES = ("heat_transfer", "mass_transfer", "process_safety", "reactions",
               "thermodynamics", "units", "utility")


def walk_code(code):
    yield code
    for const in code.co_consts:
        if isinstance(const, types.CodeType):
            yield from walk_code(const)


class SimHeap:
    """Simulated addresses for id(): reuse policy is part of the plan."""

    def __init__(self, policy="lifo", base=0x7F0000001000):
        self.policy = policy
        self.next = base
        self.step = -64 if policy == "down" else 64
        self.free = []
        self.map = {}

    def id(self, obj):
        rid = _real_id(obj)
        entry = self.map.get(rid)
        if entry is not None and entry[0]() is obj:
            return entry[1]
        if self.free and self.policy in ("lifo", "fifo"):
            addr = self.free.pop() if self.policy == "lifo" else self.free.pop(0)
        else:
            addr = self.next
            self.next += self.step
        try:
            ref = weakref.ref(obj, lambda _r, rid=rid, addr=addr: self._dead(rid, addr))
        except TypeError:
            if not self.free or self.free[-1] != addr:
                self.free.append(addr)
            return rid
        self.map[rid] = (ref, addr)
        return addr

    def _dead(self, rid, addr):
        entry = self.map.get(rid)
        if entry is not None and entry[1] == addr:
            del self.map[rid]
        self.free.append(addr)


_real_id = builtins.id
HEAP = [SimHeap()]


def _sim_id(obj):
    return HEAP[0].id(obj)


class Library:
    def __init__(self, root=ROOT):
        self.root = root
        self.sources = {}
        base = os.path.join(root, PKG)
        with warnings.catch_warnings():
            warnings.simplefilter("ignore")
            for d, dirs, files in sorted(os.walk(base)):
                dirs.sort()
                for name in sorted(files):
                    if not name.endswith(".py"):
                        continue
                    path = os.path.join(d, name)
                    mod = os.path.relpath(path, root)[:-3].replace(os.sep, ".")
                    is_pkg = mod.endswith(".__init__")
                    if is_pkg:
                        mod = mod[:-len(".__init__")]
                    with open(path, "rb") as fh:
                        src = fh.read()
                    self.sources[mod] = (compile(src, path, "exec", dont_inherit=True), is_pkg, path)
        self.builtins = dict(vars(builtins))
        self.builtins["id"] = _sim_id
        self.finder = _Finder(self)
        self.modules_hook = None

    def codes(self):
        for code, _p, _f in self.sources.values():
            yield from walk_code(code)

    def install(self):
        sys.meta_path.insert(0, self.finder)

    def purge(self):
        for name in [n for n in sys.modules if n == PKG or n.startswith(PKG + ".")]:
            del sys.modules[name]

    def new(self, names=None):
        """A fresh instance; leaves it active (in sys.modules)."""
        self.purge()
        for name in (names if names is not None else [f"{PKG}.{s}" for s in SUBPACKAGES]):
            importlib.import_module(name)
        return Instance(self)

    def activate(self, inst):
        self.purge()
        sys.modules.update(inst.modules)


class _Loader(importlib.machinery.SourceFileLoader):
    def __init__(self, lib, name, path):
        super().__init__(name, path)
        self._lib = lib

    def get_code(self, fullname):
        return self._lib.sources[fullname][0]

    def exec_module(self, module):
        module.__dict__["__builtins__"] = self._lib.builtins
        hook = self._lib.modules_hook
        if hook is not None:
            hook(module.__name__)
        exec(self._lib.sources[module.__name__][0], module.__dict__)


class _Finder:
    def __init__(self, lib):
        self.lib = lib

    def find_spec(self, name, path=None, target=None):
        src = self.lib.sources.get(name)
        if src is None:
            return None
        loader = _Loader(self.lib, name, src[2])
        return importlib.util.spec_from_file_location(
            name, src[2], loader=loader,
            submodule_search_locations=[os.path.dirname(src[2])] if src[1] else None)

    def invalidate_caches(self):
        pass


class Missing(Exception):
    """A name the catalogue knows is no longer in the library."""


class Instance:
    def __init__(self, lib):
        self.lib = lib
        self.modules = {n: m for n, m in sys.modules.items()
                        if n == PKG or n.startswith(PKG + ".")}
        self._cache = {}

    def get(self, path):
        """'heat_transfer.pipe_heat' -> object, searching every module if it moved."""
        try:
            return self._cache[path]
        except KeyError:
            pass
        mod, _, name = path.rpartition(".")
        m = self.modules.get(f"{PKG}.{mod}")
        obj = getattr(m, name, None) if m is not None else None
        if obj is None:
            for mname in sorted(self.modules):
                cand = self.modules[mname].__dict__.get(name)
                if cand is not None and not isinstance(cand, types.ModuleType):
                    obj = cand
                    break
        if obj is None:
            raise Missing(path)
        if callable(obj):
            self._cache[path] = obj
        return obj

    def cls(self, name):
        return self.get("units." + name)
