"""S23: objects and calls never influence each other through hidden shared state."""
from __future__ import annotations

import ast
from typing import Dict, Iterator, Set, Tuple

from ..effects import Effects, _split, is_fresh
from ..project import Cls, Func, Project, own_nodes
from ..report import Ctx
from .s01 import FRESH, _site_exempt

# shared object -> why it is shared on purpose
EXEMPT = {
    "DetectorModelRegistry#REGISTRY": "the registry of detector models, filled once by class decorators at import",
}
EXEMPT_CLS_STORE: Dict[Tuple[str, str], str] = {}
IMMUTABLE_CALLS = {"frozenset", "tuple", "namedtuple", "TypeVar", "getLogger", "auto", "int", "float", "str", "NewType", "Timedelta", "Timestamp", "float64",
                   "timedelta", "datetime"}


def mutable_value(v) -> bool:
    if isinstance(v, (ast.List, ast.Dict, ast.Set, ast.ListComp, ast.DictComp, ast.SetComp)):
        return True
    if isinstance(v, ast.Call):
        n = v.func.attr if isinstance(v.func, ast.Attribute) else getattr(v.func, "id", "")
        return n not in IMMUTABLE_CALLS
    if isinstance(v, ast.BinOp):
        return mutable_value(v.left) or mutable_value(v.right)
    return False


def shared_default(f: Func, p: str) -> bool:
    """the default value of p is one object shared by all calls: built in the signature, or a shared object named there"""
    d = f.default(p)
    if d is None or isinstance(d, ast.Constant):
        return False
    if mutable_value(d):
        return True
    if isinstance(d, ast.Name):
        if f.cls is not None and mutable_value(f.cls.class_attr(d.id)):
            return True
        v = f.module.globals.get(d.id)
        return v is not None and mutable_value(v)
    return False


def _name(loc: str) -> str:
    return loc.split(":", 2)[2]


def _root(loc: str) -> str:
    return _split(loc)[0]


def _exempt(root: str) -> bool:
    return root.split(":", 2)[2] in EXEMPT


def is_data_class(c: Cls) -> bool:
    for d in c.node.decorator_list:
        t = ast.unparse(d.func if isinstance(d, ast.Call) else d)
        if t.split(".")[-1] in ("dataclass", "attrs", "s", "define", "frozen"):
            return True
    return any("Enum" in b for k in c.mro for b in k.ext_bases)


def definite(c: Cls, e: Effects) -> Set[str]:
    """attributes the construction of a c always binds on the instance itself"""
    out: Set[str] = set()
    i = c.find("__init__")
    if i is None:
        return out
    s = e.sum[i.qual]
    for (l, a), av in s.stores.items():
        if l == i.self_name and all(x != f"{l}.{a}" for x, _ in av):
            out.add(a)
    return out


def plain_store_in_init(c: Cls, a: str) -> bool:
    """`self.a = ...` at the top level of a constructor in the MRO"""
    for k in c.mro:
        i = k.methods.get("__init__")
        if i is None:
            continue
        for st in i.node.body:
            if isinstance(st, (ast.Assign, ast.AnnAssign)) and st.value is not None:
                for t in (st.targets if isinstance(st, ast.Assign) else [st.target]):
                    if isinstance(t, ast.Attribute) and t.attr == a and isinstance(t.value, ast.Name) and t.value.id == i.self_name:
                        return True
    return False


def violations(prj: Project, e: Effects, count=lambda *_: None) -> Iterator:
    # 1. module-level and class-level objects reached by name, default arguments
    for q, s in sorted(e.sum.items()):
        f = prj.funcs[q]
        if isinstance(f.node, ast.Lambda):
            continue
        count("functions analysed")
        for m in sorted(s.muts.values()):
            r = _root(m.loc)
            if r.startswith("global:") and not _exempt(r):
                yield ("shared-object-modified", f"{_name(r)}@{m.site.rsplit(' in ', 1)[-1]}", m.site,
                       f"{f.short} modifies ({m.attr}) '{_name(r)}', which every user of the module shares")
            elif f.is_classmethod and m.loc == (f.posargs[0] if f.posargs else None) and f.name != "__init_subclass__":
                yield "class-attribute-rebound", f"{f.cls.name}.{m.attr}@{f.short}", m.site, f"{f.short} rebinds the class attribute '{m.attr}' shared by all instances"
        for n in own_nodes(f.node):
            if isinstance(n, ast.Global):
                stored = {x.id for x in own_nodes(f.node) if isinstance(x, ast.Name) and isinstance(x.ctx, (ast.Store, ast.Del))}
                for g in n.names:
                    if g in stored:
                        yield "module-variable-rebound", f"{g}@{f.short}", f.where(n), f"{f.short} rebinds the module-level variable '{g}'"
            if isinstance(n, ast.Attribute) and isinstance(n.ctx, (ast.Store, ast.Del)):
                v = n.value
                c = None
                if isinstance(v, ast.Attribute) and v.attr == "__class__" or (
                        isinstance(v, ast.Call) and isinstance(v.func, ast.Name) and v.func.id == "type" and len(v.args) == 1):
                    c = f.cls
                elif isinstance(v, (ast.Name, ast.Attribute)) and not (isinstance(v, ast.Name) and (v.id in f.params or v.id in prj.local_types(f))):
                    d = prj.dotted(v, f.module)
                    c = prj.resolve_class(d)
                    if c is None and d in prj.modules:
                        yield "module-variable-rebound", f"{d}.{n.attr}@{f.short}", f.where(n), f"{f.short} rebinds '{n.attr}' of module {d}"
                if c is not None and (c.name, n.attr) not in EXEMPT_CLS_STORE:
                    yield "class-attribute-rebound", f"{c.name}.{n.attr}@{f.short}", f.where(n), f"{f.short} rebinds the class attribute '{n.attr}' shared by all instances of {c.name}"
        # default arguments
        shared_defaults = {p for p in f.params if shared_default(f, p)}
        if shared_defaults:
            count("mutable default arguments", len(shared_defaults))
            for m in sorted(s.muts.values()):
                if _root(m.loc) in shared_defaults:
                    yield "default-argument-modified", f"{f.short}({_root(m.loc)})", m.site, f"{f.short} modifies ({m.attr}) the default value of '{_root(m.loc)}', shared by all calls"
    # 2. instance state that is really shared
    for c in sorted(prj.classes.values(), key=lambda c: c.qual):
        count("classes analysed")
        meths: Dict[str, Func] = {}
        for k in reversed(c.mro):
            meths.update(k.methods)
            meths.update({f"{n}=": s for n, s in k.setters.items()})
        cls_mut: Dict[str, Cls] = {}
        if not is_data_class(c):
            for k in reversed(c.mro):
                for a, v in k.class_attrs.items():
                    if v is not None and mutable_value(v) and a != "__slots__":
                        cls_mut[a] = k
        own: Dict[str, Set[str]] = {}
        cls_mut = {a: k for a, k in cls_mut.items() if f"{k.name}#{a}" not in EXEMPT}
        if cls_mut:
            dfn = definite(c, e)
            for a, k in cls_mut.items():
                count("class-level mutable attributes")
                if a not in dfn and not plain_store_in_init(c, a):
                    own.setdefault(a, set()).add(f"the class-level object {k.name}.{a}")
        for n, f in meths.items():
            if f.is_static or f.is_classmethod:
                continue
            dd = {p for p in f.params if shared_default(f, p)}
            for (l, a), av in e.sum[f.qual].stores.items():
                if l != f.self_name:
                    continue
                for x, mode in av:
                    if mode not in ("o", "b"):
                        continue
                    r = _root(x)
                    if r.startswith("global:") and not _exempt(r):
                        own.setdefault(a, set()).add(f"the module- or class-level object {_name(r)} (stored by {f.name})")
                    elif r in dd:
                        own.setdefault(a, set()).add(f"the default argument '{r}' of {f.name}")
        if not own:
            continue
        for n, f in meths.items():
            if f.is_static or f.is_classmethod:
                continue
            for m in sorted(e.sum[f.qual].muts.values()):
                r, comps = _split(m.loc)
                if r != f.self_name or not comps or comps[0] not in own or _site_exempt(m, f):
                    continue
                yield ("shared-instance-state", f"{c.name}.{comps[0]}@{m.site.rsplit(' in ', 1)[-1]}", m.site,
                       f"{c.name}.{f.name} modifies ({m.attr}) '{comps[0]}', which may be {', '.join(sorted(own[comps[0]]))}: all objects of the class change together")


def run(c: Ctx) -> None:
    c.rules.append(
        "With the interprocedural effect summaries (module-level, class-level and default-argument objects followed under every name), no function may modify "
        "such an object, rebind a module variable or class attribute, or modify through self an attribute that is not always bound to a fresh object of the instance.")
    _selftest(c)
    e = Effects(c.prj, shared=True, **FRESH)
    e.run()
    for rule, cons, where, why in violations(c.prj, e, c.count):
        c.find(rule, cons, where, why)
    n = sum(1 for m in c.prj.modules.values() for v in m.globals.values() if mutable_value(v))
    c.count("module-level mutable objects", n)
    c.notes["exemptions"] = EXEMPT
    c.assumptions += ["Effects of external callables on their arguments are limited to the table in sa/effects.py."]
    c.floor("module-level mutable objects", 25)
    c.floor("functions analysed", 900)


SELF = '''
from functools import lru_cache
from typing import Dict, List
TABLE = {"a": [1]}
COUNT = 0
class A:
    cache: Dict = {}
    names: List = []
    fresh: List = []
    def __init__(self, items=[], opts=None):
        self.fresh = []
        self.items = items
        self.opts = opts or TABLE
        self.copy = dict(TABLE)
        self._fill()
    def _fill(self):
        c = self.cache
        c["k"] = 1
    def add(self, x):
        self.fresh.append(x)
        self.items.append(x)
        self.opts["x"] = 1
        self.copy["x"] = 1
    def name(self):
        A.names.append(1)
    def total(self):
        type(self).count = 3
def put(k):
    TABLE[k] = 1
def inner(d):
    d["z"] = 1
def via():
    inner(TABLE)
def bump():
    global COUNT
    COUNT += 1
@lru_cache(None)
def table():
    return {"a": 1}
def grow(k):
    t = table()
    t[k] = 2
class B:
    def __init__(self, models=TABLE):
        self.models = models
    def drop(self, k):
        self.models.pop(k)
def pile(x, acc=[]):
    acc.append(x)
    return acc
def fine(x, acc=None):
    acc = acc or []
    acc.append(x)
    t = dict(TABLE)
    t["q"] = x
    return acc, t
'''


def _selftest(c: Ctx) -> None:
    p = Project(sources={"kats.t": SELF})
    e = Effects(p, shared=True, **FRESH)
    e.run()
    got = {x[1] for x in violations(p, e)}
    want = {"A.cache@A._fill", "A.items@A.add", "A.opts@A.add", "A#names@A.name", "A.count@A.total", "TABLE@put", "TABLE@inner", "COUNT@bump", "pile(acc)", "table()@grow", "B.models@B.drop"}
    c.selftest("hidden shared state is found: " + repr(sorted(want ^ got)), want == got)
