"""S24: the library's own code fits together.

Calls pass what the called function's signature accepts; what a function returns has as many parts
as its callers unpack; no local is read on a path that never assigned it; no name and no attribute
of the library's own objects is read that nothing defines; printf-style and str.format messages get
as many values as they have places."""
from __future__ import annotations

import ast
import re
import builtins
import os
import string
import symtable
from typing import Any, Dict, FrozenSet, Iterator, List, Optional, Set, Tuple

from ..cfg import CFG, Node, walk_now
from ..project import Cls, Func, Module, Project, own_nodes
from ..report import Ctx

OBJECT = {a for a in dir(object)} | {"__dict__", "__doc__", "__module__", "__annotations__", "__slots__", "__name__", "__qualname__", "__mro__",
                                     "__bases__", "__subclasses__", "mro", "__members__", "__wrapped__"}
DATACLASS = OBJECT | {"__dataclass_fields__", "__post_init__", "__dataclass_params__"}
NTUP = OBJECT | set(dir(tuple)) | {"_asdict", "_replace", "_fields", "_make", "_field_defaults"}
ENUM = OBJECT | {"value", "name", "_value_", "_name_", "_missing_", "__members__"}
EXC = OBJECT | set(dir(Exception))
PURE_BASES = {"object": OBJECT, "ABC": OBJECT, "Generic": OBJECT | {"__class_getitem__"}, "Protocol": OBJECT, "NamedTuple": NTUP, "Enum": ENUM,
              "IntEnum": ENUM | set(dir(int)), "Exception": EXC, "ValueError": EXC, "RuntimeError": EXC, "TypeError": EXC, "IntFlag": ENUM | set(dir(int)),
              "str": set(dir(str)), "dict": set(dir(dict)), "list": set(dir(list)), "NotImplementedError": EXC, "KeyError": EXC,
              "AttributeError": EXC, "Error": EXC, "Warning": EXC, "UserWarning": EXC, "tuple": set(dir(tuple))}


class Shapes:
    """what the classes of the library offer"""

    def __init__(self, prj: Project) -> None:
        self.prj = prj
        self._attrs: Dict[str, Optional[Set[str]]] = {}
        self.setattrs: Set[str] = set()
        self.stores: Dict[str, Set[str]] = {}           # attribute -> classes written from outside
        for f in prj.funcs.values():
            for n in own_nodes(f.node):
                if isinstance(n, ast.Attribute) and isinstance(n.ctx, ast.Store) and not (
                        isinstance(n.value, ast.Name) and n.value.id == f.self_name):
                    for t in prj.expr_types(n.value, f):
                        if t in prj.classes:
                            self.stores.setdefault(t, set()).add(n.attr)

    def own(self, c: Cls) -> Optional[Set[str]]:
        """attributes class c itself adds; None when it makes attributes at run time"""
        out: Set[str] = set(c.methods) | set(getattr(c, "class_annots", {}))
        for s in ast.walk(c.node):
            if isinstance(s, ast.ClassDef) and s is not c.node:
                out.add(s.name)
        for s in c.node.body:
            for n in ast.walk(s) if not isinstance(s, (ast.FunctionDef, ast.AsyncFunctionDef, ast.ClassDef)) else [s]:
                if isinstance(n, ast.Name) and isinstance(n.ctx, ast.Store):
                    out.add(n.id)
                if isinstance(n, (ast.FunctionDef, ast.AsyncFunctionDef)):
                    out.add(n.name)
                if isinstance(n, (ast.Import, ast.ImportFrom)):
                    out |= {(a.asname or a.name).split(".")[0] for a in n.names}
        if "__getattr__" in c.methods or "__getattribute__" in c.methods:
            return None
        for f in self.prj.funcs.values():
            if f.cls is not c:
                continue
            sn = f.self_name or (f.parent.self_name if f.parent is not None else None)
            if not sn:
                continue
            for n in ast.walk(f.node):
                if isinstance(n, ast.Attribute) and isinstance(n.ctx, (ast.Store, ast.Del)) and isinstance(n.value, ast.Name) and n.value.id == sn:
                    if n.attr == "__dict__":
                        return None
                    out.add(n.attr)
                if isinstance(n, ast.Call) and isinstance(n.func, ast.Name) and n.func.id == "setattr" and n.args:
                    if isinstance(n.args[0], ast.Name) and n.args[0].id == sn:
                        if len(n.args) > 1 and isinstance(n.args[1], ast.Constant):
                            out.add(n.args[1].value)
                        else:
                            return None
                if isinstance(n, ast.Call) and isinstance(n.func, ast.Attribute) and n.func.attr in ("update", "setdefault") and \
                        ast.unparse(n.func.value) in (f"{sn}.__dict__", f"vars({sn})"):
                    return None
                if isinstance(n, ast.Subscript) and isinstance(n.ctx, ast.Store) and ast.unparse(n.value) == f"{sn}.__dict__":
                    return None
        return out

    def plain_meta(self, k: Cls, e: ast.AST) -> bool:
        """a metaclass of the library that adds no attributes to the objects"""
        m = self.prj.resolve_class(self.prj.dotted(e, k.module) or "")
        if m is None:
            return False
        return all(ast.unparse(b).split("[")[0].split(".")[-1] in ("type", "ABCMeta", "Generic") for b in m.node.bases) and not any(
            isinstance(n, ast.Call) and isinstance(n.func, ast.Name) and n.func.id == "setattr"
            or isinstance(n, ast.Attribute) and isinstance(n.ctx, ast.Store) and not (isinstance(n.value, ast.Name) and n.value.id == "cls" and n.attr.isupper())
            or isinstance(n, ast.FunctionDef) and n.name in ("__getattr__", "__getattribute__", "__call__") for n in ast.walk(m.node))

    def attrs(self, c: Cls) -> Optional[Set[str]]:
        """every attribute an object of class c may have; None when that cannot be told"""
        if c.qual in self._attrs:
            return self._attrs[c.qual]
        out: Optional[Set[str]] = set(OBJECT)
        for k in c.mro:
            o = self.own(k)
            if o is None:
                out = None
                break
            out |= o | self.stores.get(k.qual, set())
            for b in k.node.bases:
                e = b.value if isinstance(b, ast.Subscript) else b
                d = self.prj.dotted(e, k.module) or ast.unparse(e)
                if self.prj.resolve_class(d) is not None:
                    continue
                last = d.split(".")[-1]
                if last in PURE_BASES:
                    out |= PURE_BASES[last]
                else:
                    out = None
                    break
            if out is None:
                break
            if k.node.keywords and any(kw.arg == "metaclass" and "ABCMeta" not in ast.unparse(kw.value) and not self.plain_meta(k, kw.value)
                                       for kw in k.node.keywords):
                out = None
                break
            if any("dataclass" in ast.unparse(x) for x in k.node.decorator_list):
                out |= DATACLASS
        self._attrs[c.qual] = out
        return out

    def family(self, c: Cls) -> Optional[Set[str]]:
        """attributes of c or of any class derived from it (what `self` may be inside c)"""
        out = self.attrs(c)
        if out is None:
            return None
        out = set(out)
        for s in c.all_subclasses():
            a = self.attrs(s)
            if a is None:
                return None
            out |= a
        return out


def fields(prj: Project, c: Cls) -> Optional[List[Tuple[str, bool, bool]]]:
    """(name, has default, keyword only) of the parameters a dataclass or NamedTuple constructor takes"""
    def is_dc(k: Cls) -> bool:
        return any("dataclass" in ast.unparse(x) or ast.unparse(x).split("(")[0] in ("attr.s", "attr.attrs", "attr.define", "attrs.define", "define", "attrs")
                   for x in k.node.decorator_list)
    dc = [k for k in c.mro if is_dc(k)]
    nt = any((prj.dotted(b, c.module) or "").split(".")[-1] == "NamedTuple" for b in c.node.bases)
    if not (dc and dc[0] is c) and not nt:
        return None
    out: Dict[str, Tuple[str, bool, bool]] = {}
    for k in reversed(c.mro):
        if k not in dc and not nt:
            continue
        kwo = any("kw_only=True" in ast.unparse(x) for x in k.node.decorator_list)
        for s in k.node.body:
            if isinstance(s, ast.AnnAssign) and isinstance(s.target, ast.Name):
                if "ClassVar" in ast.unparse(s.annotation):
                    continue
                if isinstance(s.value, ast.Call) and ast.unparse(s.value.func).split(".")[-1] in ("field", "ib", "attrib"):
                    kws = {x.arg: x.value for x in s.value.keywords}
                    if "init" in kws and isinstance(kws["init"], ast.Constant) and not kws["init"].value:
                        continue
                    nm = s.target.id
                    if ast.unparse(s.value.func).split(".")[-1] != "field":
                        nm = nm.lstrip("_")
                    out[s.target.id] = (nm, bool(s.value.args) or bool({"default", "default_factory", "factory"} & set(kws)), kwo)
                else:
                    out[s.target.id] = (s.target.id, s.value is not None, kwo)
    return list(out.values())


def misfit(call: ast.Call, pos: List[str], kwonly: List[str], defaults: Set[str], vararg: bool, kwarg: bool, posonly: Set[str] = frozenset()) -> Optional[str]:
    """why the call cannot be bound to the signature"""
    starpos = any(isinstance(a, ast.Starred) for a in call.args)
    starkw = any(k.arg is None for k in call.keywords)
    npos = sum(1 for a in call.args if not isinstance(a, ast.Starred))
    if npos > len(pos) and not vararg:
        return f"{npos} positional arguments for {len(pos)} parameters"
    given = set(pos[:npos]) if not starpos else set()
    for k in call.keywords:
        if k.arg is None:
            continue
        if k.arg in given:
            return f"parameter '{k.arg}' given twice"
        if k.arg not in set(pos) - set(posonly) and k.arg not in kwonly and not kwarg:
            return f"no parameter '{k.arg}'"
        given.add(k.arg)
    if not starpos and not starkw:
        miss = [p for p in pos + kwonly if p not in given and p not in defaults]
        if miss:
            return f"parameter '{miss[0]}' missing"
    elif not starpos:
        pass
    return None


def sig(g: Func, bound: bool) -> Tuple[List[str], List[str], Set[str], bool, bool, Set[str]]:
    a = g.node.args
    pos = list(g.posargs)
    df: Set[str] = set()
    allp = [x.arg for x in a.posonlyargs + a.args]
    for x in allp[len(allp) - len(a.defaults):] if a.defaults else []:
        df.add(x)
    for x, d in zip(a.kwonlyargs, a.kw_defaults):
        if d is not None:
            df.add(x.arg)
    if bound and pos:
        pos = pos[1:]
    return pos, list(g.kwonly), df, g.vararg is not None, g.kwarg is not None, {x.arg for x in a.posonlyargs}


class Rule:
    def __init__(self, prj: Project) -> None:
        self.prj = prj
        self.sh = Shapes(prj)
        self.found: List[Tuple[str, str, str, str]] = []
        self.n: Dict[str, int] = {}
        self.flow = None
        self._sure: Dict[Tuple[str, str], bool] = {}
        self._using: Dict[Any, bool] = {}
        self._ensured: Dict[str, FrozenSet] = {}

    def cnt(self, k: str, n: int = 1) -> None:
        self.n[k] = self.n.get(k, 0) + n

    def run(self) -> None:
        for f in self.prj.funcs.values():
            self.cnt("functions analysed")
            self.calls(f)
            if not isinstance(f.node, ast.Lambda):
                self.locals(f)
            self.attributes(f)
            self.unpacking(f)
            self.returns(f)
            self.formats(f)
        for c in self.prj.classes.values():
            self.constructor(c)
        for m in self.prj.modules.values():
            self.names(m)

    # ---------------------------------------------------------------- names
    def names(self, m: Module) -> None:
        """every name a function reads is its own, its module's or Python's"""
        if any(isinstance(n, ast.ImportFrom) and any(a.name == "*" for a in n.names) for n in ast.walk(m.tree)):
            return
        top = symtable.symtable(ast.unparse(m.tree), m.name, "exec")
        known = {s.get_name() for s in top.get_symbols() if s.is_assigned() or s.is_imported() or s.is_namespace()}
        known |= set(dir(builtins)) | {"__file__", "__name__", "__doc__", "__package__", "__spec__", "__path__", "__loader__", "__class__", "__annotations__"}
        lost: Set[str] = set()
        todo = list(top.get_children())
        while todo:
            t = todo.pop()
            todo += t.get_children()
            for s in t.get_symbols():
                if s.is_global():
                    if s.is_declared_global() and s.is_assigned():
                        known.add(s.get_name())
                    elif s.is_referenced():
                        self.cnt("module-level names read")
                        lost.add(s.get_name())
        lost -= known
        if not lost:
            return
        for f in self.prj.funcs.values():
            if f.module is not m:
                continue
            bound: Set[str] = set()
            g: Optional[Func] = f
            while g is not None:
                bound |= self.real_stores(g) | set(g.params) | {x for x in (g.vararg, g.kwarg) if x}
                g = g.parent
            inner: Set[ast.AST] = set()
            for n in own_nodes(f.node):
                vs: Set[str] = set()
                if isinstance(n, (ast.ListComp, ast.SetComp, ast.DictComp, ast.GeneratorExp)):
                    vs = {x.id for gg in n.generators for x in ast.walk(gg.target) if isinstance(x, ast.Name)}
                elif isinstance(n, ast.Lambda):
                    vs = {a.arg for a in ast.walk(n.args) if isinstance(a, ast.arg)}
                if vs & lost:
                    inner |= {x for x in ast.walk(n) if isinstance(x, ast.Name) and x.id in vs}
            for n in own_nodes(f.node):
                if isinstance(n, ast.Name) and isinstance(n.ctx, ast.Load) and n.id in lost and n.id not in bound and n not in inner:
                    self.report("name", f, n.id, n, f"'{n.id}' is neither a local of {f.short} nor defined in {m.name}")

    def report(self, rule: str, f: Func, what: str, n: ast.AST, why: str) -> None:
        self.found.append((rule, f"{f.qual}|{what}", f.where(n), why))

    # ---------------------------------------------------------------- calls
    def calls(self, f: Func) -> None:
        for n in own_nodes(f.node):
            if isinstance(n, ast.Call):
                for why, who in self.call(n, f):
                    self.report("call", f, f"{ast.unparse(n.func)}: {why}", n, f"the call of {who} cannot be bound: {why}")
                j = self.job(n, f)
                if j is not None:
                    for why, who in self.call(j, f):
                        self.report("call", f, f"{ast.unparse(j.func)}: {why}", n, f"the deferred call of {who} cannot be bound: {why}")

    def job(self, n: ast.Call, f: Func) -> Optional[ast.Call]:
        """the call a worker will make: apply_async(f, args=(..), kwds={..}), submit(f, ..), starmap(f, [(..)])"""
        if not isinstance(n.func, ast.Attribute) or not n.args or not isinstance(n.args[0], (ast.Name, ast.Attribute)):
            return None
        kw = {k.arg: k.value for k in n.keywords}
        a = n.func.attr
        if a == "apply_async":
            args = kw.get("args", n.args[1] if len(n.args) > 1 else ast.Tuple(elts=[], ctx=ast.Load()))
            kwds = kw.get("kwds", n.args[2] if len(n.args) > 2 else ast.Dict(keys=[], values=[]))
            if not isinstance(args, (ast.Tuple, ast.List)) or not isinstance(kwds, ast.Dict) or any(
                    not (isinstance(k, ast.Constant) and isinstance(k.value, str)) for k in kwds.keys):
                return None
            c = ast.Call(func=n.args[0], args=list(args.elts), keywords=[ast.keyword(arg=k.value, value=v) for k, v in zip(kwds.keys, kwds.values)])
        elif a == "submit":
            c = ast.Call(func=n.args[0], args=list(n.args[1:]), keywords=list(n.keywords))
        elif a in ("starmap", "starmap_async") and len(n.args) > 1:
            it = n.args[1]
            if isinstance(it, ast.Name):
                vs = [x.value for x in own_nodes(f.node) if isinstance(x, ast.Assign) and any(isinstance(t, ast.Name) and t.id == it.id for t in x.targets)]
                it = vs[0] if len(vs) == 1 else it
            while isinstance(it, ast.Call) and isinstance(it.func, ast.Name) and it.func.id in ("list", "tuple") and len(it.args) == 1:
                it = it.args[0]
            if isinstance(it, (ast.ListComp, ast.GeneratorExp)) and isinstance(it.elt, (ast.Tuple, ast.List)):
                c = ast.Call(func=n.args[0], args=list(it.elt.elts), keywords=[])
            elif isinstance(it, ast.Call) and isinstance(it.func, ast.Name) and it.func.id == "zip":
                c = ast.Call(func=n.args[0], args=list(it.args), keywords=[])
            else:
                return None
        elif a in ("map", "imap", "imap_unordered", "map_async") and len(n.args) > 1 and isinstance(n.func.value, ast.Name) and "pool" in n.func.value.id.lower():
            c = ast.Call(func=n.args[0], args=[n.args[1]], keywords=[])
        else:
            return None
        return ast.copy_location(c, n)

    def call(self, n: ast.Call, f: Func) -> Iterator[Tuple[str, str]]:
        fn = n.func
        prj = self.prj
        # a class, by name
        c = None
        if isinstance(fn, (ast.Name, ast.Attribute)):
            root = fn
            while isinstance(root, ast.Attribute):
                root = root.value
            if isinstance(root, ast.Name) and root.id not in prj.local_types(f) and not self.is_local(root.id, f):
                c = prj.resolve_class(prj.dotted(fn, f.module))
            elif isinstance(fn, ast.Name):
                ts = prj.local_types(f).get(fn.id, set())
                if fn.id == "cls" and f.is_classmethod:
                    c = f.cls
        if c is not None:
            i = c.find("__init__")
            fl = fields(prj, c) if "__init__" not in c.methods else None
            self.cnt("calls bound")
            if fl is not None:
                w = misfit(n, [x for x, _, k in fl if not k], [x for x, _, k in fl if k], {x for x, d, _ in fl if d}, False, False)
            elif i is not None:
                if self.decorated(i):
                    return
                w = misfit(n, *sig(i, True))
            else:
                if self.sh.attrs(c) is None or "__new__" in c.methods or any(
                        (prj.dotted(b, k.module) or "").split(".")[-1] in ("Enum", "IntEnum", "NamedTuple", "Protocol", "dict", "list", "str") or "Exception" in ast.unparse(b) or "Error" in ast.unparse(b)
                        for k in c.mro for b in k.node.bases):
                    return
                w = "takes no arguments" if n.args or n.keywords else None
            if w is not None:
                yield w, c.name
            return
        if isinstance(fn, ast.Subscript) or isinstance(fn, ast.Call):
            return
        gs: List[Func] = []
        bound = False
        if isinstance(fn, ast.Name):
            if prj.local_types(f).get(fn.id):
                return
            gs = prj.resolve_call(n, f, cha=False)
            if len(gs) > 1:
                return
        elif isinstance(fn, ast.Attribute):
            gs = prj.resolve_call(n, f, cha=False) if self.sure(fn.value, f) else []
            if isinstance(fn.value, ast.Name) and fn.value.id == f.self_name and f.parent is None and f.cls is not None and not f.is_static:
                g0 = f.cls.find(fn.attr)
                gs = [g0] if g0 is not None else []
                # overriding methods of derived classes are called through the same line
                for s in f.cls.all_subclasses():
                    if s.name.startswith("_") or f.name in s.methods and f.cls is not s:
                        continue
                    if s.find(fn.attr) is not None and s.find(fn.attr) not in gs and s.find(f.name) is f:
                        gs.append(s.find(fn.attr))
        for g in gs:
            if self.decorated(g) or g.is_property or isinstance(g.node, ast.Lambda):
                continue
            b = g.cls is not None and g.parent is None and not g.is_static
            if b and isinstance(fn, ast.Attribute):
                d = prj.dotted(fn.value, f.module)
                cc = prj.resolve_class(d) if d and not (isinstance(fn.value, ast.Name) and self.is_local(fn.value.id, f)) else None
                if cc is not None and not g.is_classmethod:
                    b = False               # Class.method(obj, ...)
            self.cnt("calls bound")
            w = misfit(n, *sig(g, b))
            if w is not None:
                yield w, g.short

    def sure(self, e: ast.AST, f: Func) -> bool:
        """every binding of every name in `e` has a known type"""
        for x in ast.walk(e):
            if isinstance(x, ast.Name) and isinstance(x.ctx, ast.Load):
                if (f.qual, x.id) not in self._sure:
                    self._sure[(f.qual, x.id)] = self._sure1(x.id, f)
                if not self._sure[(f.qual, x.id)]:
                    return False
        return True

    def _sure1(self, name: str, f: Func) -> bool:
        if name == f.self_name and f.parent is None:
            return True
        g: Optional[Func] = f
        while g is not None:
            bound = False
            if name in g.posargs or name in g.kwonly:
                if g.self_name == name and g.parent is None:
                    return True
                if not self.prj.ann_types(g.annotation(name), g.module):
                    return False
                bound = True
            if name in (g.vararg, g.kwarg):
                return False
            for n in own_nodes(g.node):
                if isinstance(n, ast.Lambda) and any(a.arg == name for a in n.args.args):
                    return False
                if isinstance(n, ast.Assign):
                    for t in n.targets:
                        if isinstance(t, ast.Name) and t.id == name:
                            bound = True
                            if not self.prj.expr_types(n.value, g):
                                return False
                        elif isinstance(t, (ast.Tuple, ast.List)) and any(isinstance(y, ast.Name) and y.id == name and isinstance(y.ctx, ast.Store) for y in ast.walk(t)):
                            return False
                elif isinstance(n, (ast.AnnAssign, ast.AugAssign, ast.NamedExpr)) and isinstance(n.target, ast.Name) and n.target.id == name:
                    bound = True
                    if not isinstance(n, ast.AnnAssign) and not self.prj.expr_types(n.value, g):
                        return False
                elif isinstance(n, (ast.For, ast.comprehension)) and any(isinstance(y, ast.Name) and y.id == name for y in ast.walk(n.target)):
                    bound = True
                    if not isinstance(n.target, ast.Name) or not any(t.startswith("elem:") for t in self.prj.expr_types(n.iter, g)):
                        return False
                elif isinstance(n, ast.withitem) and n.optional_vars is not None and any(
                        isinstance(y, ast.Name) and y.id == name for y in ast.walk(n.optional_vars)):
                    bound = True
                elif isinstance(n, ast.ExceptHandler) and n.name == name:
                    return False
            if bound:
                return True
            g = g.parent
        return True

    def is_local(self, name: str, f: Func) -> bool:
        g: Optional[Func] = f
        while g is not None:
            if name in g.params or name in (g.vararg, g.kwarg):
                return True
            for n in own_nodes(g.node):
                if isinstance(n, ast.Name) and isinstance(n.ctx, ast.Store) and n.id == name:
                    return True
            g = g.parent
        return False

    @staticmethod
    def decorated(g: Func) -> bool:
        return any(d.split("(")[0].split(".")[-1] not in ("staticmethod", "classmethod", "abstractmethod", "property", "wraps", "lru_cache", "cache",
                                                         "jit", "njit", "overload", "setter", "cached_property", "override") for d in g.decos)

    # --------------------------------------------------------------- locals
    def locals(self, f: Func) -> None:
        stores: Set[str] = set()
        skip: Set[str] = set(f.posargs) | set(f.kwonly) | {f.vararg, f.kwarg}
        for n in own_nodes(f.node):
            if isinstance(n, (ast.Global, ast.Nonlocal)):
                skip |= set(n.names)
        comp: Dict[int, Set[str]] = {}
        for n in own_nodes(f.node):
            if isinstance(n, ast.Name) and isinstance(n.ctx, ast.Store):
                stores.add(n.id)
            elif isinstance(n, (ast.FunctionDef, ast.AsyncFunctionDef, ast.ClassDef)):
                stores.add(n.name)
            elif isinstance(n, (ast.Import, ast.ImportFrom)):
                stores |= {(a.asname or a.name).split(".")[0] for a in n.names}
            elif isinstance(n, ast.ExceptHandler) and n.name:
                stores.add(n.name)
        compvars: Set[str] = set()
        for n in own_nodes(f.node):
            if isinstance(n, (ast.ListComp, ast.SetComp, ast.DictComp, ast.GeneratorExp, ast.Lambda)):
                if isinstance(n, ast.Lambda):
                    compvars |= {a.arg for a in n.args.args}
                    continue
                for g in n.generators:
                    compvars |= {x.id for x in ast.walk(g.target) if isinstance(x, ast.Name)}
        # names that are local only because of a comprehension are not locals of the function
        real = self.real_stores(f)
        names = (stores & real) - skip
        if not names:
            return
        cfg = CFG(f.node.body)
        self.cnt("locals followed", len(names))
        for v in sorted(names):
            r = self.unassigned(cfg, f, v)
            if r is not None:
                self.report("unassigned", f, v, r, f"'{v}' is read here on a path that never assigned it")

    @staticmethod
    def real_stores(f: Func) -> Set[str]:
        out: Set[str] = set()

        def visit(n: ast.AST) -> None:
            for c in ast.iter_child_nodes(n):
                if isinstance(c, (ast.FunctionDef, ast.AsyncFunctionDef, ast.ClassDef)):
                    out.add(c.name)
                    continue
                if isinstance(c, (ast.Lambda,)):
                    continue
                if isinstance(c, (ast.ListComp, ast.SetComp, ast.DictComp, ast.GeneratorExp)):
                    for x in ast.walk(c):
                        if isinstance(x, ast.NamedExpr):
                            out.add(x.target.id)
                    continue
                if isinstance(c, ast.Name) and isinstance(c.ctx, ast.Store):
                    out.add(c.id)
                if isinstance(c, (ast.Import, ast.ImportFrom)):
                    out.update((a.asname or a.name).split(".")[0] for a in c.names)
                if isinstance(c, ast.ExceptHandler) and c.name:
                    out.add(c.name)
                visit(c)
        visit(f.node)
        return out

    @staticmethod
    def reads(e: ast.AST, v: str) -> Optional[ast.AST]:
        """a read of v evaluated with e (nested functions and lambdas run later)"""
        def visit(n: ast.AST, hidden: bool) -> Optional[ast.AST]:
            if isinstance(n, (ast.Lambda, ast.FunctionDef, ast.AsyncFunctionDef, ast.ClassDef)):
                return None
            if isinstance(n, (ast.ListComp, ast.SetComp, ast.DictComp, ast.GeneratorExp)):
                if any(isinstance(x, ast.Name) and x.id == v for g in n.generators for x in ast.walk(g.target)):
                    return visit(n.generators[0].iter, hidden)
            if isinstance(n, ast.Name) and n.id == v and isinstance(n.ctx, (ast.Load, ast.Del)):
                return n
            for c in ast.iter_child_nodes(n):
                r = visit(c, hidden)
                if r is not None:
                    return r
            return None
        return visit(e, False)

    def unassigned(self, cfg: CFG, f: Func, v: str) -> Optional[ast.AST]:
        return self.walk(cfg, f, v)

    def walk(self, cfg: CFG, f: Func, v: Any, init: FrozenSet = frozenset(), mode: Any = None) -> Optional[ast.AST]:
        """v a name: a read of it that some path reaches without an assignment; v (self, attribute,
        guarded): the same for an attribute; v None: a path that falls off the end. `init`: what is known
        at entry; `mode`: a list collects what is known where the function ends without the attribute
        assigned; a class follows calls of its private methods for reads"""
        attr = v if isinstance(v, tuple) else None
        outs = mode if isinstance(mode, list) else None

        def assigns(n: Node) -> bool:
            s = n.ast
            if v is None:
                return isinstance(s, ast.Return)
            if attr is not None:
                for e in ([s.target] if n.kind == "iter" else cfg.code(n)):
                    for x in walk_now(e):
                        if isinstance(x, ast.Attribute) and isinstance(x.ctx, ast.Store) and x.attr == attr[1] and isinstance(x.value, ast.Name) and x.value.id == attr[0]:
                            return True
                        if isinstance(x, ast.Call):
                            if isinstance(x.func, ast.Attribute) and isinstance(x.func.value, ast.Call) and ast.unparse(x.func.value.func) == "super" \
                                    and not self.prj.resolve_call(x, f):
                                continue
                            gs = self.prj.resolve_call(x, f)
                            if any(g.cls is not None and f.cls is not None and (g.cls in f.cls.mro or f.cls in g.cls.mro) and self.sets(g, attr[1], set())
                                   for g in gs):
                                return True
                            if isinstance(x.func, ast.Name) and x.func.id == "setattr":
                                return True
                return False
            if n.kind == "iter":
                return False
            if n.kind == "with":
                return any(i.optional_vars is not None and any(isinstance(x, ast.Name) and x.id == v for x in ast.walk(i.optional_vars)) for i in s.items)
            if n.kind == "handler":
                return s.name == v
            for e in cfg.code(n):
                if isinstance(e, (ast.FunctionDef, ast.AsyncFunctionDef, ast.ClassDef)):
                    pass
                for x in walk_now(e):
                    if isinstance(x, ast.Name) and x.id == v and isinstance(x.ctx, ast.Store):
                        return True
            if isinstance(s, (ast.FunctionDef, ast.AsyncFunctionDef, ast.ClassDef)) and n.kind == "stmt":
                return s.name == v
            if isinstance(s, (ast.Import, ast.ImportFrom)):
                return any((a.asname or a.name).split(".")[0] == v for a in s.names)
            return False
        seen: Set[Tuple[int, FrozenSet]] = set()
        chain = chains(f)
        todo: List[Tuple[Node, FrozenSet[Tuple[str, bool]]]] = [(cfg.entry, init)]
        while todo:
            n, fs = todo.pop()
            if n is cfg.exit and v is None:
                return f.node
            if n is cfg.exit and outs is not None:
                outs.append(fs)
            if n is cfg.exit or n is cfg.raised:
                continue
            if (id(n), fs) in seen or len(seen) > 6000:
                continue
            seen.add((id(n), fs))
            for e in cfg.code(n) if isinstance(v, str) else []:
                r = self.reads(e, v)
                if r is not None and fs and r in dead(e, fs):
                    r = None
                if r is not None and isinstance(e, ast.AnnAssign) and e.value is None:
                    r = None
                if r is not None:
                    if isinstance(e, ast.AugAssign) or True:
                        return r
                if isinstance(e, ast.AugAssign) and isinstance(e.target, ast.Name) and e.target.id == v:
                    return e
            if attr is not None and outs is None and not assigns(n):
                for e in cfg.code(n):
                    gone = dead(e, fs) if fs else set()
                    for x in walk_now(e):
                        if x in gone:
                            continue
                        if mode is not None and isinstance(x, ast.Call) and isinstance(x.func, ast.Attribute) and isinstance(x.func.value, ast.Name) \
                                and x.func.value.id == attr[0] and x.func.attr.startswith("_"):
                            h = mode.find(x.func.attr)
                            if h is not None and h is not f and self.using(mode, h, attr[1], fs, attr[0]):
                                return x
                        if isinstance(x, ast.Attribute) and isinstance(x.ctx, ast.Load) and x.attr == attr[1] and isinstance(x.value, ast.Name) \
                                and x.value.id == attr[0] and x not in attr[2]:
                            return x
            # an exception may strike before or after the assignment
            if v is not None and self.ends(n, f):
                continue
            if v is None and self.ends(n, f):
                continue
            if n.exc and self.mayraise(cfg, n):
                for x in n.exc:
                    if x.kind == "handler" or x is not cfg.raised:
                        todo.append((x, fs))
            if assigns(n) and not (isinstance(n.ast, ast.AnnAssign) and n.ast.value is None):
                continue
            if n.kind == "iter":
                tv = isinstance(v, str) and any(isinstance(x, ast.Name) and x.id == v for x in ast.walk(n.ast.target)) or attr is not None and assigns(n)
                key = ("iter:%d" % n.ast.lineno + ast.unparse(n.ast.iter), True)
                if not tv:
                    todo.append((n.true, fs | {key}))
                if key in fs:               # a loop is taken to run at least once
                    todo.append((n.false, fs))
                continue
            if n.kind == "test" and isinstance(n.ast, (ast.If, ast.While)):
                t = n.ast.test
                for val, nx in ((True, n.true), (False, n.false)):
                    if nx not in n.succ:
                        continue
                    if not val and n.ast in chain:
                        continue                # the last arm of an if/elif over the values of one thing
                    add = implied(t, val)
                    if isinstance(n.ast, ast.While):
                        k = (f"while:{n.ast.lineno}", True)
                        if val:
                            todo.append((nx, fs | {k}))
                        elif k in fs:
                            todo.append((nx, fs))
                        continue
                    if any((x, not b) in fs for x, b in add):
                        continue
                    if decided(t, fs) is (not val):
                        continue
                    if clash(fs | add):
                        continue
                    todo.append((nx, fs | add))
                continue
            if n.kind == "stmt" and isinstance(n.ast, ast.Expr) and isinstance(n.ast.value, ast.Call):
                fs = fs | self.ensured(n.ast.value, f)
                if clash(fs):
                    continue
            if n.kind == "stmt" and isinstance(n.ast, ast.Assert):
                if decided(n.ast.test, fs) is False:
                    continue
                fs = fs | implied(n.ast.test, True)
                if clash(fs):
                    continue
            if n.kind == "stmt" and (fs or isinstance(n.ast, (ast.Assign, ast.AnnAssign))):
                bound = {x.id if isinstance(x, ast.Name) else x.attr for e in cfg.code(n) for x in walk_now(e)
                         if isinstance(x, (ast.Name, ast.Attribute)) and isinstance(getattr(x, "ctx", None), ast.Store)}
                if bound:
                    fs = frozenset(q for q in fs if q[0].startswith(("iter:", "while:")) or not (bound & q_names(q[0].lstrip("="))))
                if isinstance(n.ast, (ast.Assign, ast.AnnAssign)) and isinstance(n.ast.value, ast.Constant):
                    for t in n.ast.targets if isinstance(n.ast, ast.Assign) else [n.ast.target]:
                        if isinstance(t, ast.Name):
                            fs = fs | {("=" + t.id, n.ast.value.value)}
                        elif isinstance(t, ast.Attribute) and isinstance(t.value, ast.Name):
                            fs = fs | {("=" + ast.unparse(t), n.ast.value.value)}
                if isinstance(n.ast, (ast.Assign, ast.AnnAssign)) and isinstance(n.ast.value, ast.Name):
                    for t in n.ast.targets if isinstance(n.ast, ast.Assign) else [n.ast.target]:
                        if isinstance(t, ast.Attribute) and isinstance(t.value, ast.Name):
                            fs = fs | renamed(fs, n.ast.value.id, ast.unparse(t))
            for x in n.succ:
                todo.append((x, fs))
        return None

    def ends(self, n: Node, f: Func) -> bool:
        """a call that never returns"""
        if n.kind != "stmt" or not isinstance(n.ast, ast.Expr) or not isinstance(n.ast.value, ast.Call):
            return False
        if self.flow is None:
            from ..flow import Flow
            self.flow = Flow(self.prj)
        gs = self.prj.resolve_call(n.ast.value, f)
        return bool(gs) and all(g.qual in self.flow.noreturn for g in gs) or ast.unparse(n.ast.value.func) in ("sys.exit", "exit")

    @staticmethod
    def mayraise(cfg: CFG, n: Node) -> bool:
        return isinstance(n.ast, (ast.Raise, ast.Assert)) or any(isinstance(x, (ast.Call, ast.Subscript, ast.Attribute, ast.BinOp))
                                                                 for e in cfg.code(n) for x in walk_now(e))

    # ------------------------------------------------------------ attributes
    def attributes(self, f: Func) -> None:
        guarded = self.guarded(f)
        for d in getattr(f.node, "decorator_list", []):
            guarded |= set(ast.walk(d))
        for n in own_nodes(f.node):
            if not isinstance(n, ast.Attribute) or not isinstance(n.ctx, ast.Load) or n in guarded:
                continue
            if n.attr.startswith("__") and n.attr.endswith("__"):
                continue
            own: Func = f
            while own.parent is not None:
                own = own.parent
            sn = own.self_name
            if f.parent is not None and (sn in f.posargs or sn in f.kwonly):
                sn = None
            if isinstance(n.value, ast.Name) and sn and n.value.id == sn and f.cls is not None and not f.is_classmethod:
                fam = self.sh.family(f.cls)
                if fam is None:
                    continue
                self.cnt("attribute reads resolved")
                if n.attr not in fam:
                    self.report("attribute", f, f"{ast.unparse(n)}", n, f"no method or assignment of {f.cls.name} or its subclasses defines '{n.attr}'")
                continue
            if not self.sure(n.value, f):
                continue
            ts = self.prj.expr_types(n.value, f)
            cs = [self.prj.classes[t] for t in ts if t in self.prj.classes]
            if not cs or len([t for t in ts if not t.startswith("elem:") and t != "None"]) != len(cs):
                continue
            fams = [self.sh.family(c) for c in cs]
            if any(x is None for x in fams):
                continue
            self.cnt("attribute reads resolved")
            if all(n.attr not in x for x in fams):
                self.report("attribute", f, f"{ast.unparse(n)}", n, f"{', '.join(c.name for c in cs)} has no attribute '{n.attr}'")

    @staticmethod
    def guarded(f: Func) -> Set[ast.AST]:
        """attribute reads under hasattr or inside try/except AttributeError"""
        out: Set[ast.AST] = set()
        for n in own_nodes(f.node):
            if isinstance(n, ast.If) and "hasattr(" in ast.unparse(n.test):
                for b in n.body + n.orelse:
                    out |= set(ast.walk(b))
            if isinstance(n, (ast.IfExp, ast.BoolOp)) and "hasattr(" in ast.unparse(n):
                out |= set(ast.walk(n))
            if isinstance(n, ast.Try) and any(h.type is not None and "AttributeError" in ast.unparse(h.type) for h in n.handlers):
                for b in n.body:
                    out |= set(ast.walk(b))
        return out

    # ---------------------------------------------------------------- returns
    def returns(self, f: Func) -> None:
        """a function that promises a value gives one on every path"""
        r = getattr(f.node, "returns", None)
        if r is None or f.is_abstract or f.is_overload or any(isinstance(n, (ast.Yield, ast.YieldFrom)) for n in own_nodes(f.node)):
            return
        txt = ast.unparse(r)
        if txt in ("None", "NoReturn", "Any", "object", "'None'") or "Optional" in txt or "None" in txt or "NoReturn" in txt or "Any" == txt.split(".")[-1]:
            return
        rets = [n for n in own_nodes(f.node) if isinstance(n, ast.Return)]
        if all(isinstance(b, (ast.Pass, ast.Raise)) or isinstance(b, ast.Expr) and isinstance(b.value, (ast.Constant, ast.Call)) for b in f.node.body):
            return                      # stubs and protocol bodies
        self.cnt("promised results followed")
        for n in rets:
            if n.value is None or isinstance(n.value, ast.Constant) and n.value.value is None:
                self.report("no-result", f, "return", n, f"{f.short} promises {txt} and returns nothing here")
        at = self.walk(CFG(f.node.body), f, None)
        if at is not None:
            self.report("no-result", f, "end", f.node, f"{f.short} promises {txt} and can end without returning it")

    # ----------------------------------------------------------- constructors
    def constructor(self, c: Cls) -> None:
        """an attribute read while the object is being built was assigned before"""
        f = c.methods.get("__init__")
        if f is None or self.sh.attrs(c) is None or not f.self_name:
            return
        sn = f.self_name
        cls_level: Set[str] = set()
        for k in c.mro:
            cls_level |= set(k.methods) | set(k.class_attrs)
            for s in k.node.body:
                if isinstance(s, ast.AnnAssign) and isinstance(s.target, ast.Name) and s.value is not None:
                    cls_level.add(s.target.id)
        for s in c.all_subclasses():
            cls_level |= set(s.class_attrs)
        reads = {n.attr for n in own_nodes(f.node) if isinstance(n, ast.Attribute) and isinstance(n.ctx, ast.Load)
                 and isinstance(n.value, ast.Name) and n.value.id == sn}
        guarded = self.guarded(f)
        cfg = CFG(f.node.body)
        for a in sorted(reads - cls_level - OBJECT):
            self.cnt("attributes followed through construction")
            r = self.walk(cfg, f, (sn, a, guarded))
            if r is not None:
                self.report("unset", f, f"{sn}.{a}", r, f"{sn}.{a} is read here before the constructor has assigned it")
        stores = {n.attr for n in own_nodes(f.node) if isinstance(n, ast.Attribute) and isinstance(n.ctx, ast.Store)
                  and isinstance(n.value, ast.Name) and n.value.id == sn}
        lost: Dict[str, Set[str]] = {}
        alias: List[Tuple[str, str]] = []
        binds: Dict[str, int] = {}
        for n in own_nodes(f.node):
            if isinstance(n, (ast.Name, ast.Attribute)) and isinstance(n.ctx, ast.Store):
                binds[ast.unparse(n)] = binds.get(ast.unparse(n), 0) + 1
        for n in own_nodes(f.node):
            if isinstance(n, (ast.Assign, ast.AnnAssign)) and isinstance(n.value, ast.Name) and n.value.id in f.params and n.value.id not in binds:
                for t in n.targets if isinstance(n, ast.Assign) else [n.target]:
                    if isinstance(t, ast.Attribute) and binds.get(ast.unparse(t)) == 1:
                        alias.append((n.value.id, ast.unparse(t)))
        for a in sorted(stores - cls_level - OBJECT):
            self.cnt("attributes left by construction")
            outs: List[FrozenSet] = []
            self.walk(cfg, f, (sn, a, guarded), frozenset(), outs)
            for fs in outs:
                for x, y in alias:
                    fs = fs | renamed(fs, x, y)
                for k in [c] + list(c.all_subclasses()):
                    if k is not c and k.find("__init__") is not f:
                        continue
                    for m in sorted({m for x in k.mro for m in x.methods if m != "__init__" and not (m.startswith("_") and not m.startswith("__"))}):
                        g = k.find(m)
                        if self.using(k, g, a, fs, sn):
                            lost.setdefault(g.short, set()).add(a)
        told: Set[str] = set()
        for who in sorted(lost, key=lambda w: (-len(lost[w]), w)):
            if not lost[who] <= told:
                told |= lost[who]
                names = ", ".join(sorted(lost[who]))
                self.report("half-set", f, f"{who}: {names}", f.node, f"{names} assigned on some paths of the constructor only, and {who} reads what is missing")

    def using(self, k: Cls, g: Func, a: str, fs: FrozenSet, sn: str) -> bool:
        """method g of an object of class k, of which fs is known, may read self.a before it is assigned"""
        if not g.self_name or g.is_static or isinstance(g.node, ast.Lambda) or g.is_abstract:
            return False
        if not self.mentions(k, g, a, frozenset()):
            return False
        s = g.self_name
        known = frozenset((re.sub(r"(?<![\w.])%s\." % re.escape(sn), s + ".", t), v) for t, v in fs
                          if not t.startswith(("iter:", "while:")) and only_self(t.lstrip("="), sn))
        key = (k.qual, g.qual, a, known)
        if key not in self._using:
            self._using[key] = False
            self._using[key] = self.walk(CFG(g.node.body), g, (s, a, self.guarded(g)), known, k) is not None
        return self._using[key]

    def ensured(self, call: ast.Call, f: Func) -> FrozenSet:
        """what holds of self once a checking method returned"""
        fn = call.func
        if not (isinstance(fn, ast.Attribute) and isinstance(fn.value, ast.Name) and f.cls is not None and fn.value.id == f.self_name):
            return frozenset()
        g = f.cls.find(fn.attr)
        if g is None or g is f or not g.self_name or g.is_static or isinstance(g.node, ast.Lambda):
            return frozenset()
        if g.qual not in self._ensured:
            self._ensured[g.qual] = frozenset()
            outs: List[FrozenSet] = []
            if any(isinstance(n, (ast.Raise, ast.Assert)) for n in own_nodes(g.node)) and len(list(own_nodes(g.node))) < 400:
                self.walk(CFG(g.node.body), g, (g.self_name, "?", set()), frozenset(), outs)
            if outs:
                self._ensured[g.qual] = frozenset(q for q in frozenset.intersection(*outs) if not q[0].startswith(("iter:", "while:", "="))
                                                  and only_self(q[0], g.self_name))
        return self._ensured[g.qual]

    def mentions(self, k: Cls, g: Func, a: str, seen: FrozenSet[str]) -> bool:
        if g.qual in seen:
            return False
        for n in own_nodes(g.node):
            if isinstance(n, ast.Attribute) and isinstance(n.ctx, ast.Load) and isinstance(n.value, ast.Name) and n.value.id == g.self_name:
                if n.attr == a:
                    return True
                if n.attr.startswith("_") and not n.attr.startswith("__"):
                    h = k.find(n.attr)
                    if h is not None and self.mentions(k, h, a, seen | {g.qual}):
                        return True
        return False

    def sets(self, g: Func, attr: str, seen: Set[str]) -> bool:
        """calling g may assign self.attr"""
        if g.qual in seen:
            return False
        seen.add(g.qual)
        sn = g.self_name
        for n in ast.walk(g.node):
            if isinstance(n, ast.Attribute) and isinstance(n.ctx, ast.Store) and n.attr == attr and isinstance(n.value, ast.Name) and n.value.id == sn:
                return True
            if isinstance(n, ast.Call) and isinstance(n.func, ast.Name) and n.func.id in ("setattr",):
                return True
            if isinstance(n, ast.Call) and any(self.sets(h, attr, seen) for h in self.prj.resolve_call(n, g) if h.cls is not None and g.cls is not None
                                               and (h.cls in g.cls.mro or g.cls in h.cls.mro)):
                return True
        return False

    # -------------------------------------------------------------- unpacking
    def arity(self, g: Func) -> Optional[Set[int]]:
        out: Set[int] = set()
        if isinstance(g.node, ast.Lambda) or g.is_abstract:
            return None
        for n in own_nodes(g.node):
            if isinstance(n, (ast.Yield, ast.YieldFrom)):
                return None
            if isinstance(n, ast.Return):
                if isinstance(n.value, ast.Tuple) and not any(isinstance(x, ast.Starred) for x in n.value.elts):
                    out.add(len(n.value.elts))
                else:
                    return None
        return out or None

    def unpacking(self, f: Func) -> None:
        for n in own_nodes(f.node):
            if isinstance(n, ast.Assign) and isinstance(n.value, ast.Call):
                for t in n.targets:
                    if isinstance(t, (ast.Tuple, ast.List)) and not any(isinstance(x, ast.Starred) for x in t.elts):
                        gs = self.prj.resolve_call(n.value, f)
                        if not gs:
                            continue
                        for g in gs:
                            if g.name == "__init__" or self.decorated(g):
                                continue
                            a = self.arity(g)
                            if a is None:
                                continue
                            self.cnt("unpackings checked")
                            if a != {len(t.elts)}:
                                self.report("unpack", f, f"{ast.unparse(n.value.func)}", n,
                                            f"{g.short} returns {sorted(a)} values where {len(t.elts)} are unpacked")
            if isinstance(n, ast.Assign) and isinstance(n.value, ast.Tuple):
                for t in n.targets:
                    if isinstance(t, ast.Tuple) and not any(isinstance(x, ast.Starred) for x in t.elts + n.value.elts) and len(t.elts) != len(n.value.elts):
                        self.report("unpack", f, ast.unparse(t), n, f"{len(n.value.elts)} values are unpacked into {len(t.elts)} names")

    # ---------------------------------------------------------------- formats
    def formats(self, f: Func) -> None:
        for n in own_nodes(f.node):
            if isinstance(n, ast.Call) and isinstance(n.func, ast.Attribute) and n.func.attr == "format" and isinstance(n.func.value, ast.Constant) \
                    and isinstance(n.func.value.value, str):
                if any(isinstance(a, ast.Starred) for a in n.args) or any(k.arg is None for k in n.keywords):
                    continue
                try:
                    fl = [x[1] for x in string.Formatter().parse(n.func.value.value) if x[1] is not None]
                except ValueError:
                    self.report("format", f, "malformed", n, "the format string is malformed")
                    continue
                self.cnt("message formats checked")
                auto = sum(1 for x in fl if x == "" or x[0] in ".[")
                need = max([int(x.split(".")[0].split("[")[0]) + 1 for x in fl if x[:1].isdigit()] + [auto])
                names = {x.split(".")[0].split("[")[0] for x in fl if x and not x[:1].isdigit() and x[0] not in ".["}
                if need > len(n.args):
                    self.report("format", f, f"{n.func.value.value[:30]!r}", n, f"the format has {need} places and gets {len(n.args)} values")
                for x in names - {k.arg for k in n.keywords}:
                    self.report("format", f, f"{n.func.value.value[:30]!r}", n, f"the format names '{x}', which it is not given")
            if isinstance(n, ast.BinOp) and isinstance(n.op, ast.Mod) and isinstance(n.left, ast.Constant) and isinstance(n.left.value, str):
                k = places(n.left.value)
                if k is None:
                    continue
                got = len(n.right.elts) if isinstance(n.right, ast.Tuple) else 1 if isinstance(n.right, (ast.Constant, ast.JoinedStr)) else None
                if got is not None:
                    self.cnt("message formats checked")
                    if got != k:
                        self.report("format", f, f"{n.left.value[:30]!r}", n, f"the format has {k} places and gets {got} values")


def places(s: str) -> Optional[int]:
    k, i = 0, 0
    while i < len(s):
        if s[i] == "%":
            if i + 1 < len(s) and s[i + 1] == "%":
                i += 2
                continue
            if i + 1 < len(s) and s[i + 1] == "(":
                return None
            k += 1
        i += 1
    return k


def q_names(txt: str) -> Set[str]:
    try:
        return {x.id if isinstance(x, ast.Name) else x.attr for x in ast.walk(ast.parse(txt, mode="eval")) if isinstance(x, (ast.Name, ast.Attribute))}
    except SyntaxError:
        return set()


def norm_test(t: ast.AST) -> Tuple[str, bool]:
    """canonical text and polarity of an atomic test"""
    pos = True
    while isinstance(t, ast.UnaryOp) and isinstance(t.op, ast.Not):
        t, pos = t.operand, not pos
    if isinstance(t, ast.Compare) and len(t.ops) == 1:
        o = t.ops[0]
        flip = {ast.IsNot: "is", ast.NotEq: "==", ast.NotIn: "in", ast.GtE: "<", ast.LtE: ">"}
        same = {ast.Is: "is", ast.Eq: "==", ast.In: "in", ast.Lt: "<", ast.Gt: ">"}
        l, r = ast.unparse(t.left), ast.unparse(t.comparators[0])
        if type(o) in flip:
            return f"({l}) {flip[type(o)]} ({r})", not pos
        if type(o) in same:
            return f"({l}) {same[type(o)]} ({r})", pos
    return ast.unparse(t), pos


def only_self(txt: str, sn: str) -> bool:
    """a test that speaks of the object alone"""
    try:
        t = ast.parse(txt, mode="eval")
    except SyntaxError:
        return False
    ns = [x for x in ast.walk(t) if isinstance(x, ast.Name)]
    return bool(ns) and all(x.id in (sn, "len", "isinstance", "str", "int", "list", "dict") for x in ns)


def dead(e: ast.AST, fs: FrozenSet) -> Set[ast.AST]:
    """parts of an expression that are not evaluated, given what is known"""
    out: Set[ast.AST] = set()
    for x in ast.walk(e):
        if isinstance(x, ast.BoolOp):
            stop = not isinstance(x.op, ast.And)
            known = fs
            for i, y in enumerate(x.values):
                if decided(y, known) is stop:
                    for z in x.values[i + 1:]:
                        out |= set(ast.walk(z))
                    break
        elif isinstance(x, ast.IfExp):
            d = decided(x.test, fs)
            if d is not None:
                out |= set(ast.walk(x.orelse if d else x.body))
    return out


def renamed(fs: FrozenSet, a: str, b: str) -> FrozenSet:
    """what is known of variable a, said of b"""
    out = set()
    for txt, v in fs:
        if txt.startswith(("iter:", "while:")) or not re.search(r"(?<![\w.])%s(?!\w)" % re.escape(a), txt):
            continue
        out.add((re.sub(r"(?<![\w.])%s(?!\w)" % re.escape(a), b, txt), v))
    return frozenset(out)


def implied(t: ast.AST, val: bool) -> FrozenSet[Tuple[str, bool]]:
    """atoms known once the test came out `val`"""
    while isinstance(t, ast.UnaryOp) and isinstance(t.op, ast.Not):
        t, val = t.operand, not val
    if isinstance(t, ast.BoolOp) and isinstance(t.op, ast.And) == val:
        out: FrozenSet = frozenset()
        for x in t.values:
            out |= implied(x, val)
        return out
    x, pos = norm_test(t)
    return frozenset({(x, pos if val else not pos)})


def decided(t: ast.AST, fs: FrozenSet[Tuple[str, bool]]) -> Optional[bool]:
    while isinstance(t, ast.UnaryOp) and isinstance(t.op, ast.Not):
        r = decided(t.operand, fs)
        return None if r is None else not r
    if isinstance(t, ast.Constant):
        return bool(t.value)
    if isinstance(t, ast.BoolOp):
        rs = [decided(x, fs) for x in t.values]
        if isinstance(t.op, ast.And):
            return False if False in rs else True if all(r is True for r in rs) else None
        return True if True in rs else False if all(r is False for r in rs) else None
    def val(e: ast.AST) -> Any:
        if isinstance(e, ast.Constant):
            return e.value
        if isinstance(e, (ast.Name, ast.Attribute)):
            for q in fs:
                if q[0][:1] == "=" and q[0] == "=" + ast.unparse(e):
                    return q[1]
        return val
    if isinstance(t, (ast.Name, ast.Attribute)) and val(t) is not val:
        return bool(val(t))
    if isinstance(t, ast.Compare) and len(t.ops) == 1:
        a, b = val(t.left), val(t.comparators[0])
        if a is not val and b is not val:
            try:
                o = t.ops[0]
                if isinstance(o, (ast.Is, ast.Eq)):
                    return a == b
                if isinstance(o, (ast.IsNot, ast.NotEq)):
                    return a != b
                if isinstance(o, ast.Gt):
                    return a > b
                if isinstance(o, ast.Lt):
                    return a < b
                if isinstance(o, ast.GtE):
                    return a >= b
                if isinstance(o, ast.LtE):
                    return a <= b
            except TypeError:
                pass
    x, pos = norm_test(t)
    if (x, True) in fs:
        return pos
    if (x, False) in fs:
        return not pos
    if isinstance(t, (ast.Name, ast.Attribute)) and (f"({x}) is (None)", True) in fs:
        return False
    m = re.fullmatch(r"\((.*)\) is \(None\)", x)
    if m and ((m.group(1), True) in fs or any(isinstance(q, str) and q.startswith(f"isinstance({m.group(1)},") and b is True for q, b in fs)):
        return not pos
    return None


_PARSED: Dict[str, ast.AST] = {}


def choice(txt: str) -> Optional[Tuple[str, FrozenSet]]:
    """x and the values named by `x == CONST` or `x in (CONST, ..)`"""
    if txt not in _CHOICE:
        _CHOICE[txt] = None
        m = re.fullmatch(r"\((.*)\) (==|in|is) \((.*)\)", txt, re.S)
        if m:
            try:
                v = ast.literal_eval(m.group(3))
                _CHOICE[txt] = (m.group(1), frozenset(v) if m.group(2) == "in" else frozenset({v}))
            except (ValueError, SyntaxError, TypeError):
                pass
    return _CHOICE[txt]


_CHOICE: Dict[str, Optional[Tuple[str, FrozenSet]]] = {}


def clash(fs: FrozenSet[Tuple[str, Any]]) -> bool:
    """a decided compound test contradicts what is known of its parts"""
    may: Dict[str, FrozenSet] = {}
    for txt, b in fs:
        if b is True and not txt.startswith(("=", "iter:", "while:")):
            ch = choice(txt)
            if ch is not None:
                may[ch[0]] = may.get(ch[0], ch[1]) & ch[1]
    for txt, b in fs if may else ():
        if b is False and not txt.startswith(("=", "iter:", "while:")):
            ch = choice(txt)
            if ch is not None and ch[0] in may:
                may[ch[0]] -= ch[1]
    if any(not v for v in may.values()):
        return True
    for txt, b in fs:
        if isinstance(b, bool) and not txt.startswith(("=", "iter:", "while:")) and (" and " in txt or " or " in txt):
            if txt not in _PARSED:
                try:
                    _PARSED[txt] = ast.parse(txt, mode="eval").body
                except SyntaxError:
                    _PARSED[txt] = ast.Constant(value=None)
            e = _PARSED[txt]
            if isinstance(e, ast.BoolOp) and decided(e, fs - {(txt, b)}) is (not b):
                return True
    return False


def chains(f: Func) -> Set[ast.If]:
    """last arms of `if x == A: .. elif x == B: ..` without else: taken to name all values of x"""
    out: Set[ast.If] = set()
    for n in own_nodes(f.node):
        if isinstance(n, ast.If):
            subj, last, k = subject(n.test), n, 1
            while len(last.orelse) == 1 and isinstance(last.orelse[0], ast.If):
                last = last.orelse[0]
                k += 1
                if subject(last.test) != subj:
                    subj = None
            if subj is not None and k >= 2 and not last.orelse:
                out.add(last)
    return out


def subject(t: ast.AST) -> Optional[str]:
    """x for `x == CONST`, `x in (..)`, `isinstance(x, ..)`"""
    if isinstance(t, ast.Compare) and len(t.ops) == 1 and isinstance(t.ops[0], (ast.Eq, ast.Is, ast.In)):
        return ast.unparse(t.left)
    if isinstance(t, ast.Call) and isinstance(t.func, ast.Name) and t.func.id == "isinstance" and t.args:
        return ast.unparse(t.args[0])
    if isinstance(t, ast.BoolOp) and isinstance(t.op, ast.Or):
        ss = {subject(x) for x in t.values}
        return ss.pop() if len(ss) == 1 else None
    return None


BAD = '''
from dataclasses import dataclass
import logging
from multiprocessing import Pool

@dataclass
class P:
    a: int
    b: float = 1.0

class A:
    def __init__(self, x, y=None):
        self.z = self.x + 1
        self.x = x
        self._fill()
        self.w2 = self.w

    def _fill(self):
        self.w = 1

    def m(self, k: int, *, deep=False) -> int:
        if k > 1:
            return self.nope
        elif k < -1:
            return 1

    def n(self):
        return self.m(1, shallow=True)

class H:
    def __init__(self, x):
        self.multi = False
        if len(x) > 1:
            self.multi = True
            self.k = len(x)

    def show(self):
        if not self.multi:
            return self._one()
        return self.k

    def _one(self):
        return self.k

def stub(k) -> int:
    k + 1

def lost(k):
    for k in [kk for kk in k]:
        k + kk

def u(flag, xs):
    if flag:
        r = 1
    for i in xs:
        s = i
    return r + s

def pair():
    return 1, 2

def calls(a: A, p: P):
    P(b=2.0)
    A()
    x, y, z = pair()
    logging.info("{} and {}".format(x))
    "%s %s" % (x,)
    return a.q + p.c

def jobs(pool, xs):
    a = A(1)
    return pool.starmap(a.m, [(x, 1, 2) for x in xs])

def none(k) -> int:
    if k:
        return 3
    return None
'''
GOOD = '''
from dataclasses import dataclass

@dataclass
class P:
    a: int
    b: float = 1.0

class A:
    lim = 3
    def __init__(self, x, y=None):
        self._fill()
        self.z = self.w + self.lim + self.prop
        self.x = x

    def _fill(self):
        self.w = 1

    @property
    def prop(self):
        return 1

    def m(self, k: str, *, deep=False) -> int:
        if k == "a":
            r = 1
        elif k == "b":
            r = 2
        found = False
        for q in k:
            if q:
                found = True
                hit = q
        if found:
            return len(hit)
        return r

    def n(self, on):
        if on and self.x:
            t = 1
        if not (on and self.x):
            return 0
        return t + self.m("a", deep=True)

class H:
    def __init__(self, x, n=None):
        self.multi = False
        if len(x) > 1:
            self.multi = True
            self.k = len(x)
        self.n = n
        if n is not None:
            self.m = n + 1

    def show(self):
        if self.multi:
            return self._k()
        if self.n is not None and self.m > 1:
            return 1
        return 0

    def _k(self):
        return self.k

def tr(xs) -> int:
    try:
        v = xs[0]
    except IndexError:
        raise ValueError("x")
    while True:
        if v:
            return v

def calls(a: A, **kw):
    P(1, b=2.0)
    P(**kw)
    A(*kw.values())
    return "{} {k}".format(1, k=2) + "%s%%" % (3,)
'''


def run(c: Ctx) -> None:
    c.rules.append("Every call of the library's own functions and constructors, deferred worker calls included, binds to the signature it reaches; every name a function reads is "
                   "defined; every local is assigned on every feasible path (correlated tests, constants and non-empty loops taken into account); every attribute read on "
                   "self or on an object of a known class of the library is defined by that class or one derived from it; a constructor reads no attribute "
                   "before assigning it, and what it assigns on some paths only is not read by a method that "
                   "reaches the read without a test telling those paths apart; a function that promises a result returns one on every path; unpacked results and format strings have the right "
                   "number of parts.")
    c.assumptions += ["loops run at least once", "an if/elif chain over the values of one expression names all its values",
                      "a name has the type all its bindings agree on; calls through values of unknown type are not judged"]
    b = Rule(Project(sources={"kats.x": BAD}))
    b.run()
    got = {(r, k.split("|")[0].split("kats.x.")[-1]) for r, k, _, _ in b.found}
    want = {("unset", "A.__init__"), ("attribute", "A.m"), ("no-result", "A.m"), ("call", "A.n"), ("unassigned", "u"), ("call", "calls"),
            ("unpack", "calls"), ("format", "calls"), ("attribute", "calls"), ("call", "jobs"), ("no-result", "none"), ("no-result", "stub"),
            ("half-set", "H.__init__"), ("name", "lost")}
    c.notes["self-test difference"] = sorted(map(str, want ^ got))
    c.selftest("misfits are reported", got == want and len(b.found) >= 17)
    g = Rule(Project(sources={"kats.x": GOOD}))
    g.run()
    c.selftest("fitting code is accepted", not g.found)
    with open(os.path.join(os.path.dirname(__file__), "..", "data", "s24_fits.py.txt")) as fh:
        g = Rule(Project(sources={"kats.x": fh.read()}))
    g.run()
    c.selftest("other spellings of fitting code are accepted", not g.found)
    r = Rule(c.prj)
    r.run()
    for k, v in r.n.items():
        c.count(k, v)
    for rule, key, where, why in r.found:
        c.find(rule, key, where, why)
    c.floor("calls bound", 1500)
    c.floor("attribute reads resolved", 4000)
    c.floor("locals followed", 3500)
