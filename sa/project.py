"""Whole-program model of /repo/kats built from its current source text.

Nothing here imports or executes the analysed code: every module below
/repo/kats (tests excluded) is parsed with the stdlib `ast`, names are resolved
through the import tables, classes get a method resolution order, and callees
are resolved through names, `self`, `super()`, inferred receiver types and (as a
last resort, opt-in) unique method names.
"""
from __future__ import annotations

import ast
import os
import sys
from typing import Dict, Iterable, Iterator, List, Optional, Set, Tuple

sys.setrecursionlimit(20000)

REPO = os.environ.get("SA_REPO", "/repo")
PKG = "kats"


class AnalysisBroken(Exception):
    """The analysed tree no longer has the shape the checker understands."""


class Module:
    def __init__(self, name: str, path: str, tree: ast.Module, is_pkg: bool) -> None:
        self.name = name
        self.path = path
        self.tree = tree
        self.is_pkg = is_pkg
        self.imports: Dict[str, str] = {}   # local name -> dotted target
        self.functions: Dict[str, "Func"] = {}
        self.classes: Dict[str, "Cls"] = {}
        self.globals: Dict[str, ast.AST] = {}

    @property
    def rel(self) -> str:
        return os.path.relpath(self.path, REPO)

    def __repr__(self) -> str:
        return f"<Module {self.name}>"


class Func:
    def __init__(self, name, node, module, cls=None, parent=None) -> None:
        self.name: str = name
        self.node = node
        self.module: Module = module
        self.cls: Optional[Cls] = cls
        self.parent: Optional[Func] = parent
        if parent is not None:
            self.qual = f"{parent.qual}.<locals>.{name}"
        elif cls is not None:
            self.qual = f"{cls.qual}.{name}"
        else:
            self.qual = f"{module.name}.{name}"
        a = node.args
        self.posargs = [x.arg for x in a.posonlyargs + a.args]
        self.kwonly = [x.arg for x in a.kwonlyargs]
        self.vararg = a.vararg.arg if a.vararg else None
        self.kwarg = a.kwarg.arg if a.kwarg else None
        decos = [ast.unparse(d) for d in getattr(node, "decorator_list", [])]
        self.decos = decos
        self.is_static = any(d == "staticmethod" for d in decos)
        self.is_classmethod = any(d == "classmethod" for d in decos)
        self.is_property = any(d == "property" or d.endswith("cached_property") for d in decos)
        self.is_setter = any(d.endswith(".setter") for d in decos)
        self.is_abstract = any(d.endswith("abstractmethod") for d in decos)
        self.is_overload = any(d.split(".")[-1] == "overload" for d in decos)
        self.inner: Dict[str, Func] = {}

    @property
    def short(self) -> str:
        q = self.qual
        return q[len(self.module.name) + 1:] if q.startswith(self.module.name + ".") else q

    @property
    def self_name(self) -> Optional[str]:
        if self.cls is not None and not self.is_static and self.posargs:
            return self.posargs[0]
        return None

    @property
    def params(self) -> List[str]:
        """all parameters without self/cls, *args and **kwargs included (bare names)"""
        ps = list(self.posargs)
        if self.cls is not None and self.parent is None and not self.is_static and ps:
            ps = ps[1:]
        ps += self.kwonly
        if self.vararg:
            ps.append(self.vararg)
        if self.kwarg:
            ps.append(self.kwarg)
        return ps

    def default(self, name: str):
        a = self.node.args
        pos = a.posonlyargs + a.args
        off = len(pos) - len(a.defaults)
        for i, p in enumerate(pos):
            if p.arg == name:
                return a.defaults[i - off] if i >= off else None
        for p, d in zip(a.kwonlyargs, a.kw_defaults):
            if p.arg == name:
                return d
        return None

    def annotation(self, name: str):
        a = self.node.args
        for p in a.posonlyargs + a.args + a.kwonlyargs + [x for x in (a.vararg, a.kwarg) if x]:
            if p.arg == name:
                return p.annotation
        return None

    def where(self, node: Optional[ast.AST] = None) -> str:
        ln = getattr(node, "lineno", None) or self.node.lineno
        return f"{self.module.rel}:{ln} in {self.short}"

    def __repr__(self) -> str:
        return f"<Func {self.qual}>"


class Cls:
    def __init__(self, name: str, node: ast.ClassDef, module: Module) -> None:
        self.name = name
        self.node = node
        self.module = module
        self.qual = f"{module.name}.{name}"
        self.methods: Dict[str, Func] = {}
        self.setters: Dict[str, Func] = {}
        self.class_attrs: Dict[str, Optional[ast.AST]] = {}
        self.class_annots: Dict[str, ast.AST] = {}
        self.base_quals: List[str] = []
        self.mro: List["Cls"] = [self]
        self.subclasses: List["Cls"] = []
        self.ext_bases: Set[str] = set()

    def find(self, name: str) -> Optional[Func]:
        for c in self.mro:
            if name in c.methods:
                return c.methods[name]
        return None

    def find_setter(self, name: str) -> Optional[Func]:
        for c in self.mro:
            if name in c.setters:
                return c.setters[name]
        return None

    def class_attr(self, name: str):
        for c in self.mro:
            if name in c.class_attrs:
                return c.class_attrs[name]
        return None

    def is_a(self, qual_or_name: str) -> bool:
        return any(c.qual == qual_or_name or c.name == qual_or_name for c in self.mro)

    def all_subclasses(self) -> List["Cls"]:
        out, st = [], list(self.subclasses)
        while st:
            c = st.pop()
            if c not in out:
                out.append(c)
                st.extend(c.subclasses)
        return out

    def __repr__(self) -> str:
        return f"<Cls {self.qual}>"


def _is_test(rel: str) -> bool:
    parts = rel.replace("\\", "/").split("/")
    return "tests" in parts or parts[-1].startswith("test_")


class Project:
    def __init__(self, repo: str = None, sources: Optional[Dict[str, str]] = None) -> None:
        self.repo = repo or REPO
        self.sources = sources      # in-memory modules (self-tests of the rules)
        self.modules: Dict[str, Module] = {}
        self.funcs: Dict[str, Func] = {}
        self.classes: Dict[str, Cls] = {}
        self._load()
        self.tops: Set[str] = {m.split(".")[0] for m in self.modules}
        self._index()
        self._link()
        self._attr_types_cache: Dict[str, Dict[str, Set[str]]] = {}
        self._local_types_cache: Dict[str, Dict[str, Set[str]]] = {}
        self._in_progress: Set[str] = set()
        self.method_index: Dict[str, List[Func]] = {}
        for f in self.funcs.values():
            if f.cls is not None and f.parent is None:
                self.method_index.setdefault(f.name, []).append(f)

    # ------------------------------------------------------------ loading
    def _load(self) -> None:
        if self.sources is not None:
            for name, src in self.sources.items():
                self.modules[name] = Module(name, os.path.join(self.repo, name.replace(".", "/") + ".py"),
                                            ast.parse(src), any(n.startswith(name + ".") for n in self.sources))
            return
        root = os.path.join(self.repo, PKG)
        if not os.path.isdir(root):
            raise AnalysisBroken(f"no package directory {root}")
        for d, dirs, files in os.walk(root):
            dirs.sort()
            for f in sorted(files):
                if not f.endswith(".py"):
                    continue
                p = os.path.join(d, f)
                rel = os.path.relpath(p, self.repo)
                if _is_test(rel):
                    continue
                mod = rel[:-3].replace(os.sep, ".")
                is_pkg = mod.endswith(".__init__")
                if is_pkg:
                    mod = mod[: -len(".__init__")]
                with open(p, encoding="utf-8") as fh:
                    src = fh.read()
                try:
                    tree = ast.parse(src, p)
                except SyntaxError as e:
                    raise AnalysisBroken(f"cannot parse {rel}: {e}")
                self.modules[mod] = Module(mod, p, tree, is_pkg)
        if len(self.modules) < 60:
            raise AnalysisBroken(f"only {len(self.modules)} modules found")

    def _index(self) -> None:
        for m in self.modules.values():
            self._collect_imports(m)
            for st in _toplevel(m.tree.body):
                if isinstance(st, (ast.FunctionDef, ast.AsyncFunctionDef)):
                    f = Func(st.name, st, m)
                    m.functions[st.name] = f
                    self._reg(f)
                elif isinstance(st, ast.ClassDef):
                    c = Cls(st.name, st, m)
                    m.classes[st.name] = c
                    self.classes[c.qual] = c
                    for s in _toplevel(st.body):
                        if isinstance(s, (ast.FunctionDef, ast.AsyncFunctionDef)):
                            f = Func(s.name, s, m, c)
                            if f.is_setter:
                                c.setters[s.name] = f
                                f.qual += "@setter"
                            elif f.is_overload:
                                continue
                            else:
                                c.methods[s.name] = f
                            self._reg(f)
                        elif isinstance(s, ast.Assign):
                            for t in s.targets:
                                if isinstance(t, ast.Name):
                                    c.class_attrs[t.id] = s.value
                        elif isinstance(s, ast.AnnAssign) and isinstance(s.target, ast.Name):
                            c.class_annots[s.target.id] = s.annotation
                            if s.value is not None:
                                c.class_attrs[s.target.id] = s.value
                elif isinstance(st, ast.Assign):
                    for t in st.targets:
                        if isinstance(t, ast.Name):
                            m.globals[t.id] = st.value
                elif isinstance(st, ast.AnnAssign) and isinstance(st.target, ast.Name):
                    if st.value is not None:
                        m.globals[st.target.id] = st.value

    def _reg(self, f: Func) -> None:
        self.funcs[f.qual] = f
        for n in _own_nodes(f.node):
            if isinstance(n, (ast.FunctionDef, ast.AsyncFunctionDef)) and n is not f.node:
                g = Func(n.name, n, f.module, f.cls, f)
                f.inner[n.name] = g
                self._reg(g)

    def _collect_imports(self, m: Module) -> None:
        for n in ast.walk(m.tree):
            if isinstance(n, ast.Import):
                for a in n.names:
                    if a.asname:
                        m.imports[a.asname] = a.name
                    else:
                        m.imports.setdefault(a.name.split(".")[0], a.name.split(".")[0])
            elif isinstance(n, ast.ImportFrom):
                base = n.module or ""
                if n.level:
                    pk = m.name.split(".")
                    if not m.is_pkg:
                        pk = pk[:-1]
                    pk = pk[: len(pk) - (n.level - 1)]
                    base = ".".join(pk + ([n.module] if n.module else []))
                for a in n.names:
                    m.imports[a.asname or a.name] = f"{base}.{a.name}"

    def _link(self) -> None:
        for c in self.classes.values():
            for b in c.node.bases:
                e = b.value if isinstance(b, ast.Subscript) else b
                d = self.dotted(e, c.module)
                if d is None:
                    continue
                c.base_quals.append(d)
        def lin(c: Cls, seen: Tuple[str, ...]) -> List[Cls]:
            out = [c]
            for b in c.base_quals:
                bc = self.resolve_class(b)
                if bc is None or bc.qual in seen:
                    if bc is None:
                        c.ext_bases.add(b)
                    continue
                for x in lin(bc, seen + (c.qual,)):
                    if x in out:
                        out.remove(x)
                    out.append(x)
            return out
        for c in self.classes.values():
            c.mro = lin(c, ())
            for b in c.base_quals:
                bc = self.resolve_class(b)
                if bc is not None and c not in bc.subclasses:
                    bc.subclasses.append(c)

    # ------------------------------------------------------- name resolution
    def dotted(self, e: ast.AST, m: Module) -> Optional[str]:
        """Dotted, import-resolved name of a Name/Attribute chain."""
        parts: List[str] = []
        while isinstance(e, ast.Attribute):
            parts.append(e.attr)
            e = e.value
        if not isinstance(e, ast.Name):
            return None
        parts.append(e.id)
        parts.reverse()
        head = parts[0]
        if head in m.imports:
            return ".".join([m.imports[head]] + parts[1:])
        if head in m.classes or head in m.functions or head in m.globals:
            return ".".join([m.name] + parts)
        return ".".join(parts)

    def _follow(self, d: str, depth: int = 0) -> str:
        """follow re-exports: kats.models.model.Model / kats.consts.X / package re-exports"""
        if depth > 6:
            return d
        if d in self.classes or d in self.funcs or d in self.modules:
            return d
        mod, _, last = d.rpartition(".")
        if mod in self.modules:
            m = self.modules[mod]
            if last in m.imports:
                return self._follow(m.imports[last], depth + 1)
        elif mod:
            fm = self._follow(mod, depth + 1)
            if fm != mod:
                return self._follow(f"{fm}.{last}", depth + 1)
        return d

    def resolve_class(self, d: Optional[str]) -> Optional[Cls]:
        if d is None:
            return None
        return self.classes.get(self._follow(d))

    def resolve_func(self, d: Optional[str]) -> Optional[Func]:
        if d is None:
            return None
        d = self._follow(d)
        if d in self.funcs:
            return self.funcs[d]
        head, _, last = d.rpartition(".")
        c = self.classes.get(self._follow(head)) if head else None
        if c is not None:
            return c.find(last)
        return None

    # ------------------------------------------------------------ types
    def ann_types(self, ann: Optional[ast.AST], m: Module) -> Set[str]:
        if ann is None:
            return set()
        if isinstance(ann, ast.Constant):
            if ann.value is None:
                return {"None"}
            if isinstance(ann.value, str):
                try:
                    return self.ann_types(ast.parse(ann.value, mode="eval").body, m)
                except SyntaxError:
                    return set()
            return set()
        if isinstance(ann, ast.BinOp) and isinstance(ann.op, ast.BitOr):
            return self.ann_types(ann.left, m) | self.ann_types(ann.right, m)
        if isinstance(ann, ast.Subscript):
            d = self.dotted(ann.value, m) or ""
            last = d.split(".")[-1]
            sl = ann.slice
            els = sl.elts if isinstance(sl, ast.Tuple) else [sl]
            if last in ("Union",):
                out: Set[str] = set()
                for x in els:
                    out |= self.ann_types(x, m)
                return out
            if last == "Optional":
                return self.ann_types(els[0], m) | {"None"}
            if last in ("ClassVar", "Final", "Annotated"):
                return self.ann_types(els[0], m)
            if last in ("Type", "type"):
                return {f"type[{t}]" for t in self.ann_types(els[0], m)}
            if last in ("Callable",):
                return {"callable"}
            if last in ("List", "list", "Sequence", "Iterable", "Collection", "MutableSequence"):
                inner = set()
                for x in els[:1]:
                    inner |= self.ann_types(x, m)
                return {"list"} | {f"elem:{t}" for t in inner if not t.startswith("elem:")}
            if last in ("Dict", "dict", "Mapping", "MutableMapping", "DefaultDict", "OrderedDict"):
                inner = set()
                for x in els[1:2]:
                    inner |= self.ann_types(x, m)
                return {"dict"} | {f"elem:{t}" for t in inner if not t.startswith("elem:")}
            if last in ("Tuple", "tuple"):
                return {"tuple"}
            if last in ("Set", "set", "FrozenSet"):
                return {"set"}
            if last == "Literal":
                return {"str"}
            if last == "NDArray":
                return {"numpy.ndarray"}
            return self.ann_types(ann.value, m)
        d = self.dotted(ann, m)
        if d is None:
            return set()
        c = self.resolve_class(d)
        if c is not None:
            return {c.qual}
        last = d.split(".")[-1]
        canon = {
            "DataFrame": "pandas.DataFrame", "Series": "pandas.Series", "ndarray": "numpy.ndarray",
            "NDArray": "numpy.ndarray", "DatetimeIndex": "pandas.DatetimeIndex", "Index": "pandas.Index",
            "List": "list", "Dict": "dict", "Set": "set", "Tuple": "tuple", "ArrayLike": "numpy.ndarray",
            "Timestamp": "pandas.Timestamp",
        }
        if last in canon:
            return {canon[last]}
        # type alias defined in a module of the project
        f = self._follow(d)
        mod, _, nm = f.rpartition(".")
        if mod in self.modules and nm in self.modules[mod].globals and nm[:1].isupper():
            g = self.modules[mod].globals[nm]
            if isinstance(g, (ast.Subscript, ast.Name, ast.Attribute)):
                if not (isinstance(g, ast.Name) and g.id == nm):
                    return self.ann_types(g, self.modules[mod])
        # TypeVars bound to classes
        if mod in self.modules and nm in self.modules[mod].globals:
            g = self.modules[mod].globals[nm]
            if isinstance(g, ast.Call):
                for kw in g.keywords:
                    if kw.arg == "bound":
                        return self.ann_types(kw.value, self.modules[mod])
        if d in ("int", "float", "str", "bool", "bytes", "object", "list", "dict", "set", "tuple", "complex", "None"):
            return {d}
        if last == "Any":
            return set()
        return {d}

    def attr_types(self, c: Cls) -> Dict[str, Set[str]]:
        """types of self attributes of class c (MRO-merged)."""
        if c.qual in self._attr_types_cache:
            return self._attr_types_cache[c.qual]
        out: Dict[str, Set[str]] = {}
        self._attr_types_cache[c.qual] = out
        for k in reversed(c.mro):
            for a, ann in k.class_annots.items():
                t = self.ann_types(ann, k.module)
                if t:
                    out[a] = set(t)
            for f in k.methods.values():
                sn = f.self_name
                if not sn:
                    continue
                for n in _own_nodes(f.node):
                    if isinstance(n, ast.AnnAssign) and _is_self_attr(n.target, sn):
                        t = self.ann_types(n.annotation, f.module)
                        if t:
                            out.setdefault(n.target.attr, set()).update(t)
        for k in reversed(c.mro):
            for f in k.methods.values():
                sn = f.self_name
                if not sn:
                    continue
                for n in _own_nodes(f.node):
                    if isinstance(n, ast.Assign):
                        for t in n.targets:
                            if _is_self_attr(t, sn):
                                ty = self.expr_types(n.value, f)
                                if ty:
                                    out.setdefault(t.attr, set()).update(ty)
        # TypeVar-parametrised params attribute: Model[FooParams]
        for k in c.mro:
            for b in k.node.bases:
                if isinstance(b, ast.Subscript):
                    bt = self.ann_types(b.slice, k.module)
                    bt = {t for t in bt if t in self.classes}
                    if bt and self.resolve_class(self.dotted(b.value, k.module)) is not None and \
                            self.resolve_class(self.dotted(b.value, k.module)).name == "Model":
                        out["params"] = bt
        return out

    def local_types(self, f: Func) -> Dict[str, Set[str]]:
        if f.qual in self._local_types_cache:
            return self._local_types_cache[f.qual]
        out: Dict[str, Set[str]] = {}
        self._local_types_cache[f.qual] = out
        if f.parent is not None:
            out.update({k: set(v) for k, v in self.local_types(f.parent).items()})
        for p in f.posargs + f.kwonly:
            t = self.ann_types(f.annotation(p), f.module)
            d = f.default(p)
            if t:
                out[p] = set(t)
            elif d is not None:
                t = self.expr_types(d, f)
                if t:
                    out[p] = set(t)
        if f.kwarg:
            out[f.kwarg] = {"dict"}
        if f.vararg:
            out[f.vararg] = {"tuple"}
        sn = f.self_name
        if sn and f.parent is None:
            out[sn] = {f.cls.qual} if not f.is_classmethod else {f"type[{f.cls.qual}]"}
        for _ in range(2):
            for n in _own_nodes(f.node):
                if isinstance(n, ast.AnnAssign) and isinstance(n.target, ast.Name):
                    t = self.ann_types(n.annotation, f.module)
                    if t:
                        out.setdefault(n.target.id, set()).update(t)
                elif isinstance(n, ast.Assign):
                    for t in n.targets:
                        if isinstance(t, ast.Name):
                            ty = self.expr_types(n.value, f)
                            if ty:
                                out.setdefault(t.id, set()).update(ty)
                        elif isinstance(t, ast.Tuple) and isinstance(n.value, ast.Tuple) and len(t.elts) == len(n.value.elts):
                            for a, b in zip(t.elts, n.value.elts):
                                if isinstance(a, ast.Name):
                                    ty = self.expr_types(b, f)
                                    if ty:
                                        out.setdefault(a.id, set()).update(ty)
                elif isinstance(n, (ast.With, ast.AsyncWith)):
                    for it in n.items:
                        if isinstance(it.optional_vars, ast.Name):
                            ty = self.expr_types(it.context_expr, f)
                            if ty:
                                out.setdefault(it.optional_vars.id, set()).update(ty)
                elif isinstance(n, (ast.For, ast.comprehension)):
                    if isinstance(n.target, ast.Name):
                        ty = {x[5:] for x in self.expr_types(n.iter, f) if x.startswith("elem:")}
                        if ty:
                            out.setdefault(n.target.id, set()).update(ty)
        return out

    def expr_types(self, e: ast.AST, f: Func, depth: int = 0) -> Set[str]:
        if depth > 8 or e is None:
            return set()
        if isinstance(e, ast.Constant):
            v = e.value
            if v is None:
                return {"None"}
            return {type(v).__name__}
        if isinstance(e, (ast.List, ast.ListComp)):
            inner = set()
            if isinstance(e, ast.ListComp):
                inner = self.expr_types(e.elt, f, depth + 1)
            elif e.elts:
                inner = self.expr_types(e.elts[0], f, depth + 1)
            return {"list"} | {f"elem:{t}" for t in inner if not t.startswith("elem:")}
        if isinstance(e, (ast.Dict, ast.DictComp)):
            return {"dict"}
        if isinstance(e, (ast.Set, ast.SetComp)):
            return {"set"}
        if isinstance(e, ast.Tuple):
            return {"tuple"}
        if isinstance(e, ast.JoinedStr):
            return {"str"}
        if isinstance(e, ast.Name):
            lt = self.local_types(f)
            if e.id in lt:
                return set(lt[e.id])
            return set()
        if isinstance(e, ast.IfExp):
            return self.expr_types(e.body, f, depth + 1) | self.expr_types(e.orelse, f, depth + 1)
        if isinstance(e, ast.BoolOp):
            out = set()
            for v in e.values:
                out |= self.expr_types(v, f, depth + 1)
            return out
        if isinstance(e, ast.Attribute):
            base = self.expr_types(e.value, f, depth + 1)
            out = set()
            for b in base:
                c = self.classes.get(b)
                if c is not None:
                    m = c.find(e.attr)
                    if m is not None and m.is_property:
                        out |= self.ann_types(m.node.returns, m.module)
                    else:
                        out |= self.attr_types(c).get(e.attr, set())
                elif b in ("pandas.Series", "pandas.DataFrame"):
                    if e.attr == "values":
                        out.add("numpy.ndarray")
                    elif e.attr in ("iloc", "loc"):
                        out.add(b)
                    elif e.attr == "T":
                        out.add(b)
            return out
        if isinstance(e, ast.Subscript):
            base = self.expr_types(e.value, f, depth + 1)
            out = set()
            for b in base:
                c = self.classes.get(b)
                if c is not None:
                    g = c.find("__getitem__")
                    if g is not None:
                        out |= self.ann_types(g.node.returns, g.module)
                elif b.startswith("elem:"):
                    out.add(b[5:])
                elif b == "list" and isinstance(e.slice, ast.Slice):
                    out.add("list")
                elif b in ("pandas.Series", "numpy.ndarray"):
                    if _slicey(e.slice):
                        out.add(b)
                elif b == "pandas.DataFrame":
                    out |= {"pandas.DataFrame", "pandas.Series"}
            return out
        if isinstance(e, ast.BinOp):
            l = self.expr_types(e.left, f, depth + 1)
            r = self.expr_types(e.right, f, depth + 1)
            for t in ("pandas.DataFrame", "pandas.Series", "numpy.ndarray"):
                if t in l | r:
                    return {t}
            rc = {t for t in l if t in self.classes}
            return rc or (l & r)
        if isinstance(e, ast.Call):
            d = self.dotted(e.func, f.module) if isinstance(e.func, (ast.Name, ast.Attribute)) else None
            last = d.split(".")[-1] if d else ""
            if d:
                nm = e.func.id if isinstance(e.func, ast.Name) else None
                if nm is None or nm not in self.local_types(f):
                    c = self.resolve_class(d)
                    if c is not None:
                        return {c.qual}
                ext = {
                    "pandas.DataFrame": "pandas.DataFrame", "pandas.Series": "pandas.Series",
                    "pandas.DatetimeIndex": "pandas.DatetimeIndex", "pandas.date_range": "pandas.DatetimeIndex",
                    "numpy.array": "numpy.ndarray", "numpy.asarray": "numpy.ndarray", "numpy.zeros": "numpy.ndarray",
                    "numpy.ones": "numpy.ndarray", "numpy.empty": "numpy.ndarray", "numpy.full": "numpy.ndarray",
                    "numpy.arange": "numpy.ndarray", "numpy.zeros_like": "numpy.ndarray", "numpy.ones_like": "numpy.ndarray",
                    "numpy.concatenate": "numpy.ndarray", "list": "list", "dict": "dict", "set": "set", "tuple": "tuple",
                    "str": "str", "int": "int", "float": "float", "len": "int", "sorted": "list",
                }
                if d in ext:
                    return {ext[d]}
                if d == "pandas.concat":
                    return {"pandas.DataFrame", "pandas.Series"}
                if d in ("copy.copy", "copy.deepcopy", "typing.cast"):
                    if d == "typing.cast" and e.args:
                        return self.ann_types(e.args[0], f.module)
                    if e.args:
                        return self.expr_types(e.args[0], f, depth + 1)
            fs = self.resolve_call(e, f, depth + 1)
            out = set()
            for g in fs:
                if g.name == "__init__" and g.cls is not None:
                    out.add(g.cls.qual)
                else:
                    out |= self.ann_types(g.node.returns, g.module)
            if out:
                return out
            if isinstance(e.func, ast.Attribute):
                base = self.expr_types(e.func.value, f, depth + 1)
                a = e.func.attr
                if base & {"pandas.Series", "pandas.DataFrame"}:
                    if a in ("to_numpy",):
                        return {"numpy.ndarray"}
                    if a in ("copy", "reset_index", "set_index", "astype", "fillna", "dropna", "rename", "sort_values",
                             "interpolate", "rolling", "diff", "shift", "asfreq", "reindex", "drop", "iloc", "loc"):
                        return base & {"pandas.Series", "pandas.DataFrame"}
                    if a == "to_frame":
                        return {"pandas.DataFrame"}
                    if a == "tolist" or a == "to_list":
                        return {"list"}
                if "numpy.ndarray" in base and a in ("copy", "astype", "reshape", "ravel", "flatten", "transpose", "T"):
                    return {"numpy.ndarray"}
                if a == "copy" and base:
                    return base
                if a in ("get", "pop") and "dict" in base:
                    return {t[5:] for t in base if t.startswith("elem:")}
            return set()
        if isinstance(e, ast.Await):
            return self.expr_types(e.value, f, depth + 1)
        return set()

    # ----------------------------------------------------------- callees
    def resolve_call(self, call: ast.Call, f: Func, depth: int = 0, cha: bool = True) -> List[Func]:
        """Project functions a call may enter ([] when external/unknown)."""
        fn = call.func
        if isinstance(fn, ast.Subscript):
            return self.table_funcs(fn.value, f)
        if isinstance(fn, ast.Call) and isinstance(fn.func, ast.Attribute) and fn.func.attr == "get":
            return self.table_funcs(fn.func.value, f)
        if isinstance(fn, ast.Name):
            g: Optional[Func] = f
            while g is not None:
                if fn.id in g.inner:
                    return [g.inner[fn.id]]
                g = g.parent
            lt = self.local_types(f) if depth < 8 else {}
            if fn.id in lt:
                out: List[Func] = []
                for t in lt[fn.id]:
                    if t.startswith("type["):
                        c = self.classes.get(t[5:-1])
                        if c is not None:
                            i = c.find("__init__")
                            if i is not None:
                                out.append(i)
                    elif t in self.classes:
                        i = self.classes[t].find("__call__")
                        if i is not None:
                            out.append(i)
                if out:
                    return out
                # a local holding an alias of a function
                return self._alias_funcs(fn.id, f)
            d = self.dotted(fn, f.module)
            c = self.resolve_class(d)
            if c is not None:
                i = c.find("__init__")
                return [i] if i is not None else []
            r = self.resolve_func(d)
            return [r] if r is not None else []
        if isinstance(fn, ast.Attribute):
            v = fn.value
            # super().m
            if isinstance(v, ast.Call) and isinstance(v.func, ast.Name) and v.func.id == "super" and f.cls is not None:
                for k in f.cls.mro[1:]:
                    if fn.attr in k.methods:
                        return [k.methods[fn.attr]]
                return []
            d = self.dotted(fn, f.module)
            if d is not None:
                root = fn
                while isinstance(root, ast.Attribute):
                    root = root.value
                if isinstance(root, ast.Name) and root.id not in (self.local_types(f) if depth < 8 else {}):
                    c = self.resolve_class(d)
                    if c is not None:
                        i = c.find("__init__")
                        return [i] if i is not None else []
                    r = self.resolve_func(d)
                    if r is not None:
                        return [r]
            out = []
            for t in self.expr_types(v, f, depth + 1):
                tt = t[5:-1] if t.startswith("type[") else t
                c = self.classes.get(tt)
                if c is None:
                    continue
                attr = fn.attr
                if attr.startswith("__") and not attr.endswith("__"):
                    pass
                m = c.find(attr)
                if m is not None and m not in out:
                    out.append(m)
                if m is None:
                    # attribute holding a class / callable
                    for at in self.attr_types(c).get(attr, ()):  # e.g. self.model_class
                        if at.startswith("type["):
                            cc = self.classes.get(at[5:-1])
                            i = cc.find("__init__") if cc else None
                            if i is not None and i not in out:
                                out.append(i)
                if cha:
                    for s in c.all_subclasses():
                        if attr in s.methods and s.methods[attr] not in out:
                            out.append(s.methods[attr])
            return out
        return []

    def dict_literals(self, e: ast.AST, f: Func) -> List[Tuple[ast.Dict, Func]]:
        """dict displays an expression may denote: local, self attribute, module global"""
        out: List[Tuple[ast.Dict, Func]] = []
        if isinstance(e, ast.Dict):
            return [(e, f)]
        if isinstance(e, ast.Name):
            for n in _own_nodes(f.node):
                if isinstance(n, (ast.Assign, ast.AnnAssign)) and isinstance(n.value, ast.Dict):
                    ts = n.targets if isinstance(n, ast.Assign) else [n.target]
                    if any(isinstance(t, ast.Name) and t.id == e.id for t in ts):
                        out.append((n.value, f))
            if not out:
                d = self._follow(self.dotted(e, f.module) or "")
                mod, _, last = d.rpartition(".")
                m = self.modules.get(mod) or (f.module if not mod else None)
                if m is not None and isinstance(m.globals.get(last or d), ast.Dict):
                    out.append((m.globals[last or d], f))
        elif isinstance(e, ast.Attribute):
            classes = [self.classes[t] for t in self.expr_types(e.value, f) if t in self.classes]
            if not classes and isinstance(e.value, ast.Name) and e.value.id in ("self", "cls") and f.cls is not None:
                classes = [f.cls]
            for c in classes:
                ca = c.class_attr(e.attr)
                if isinstance(ca, ast.Dict):
                    out.append((ca, f))
                for k in c.mro:
                    for m in k.methods.values():
                        if not m.self_name:
                            continue
                        for n in _own_nodes(m.node):
                            if isinstance(n, (ast.Assign, ast.AnnAssign)) and isinstance(n.value, ast.Dict):
                                ts = n.targets if isinstance(n, ast.Assign) else [n.target]
                                if any(_is_self_attr(t, m.self_name) and t.attr == e.attr for t in ts):
                                    out.append((n.value, m))
            if not out:
                d = self._follow(self.dotted(e, f.module) or "")
                mod, _, last = d.rpartition(".")
                m = self.modules.get(mod)
                if m is not None and isinstance(m.globals.get(last), ast.Dict):
                    out.append((m.globals[last], f))
        return out

    def table_funcs(self, e: ast.AST, f: Func) -> List[Func]:
        """functions stored in a dispatch table"""
        out: List[Func] = []
        for d, ctx in self.dict_literals(e, f):
            for v in d.values:
                if not isinstance(v, (ast.Name, ast.Attribute)):
                    continue
                for g in self.resolve_call(ast.copy_location(ast.Call(func=v, args=[], keywords=[]), v), ctx):
                    if g not in out:
                        out.append(g)
        return out

    def _alias_funcs(self, name: str, f: Func) -> List[Func]:
        out = []
        for n in _own_nodes(f.node):
            if isinstance(n, ast.Assign) and any(isinstance(t, ast.Name) and t.id == name for t in n.targets):
                if isinstance(n.value, ast.Subscript):
                    out.extend(self.table_funcs(n.value.value, f))
                elif isinstance(n.value, ast.Call) and isinstance(n.value.func, ast.Attribute) and n.value.func.attr == "get":
                    out.extend(self.table_funcs(n.value.func.value, f))
                r = self.resolve_func(self.dotted(n.value, f.module)) if isinstance(n.value, (ast.Name, ast.Attribute)) else None
                if r is not None:
                    out.append(r)
        return out

    # bind a call's actuals to formals
    def bind(self, call: ast.Call, g: Func, method_call: Optional[bool] = None) -> Tuple[Dict[str, ast.AST], bool]:
        """formal name -> actual expr; second value: has star/double-star (incomplete)."""
        pos = list(g.posargs)
        if g.cls is not None and g.parent is None and not g.is_static:
            # unbound Class.m(self, ...) calls are rare: detect
            pos = pos[1:]
        out: Dict[str, ast.AST] = {}
        star = False
        i = 0
        for a in call.args:
            if isinstance(a, ast.Starred):
                star = True
                continue
            if star:
                continue
            if i < len(pos):
                out[pos[i]] = a
            elif g.vararg:
                out.setdefault(g.vararg, a)
            i += 1
        names = set(pos) | set(g.kwonly)
        for k in call.keywords:
            if k.arg is None:
                star = True
            elif k.arg in names:
                out[k.arg] = k.value
            elif g.kwarg:
                out.setdefault(f"**{k.arg}", k.value)
        return out, star


def _slicey(s: ast.AST) -> bool:
    """index expression selecting several elements (slice, mask, list)"""
    if isinstance(s, (ast.Slice, ast.List, ast.ListComp, ast.Compare, ast.UnaryOp)):
        return not (isinstance(s, ast.UnaryOp) and isinstance(s.op, (ast.USub, ast.UAdd)))
    if isinstance(s, ast.BinOp) and isinstance(s.op, (ast.BitAnd, ast.BitOr)):
        return True
    return isinstance(s, ast.Tuple) and any(_slicey(x) for x in s.elts)


def _toplevel(body: List[ast.stmt]) -> Iterator[ast.stmt]:
    for st in body:
        yield st
        if isinstance(st, ast.If):
            yield from _toplevel(st.body)
            yield from _toplevel(st.orelse)
        elif isinstance(st, ast.Try):
            yield from _toplevel(st.body)
            for h in st.handlers:
                yield from _toplevel(h.body)
            yield from _toplevel(st.orelse)
            yield from _toplevel(st.finalbody)
        elif isinstance(st, (ast.With,)):
            yield from _toplevel(st.body)


def _own_nodes(fn: ast.AST) -> Iterator[ast.AST]:
    """All nodes of a function, in source order, nested function bodies excluded
    (the nested def node itself is yielded); lambdas are included."""
    stack: List[ast.AST] = list(reversed(list(ast.iter_child_nodes(fn))))
    while stack:
        n = stack.pop()
        yield n
        if isinstance(n, (ast.FunctionDef, ast.AsyncFunctionDef, ast.ClassDef)):
            continue
        stack.extend(reversed(list(ast.iter_child_nodes(n))))


own_nodes = _own_nodes


def _is_self_attr(t: ast.AST, sn: str) -> bool:
    return isinstance(t, ast.Attribute) and isinstance(t.value, ast.Name) and t.value.id == sn


is_self_attr = _is_self_attr


def literal(e: ast.AST):
    """python value of a literal expression, or raises ValueError"""
    return ast.literal_eval(e)
