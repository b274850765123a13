"""What happens when the modules of the library are imported, given that some packages are not installed.

The module bodies are followed statement by statement on the syntax tree: imports (parents first, cycles with
partially filled namespaces), try/except around imports, class bodies, decorators, default values, annotations.
The result per module is either its namespace or the exception that stops the import."""
from __future__ import annotations

import ast
import builtins
from typing import Any, Dict, List, Optional, Set, Tuple

from .project import Module, Project

BUILTIN = set(dir(builtins)) | {"__name__", "__file__", "__doc__", "__path__", "__package__", "__spec__", "__loader__", "__all__", "__qualname__", "__module__", "__annotations__"}
IMPORT_KINDS = ("ModuleNotFoundError", "ImportError")
PARENTS = {"ModuleNotFoundError": {"ModuleNotFoundError", "ImportError", "Exception", "BaseException"},
           "ImportError": {"ImportError", "Exception", "BaseException"},
           "NameError": {"NameError", "Exception", "BaseException"},
           "TypeError": {"TypeError", "Exception", "BaseException"},
           "AttributeError": {"AttributeError", "Exception", "BaseException"}}


class Fail(Exception):
    def __init__(self, kind: str, where: str, why: str) -> None:
        super().__init__(why)
        self.kind, self.where, self.why = kind, where, why


class Ret(Exception):
    """a raise statement at module level that is not followed"""


UNKNOWN = object()


def unbindable(e: ast.Call, f: ast.FunctionDef) -> Optional[str]:
    """why the arguments of the call do not fit the signature"""
    if any(isinstance(a, ast.Starred) for a in e.args) or any(k.arg is None for k in e.keywords):
        return None
    a = f.args
    pos = [x.arg for x in a.posonlyargs + a.args]
    kw = {k.arg for k in e.keywords}
    if len(e.args) > len(pos) and a.vararg is None:
        return f"takes {len(pos)} positional arguments"
    only = {x.arg for x in a.kwonlyargs}
    bad = kw - set(pos) - only
    if bad and a.kwarg is None:
        return f"has no parameter {sorted(bad)[0]}"
    need = set(pos[len(e.args): len(pos) - len(a.defaults)]) | {x.arg for x, d in zip(a.kwonlyargs, a.kw_defaults) if d is None}
    gone = need - kw
    return f"lacks {sorted(gone)[0]}" if gone else None


class Sim:
    def __init__(self, prj: Project, missing: Set[str]) -> None:
        self.prj = prj
        self.missing = missing
        self.ns: Dict[str, Dict[str, Any]] = {}          # namespaces, also of modules being imported
        self.done: Dict[str, Optional[Fail]] = {}        # finished imports
        self.active: List[str] = []
        self.third: Set[Tuple[str, str]] = set()         # (module, top-level third-party name) reached
        self.n_imports = 0
        self.n_names = 0
        self.absent: Dict[str, Set[str]] = {}            # module -> names a failed import would have bound

    # ---------------------------------------------------------------- modules
    def import_(self, name: str, m: Module, node: ast.AST) -> None:
        """import a dotted module"""
        self.n_imports += 1
        top = name.split(".")[0]
        if top not in self.prj.tops:
            self.third.add((m.name, top))
            if top in self.missing:
                raise Fail("ModuleNotFoundError", f"{m.rel}:{node.lineno}", f"needs {top}")
            return
        parts = name.split(".")
        for i in range(1, len(parts) + 1):
            self.one(".".join(parts[:i]), m, node)

    def one(self, name: str, m: Optional[Module], node) -> None:
        if name in self.done:
            f = self.done[name]
            if f is None:
                return
            del self.done[name]         # Python forgets a failed module and tries again
        if name in self.active:
            return
        mod = self.prj.modules.get(name)
        if mod is None:
            if any(x.startswith(name + ".") for x in self.prj.modules):
                self.ns.setdefault(name, {})        # a directory without __init__.py is a namespace package
                self.done[name] = None
                return
            raise Fail("ModuleNotFoundError", f"{m.rel}:{node.lineno}" if m else "?", f"module {name} does not exist")
        self.active.append(name)
        self.ns[name] = {}
        try:
            self.block(mod.tree.body, mod, self.ns[name], None)
            self.done[name] = None
        except Fail as f:
            self.done[name] = f
            self.ns.pop(name, None)
            raise Fail(f.kind, f.where, f.why)
        finally:
            self.active.remove(name)
        par, _, last = name.rpartition(".")
        if par and par in self.ns:
            self.ns[par].setdefault(last, ("mod", name))

    # ---------------------------------------------------------------- bodies
    def block(self, body: List[ast.stmt], m: Module, ns: Dict[str, Any], cls: Optional[Dict[str, Any]]) -> None:
        for s in body:
            self.stmt(s, m, ns, cls)

    def bind(self, t: ast.AST, v: Any, ns: Dict[str, Any], cls: Optional[Dict[str, Any]]) -> None:
        d = ns if cls is None else cls
        if isinstance(t, ast.Name):
            d[t.id] = v
        elif isinstance(t, (ast.Tuple, ast.List)):
            for x in t.elts:
                self.bind(x.value if isinstance(x, ast.Starred) else x, UNKNOWN, ns, cls)

    def stmt(self, s: ast.stmt, m: Module, ns: Dict[str, Any], cls: Optional[Dict[str, Any]]) -> None:
        d = ns if cls is None else cls
        if isinstance(s, ast.Import):
            for a in s.names:
                self.import_(a.name, m, s)
                if a.asname:
                    d[a.asname] = ("mod", a.name)
                else:
                    d[a.name.split(".")[0]] = ("mod", a.name.split(".")[0])
        elif isinstance(s, ast.ImportFrom):
            self.from_(s, m, d)
        elif isinstance(s, (ast.FunctionDef, ast.AsyncFunctionDef)):
            self.signature(s, m, ns, cls)
            d[s.name] = ("fn", s)
        elif isinstance(s, ast.ClassDef):
            for e in s.decorator_list + s.bases + [k.value for k in s.keywords]:
                self.use(e, m, ns, cls)
            self.block(s.body, m, ns, {})
            d[s.name] = ("class", s.name)
        elif isinstance(s, ast.Assign):
            self.use(s.value, m, ns, cls)
            v = s.value.value if isinstance(s.value, ast.Constant) else UNKNOWN
            if isinstance(s.value, ast.Name):
                v = (cls or {}).get(s.value.id, ns.get(s.value.id, UNKNOWN))
            for t in s.targets:
                if not isinstance(t, ast.Name):
                    self.use(t, m, ns, cls)
                self.bind(t, v, ns, cls)
        elif isinstance(s, ast.AnnAssign):
            if s.value is not None:
                self.use(s.value, m, ns, cls)
                self.bind(s.target, s.value.value if isinstance(s.value, ast.Constant) else UNKNOWN, ns, cls)
            if not self.lazy(m):
                self.use(s.annotation, m, ns, cls)
        elif isinstance(s, ast.AugAssign):
            self.use(s.value, m, ns, cls)
        elif isinstance(s, ast.Expr):
            self.use(s.value, m, ns, cls)
        elif isinstance(s, ast.Try):
            self.try_(s, m, ns, cls)
        elif isinstance(s, ast.If):
            self.use(s.test, m, ns, cls)
            t = self.truth(s.test, ns)
            if isinstance(s.test, (ast.Name, ast.Attribute)) and ast.unparse(s.test).split(".")[-1] == "TYPE_CHECKING":
                t = False
            if t is not None:
                self.block(s.body if t else s.orelse, m, ns, cls)
            else:
                fails = []
                for b in (s.body, s.orelse):
                    try:
                        self.block(b, m, ns, cls)
                    except (Fail, Ret) as f:
                        fails.append(f)
                if len(fails) == 2 and isinstance(fails[0], Fail):
                    raise fails[0]
        elif isinstance(s, (ast.For, ast.While)):
            if isinstance(s, ast.For):
                self.use(s.iter, m, ns, cls)
                self.bind(s.target, UNKNOWN, ns, cls)
            else:
                self.use(s.test, m, ns, cls)
            self.block(s.body, m, ns, cls)
            self.block(s.orelse, m, ns, cls)
        elif isinstance(s, ast.With):
            for i in s.items:
                self.use(i.context_expr, m, ns, cls)
                if i.optional_vars is not None:
                    self.bind(i.optional_vars, UNKNOWN, ns, cls)
            self.block(s.body, m, ns, cls)
        elif isinstance(s, ast.Raise):
            n = ""
            if s.exc is not None:
                n = ast.unparse(s.exc.func if isinstance(s.exc, ast.Call) else s.exc)
            if n in PARENTS:
                raise Fail(n, f"{m.rel}:{s.lineno}", f"raises {n}")
            raise Ret()
        elif isinstance(s, ast.Delete):
            for t in s.targets:
                if isinstance(t, ast.Name):
                    d.pop(t.id, None)

    def try_(self, s: ast.Try, m, ns, cls) -> None:
        try:
            try:
                self.block(s.body, m, ns, cls)
            except Fail as f:
                for h in s.handlers:
                    if h.type is None or {x.split(".")[-1] for x in self.names(h.type)} & PARENTS[f.kind]:
                        if h.name:
                            self.bind(ast.Name(id=h.name), UNKNOWN, ns, cls)
                        if cls is None:
                            self.lost(s, h, m, ns)
                        self.block(h.body, m, ns, cls)
                        return
                raise
            else:
                self.block(s.orelse, m, ns, cls)
        finally:
            self.block(s.finalbody, m, ns, cls)

    def lost(self, s: ast.Try, h: ast.ExceptHandler, m: Module, ns: Dict[str, Any]) -> None:
        """names the failed imports of a try body would have bound and that the handler does not really replace"""
        want: Set[str] = set()
        for x in s.body:
            for i in ast.walk(x):
                if isinstance(i, (ast.Import, ast.ImportFrom)):
                    want |= {a.asname or a.name.split(".")[0] for a in i.names if a.name != "*"}
        for x in h.body:
            for i in ast.walk(x):
                if isinstance(i, (ast.FunctionDef, ast.ClassDef)):
                    want.discard(i.name)
                elif isinstance(i, (ast.Import, ast.ImportFrom)):
                    want -= {a.asname or a.name.split(".")[0] for a in i.names}
                elif isinstance(i, ast.Assign) and isinstance(i.value, ast.Lambda):
                    want -= {t.id for t in i.targets if isinstance(t, ast.Name)}
        self.absent.setdefault(m.name, set()).update(w for w in want if w not in ns)

    @staticmethod
    def names(t: ast.AST) -> List[str]:
        return [ast.unparse(x) for x in (t.elts if isinstance(t, ast.Tuple) else [t])]

    def from_(self, s: ast.ImportFrom, m: Module, d: Dict[str, Any]) -> None:
        base = s.module or ""
        if s.level:
            pk = m.name.split(".")
            if not m.is_pkg:
                pk = pk[:-1]
            pk = pk[: len(pk) - (s.level - 1)]
            base = ".".join(pk + ([s.module] if s.module else []))
        if base == "__future__":
            return
        self.import_(base, m, s)
        internal = base.split(".")[0] in self.prj.tops
        for a in s.names:
            if a.name == "*":
                if internal:
                    for k, v in self.ns.get(base, {}).items():
                        if not k.startswith("_"):
                            d[k] = v
                continue
            v: Any = UNKNOWN
            if internal:
                src = self.ns.get(base, {})
                if a.name in src:
                    v = src[a.name]
                elif f"{base}.{a.name}" in self.prj.modules:
                    self.one(f"{base}.{a.name}", m, s)
                    v = ("mod", f"{base}.{a.name}")
                else:
                    late = " yet: the imports form a cycle" if base in self.active else ""
                    raise Fail("ImportError", f"{m.rel}:{s.lineno}", f"{base} has no {a.name}{late}")
            elif f"{base}.{a.name}" in self.missing:
                raise Fail("ImportError", f"{m.rel}:{s.lineno}", f"needs {base}.{a.name}")
            d[a.asname or a.name] = v

    def lazy(self, m: Module) -> bool:
        return any(isinstance(s, ast.ImportFrom) and s.module == "__future__" and any(a.name == "annotations" for a in s.names) for s in m.tree.body)

    def signature(self, s, m, ns, cls) -> None:
        for e in s.decorator_list + s.args.defaults + [x for x in s.args.kw_defaults if x is not None]:
            self.use(e, m, ns, cls)
        if not self.lazy(m):
            a = s.args
            for p in a.posonlyargs + a.args + a.kwonlyargs + [x for x in (a.vararg, a.kwarg) if x]:
                if p.annotation is not None:
                    self.use(p.annotation, m, ns, cls)
            if s.returns is not None:
                self.use(s.returns, m, ns, cls)

    def truth(self, e: ast.AST, ns: Dict[str, Any]) -> Optional[bool]:
        if isinstance(e, ast.Constant):
            return bool(e.value)
        if isinstance(e, ast.Name):
            v = ns.get(e.id, UNKNOWN)
            return v if isinstance(v, bool) else False if v is None and e.id in ns else None
        if isinstance(e, ast.UnaryOp) and isinstance(e.op, ast.Not):
            t = self.truth(e.operand, ns)
            return None if t is None else not t
        if isinstance(e, ast.BoolOp):
            ts = [self.truth(x, ns) for x in e.values]
            stop = isinstance(e.op, ast.Or)
            if stop in ts:
                return stop
            return None if None in ts else not stop
        if isinstance(e, ast.Compare) and len(e.ops) == 1 and isinstance(e.left, ast.Name) and isinstance(e.comparators[0], ast.Constant):
            v, c = ns.get(e.left.id, UNKNOWN), e.comparators[0].value
            if v is UNKNOWN or isinstance(v, tuple) and not (c is None):
                return None
            if isinstance(e.ops[0], (ast.Is, ast.Eq)):
                return v == c
            if isinstance(e.ops[0], (ast.IsNot, ast.NotEq)):
                return v != c
        return None

    # ---------------------------------------------------------------- names
    def use(self, e: Optional[ast.AST], m: Module, ns: Dict[str, Any], cls: Optional[Dict[str, Any]], extra: frozenset = frozenset()) -> None:
        """evaluate an expression for its names"""
        if e is None:
            return
        if isinstance(e, ast.Lambda):
            for x in e.args.defaults + [k for k in e.args.kw_defaults if k is not None]:
                self.use(x, m, ns, cls, extra)
            return
        if isinstance(e, (ast.ListComp, ast.SetComp, ast.GeneratorExp, ast.DictComp)):
            ex = set(extra)
            for g in e.generators:
                self.use(g.iter, m, ns, cls, frozenset(ex))
                ex |= {n.id for n in ast.walk(g.target) if isinstance(n, ast.Name)}
            fx = frozenset(ex)
            for g in e.generators:
                for c in g.ifs:
                    self.use(c, m, ns, cls, fx)
            for x in ([e.key, e.value] if isinstance(e, ast.DictComp) else [e.elt]):
                self.use(x, m, ns, cls, fx)
            return
        if isinstance(e, ast.NamedExpr):
            self.use(e.value, m, ns, cls, extra)
            self.bind(e.target, UNKNOWN, ns, cls)
            return
        if isinstance(e, ast.Name):
            if isinstance(e.ctx, ast.Load):
                self.n_names += 1
                if e.id not in ns and (cls is None or e.id not in cls) and e.id not in BUILTIN and e.id not in extra:
                    raise Fail("NameError", f"{m.rel}:{e.lineno}", f"name {e.id} is not bound")
            return
        if isinstance(e, ast.Attribute):
            self.use(e.value, m, ns, cls, extra)
            if isinstance(e.ctx, ast.Load):
                v = self.module_of(e.value, ns, cls)
                if v is not None and v.split(".")[0] in self.prj.tops and self.attr_of(v, e.attr) is None:
                    raise Fail("AttributeError", f"{m.rel}:{e.lineno}", f"module {v} has no {e.attr}")
            return
        for x in ast.iter_child_nodes(e):
            self.use(x, m, ns, cls, extra)
        if isinstance(e, ast.Call) and isinstance(e.func, ast.Name):
            v = (cls or {}).get(e.func.id, ns.get(e.func.id))
            if isinstance(v, tuple) and v[0] == "fn" and not v[1].decorator_list:
                why = unbindable(e, v[1])
                if why:
                    raise Fail("TypeError", f"{m.rel}:{e.lineno}", f"{e.func.id}() {why}")

    def attr_of(self, mod: str, a: str) -> Any:
        if mod not in self.prj.modules:
            return UNKNOWN
        src = self.ns.get(mod)
        if src is None:
            return None
        return src.get(a, UNKNOWN if a in BUILTIN else None) if a in src or a in BUILTIN else None

    def module_of(self, e: ast.AST, ns, cls) -> Optional[str]:
        if isinstance(e, ast.Name):
            v = (cls or {}).get(e.id, ns.get(e.id))
            return v[1] if isinstance(v, tuple) and v[0] == "mod" else None
        if isinstance(e, ast.Attribute):
            v = self.module_of(e.value, ns, cls)
            if v is None:
                return None
            if v.split(".")[0] not in self.prj.tops:
                return None
            w = self.attr_of(v, e.attr)
            return w[1] if isinstance(w, tuple) and w[0] == "mod" else None
        return None

    def status(self, name: str) -> Optional[Fail]:
        try:
            parts = name.split(".")
            for i in range(1, len(parts) + 1):
                self.one(".".join(parts[:i]), None, None)
        except Fail as f:
            return f
        return None
