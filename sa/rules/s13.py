"""S13: process-wide settings are left alone, and what is acquired is released on every path.

For every function and module body: each change of a setting shared by the whole process (numpy,
pandas, matplotlib, warnings, logging, environment, random generators, standard streams, attributes
of imported modules) must lie inside a construct that restores it, and each worker pool, file or
descriptor must be released on every path, the paths left by a failing worker or reader included.
Paths are those of a control-flow graph with exception edges and inlined `finally` blocks."""
from __future__ import annotations

import ast
from typing import Callable, Dict, FrozenSet, Iterator, List, Optional, Set, Tuple

from ..cfg import CFG, Node, escape, walk_now
from ..project import Func, Module, Project, own_nodes
from ..report import Ctx

# setter -> (family, call that undoes it; None: only a restoring context does)
SETTERS: Dict[str, str] = {}
for _fam, _names in {
    "warnings": "warnings.filterwarnings warnings.simplefilter warnings.resetwarnings logging.captureWarnings",
    "numpy": "numpy.seterr numpy.seterrcall numpy.set_printoptions numpy.set_string_function numpy.setbufsize",
    "pandas": "pandas.set_option pandas.reset_option pandas.set_eng_float_format pandas.plotting.register_matplotlib_converters "
              "pandas.plotting.deregister_matplotlib_converters",
    "matplotlib": "matplotlib.use matplotlib.rc matplotlib.rcdefaults matplotlib.rc_file matplotlib.pyplot.rc matplotlib.pyplot.rcdefaults "
                  "matplotlib.pyplot.style.use matplotlib.style.use matplotlib.pyplot.switch_backend matplotlib.pyplot.ion "
                  "matplotlib.pyplot.ioff matplotlib.pyplot.set_cmap matplotlib.pyplot.xkcd seaborn.set seaborn.set_theme seaborn.set_style seaborn.set_context "
                  "seaborn.set_palette seaborn.set_color_codes seaborn.reset_defaults seaborn.reset_orig",
    "logging": "logging.basicConfig logging.disable logging.setLoggerClass logging.addLevelName logging.setLogRecordFactory logging.config.dictConfig "
               "logging.config.fileConfig logging.root.setLevel logging.root.addHandler logging.root.removeHandler logging.root.addFilter logging.shutdown",
    "directory": "os.chdir os.fchdir os.umask os.nice os.chroot",
    "environment": "os.putenv os.unsetenv",
    "interpreter": "sys.setrecursionlimit sys.settrace sys.setprofile sys.setswitchinterval gc.disable gc.enable gc.set_threshold gc.freeze signal.signal "
                   "signal.alarm locale.setlocale time.tzset faulthandler.enable faulthandler.disable "
                   "multiprocessing.set_start_method torch.multiprocessing.set_start_method torch.multiprocessing.set_sharing_strategy "
                   "socket.setdefaulttimeout decimal.setcontext threading.stack_size",
    "torch": "torch.set_num_threads torch.set_num_interop_threads torch.set_default_dtype torch.set_default_tensor_type torch.set_grad_enabled "
             "torch.use_deterministic_algorithms torch.set_printoptions torch.autograd.set_detect_anomaly torch.set_default_device "
             "torch.set_flush_denormal",
    "plotly": "plotly.io.templates.default plotly.offline.init_notebook_mode",
}.items():
    for _n in _names.split():
        SETTERS[_n] = _fam
SEEDS = {"numpy.random.seed", "numpy.random.set_state", "random.seed", "random.setstate", "torch.manual_seed", "torch.random.manual_seed",
         "torch.cuda.manual_seed", "torch.cuda.manual_seed_all", "torch.set_rng_state", "torch.seed"}
# methods that change a process-wide object
OBJ_METHODS = {
    "os.environ": ("environment", {"update", "setdefault", "pop", "clear", "popitem", "__setitem__", "__delitem__"}),
    "matplotlib.rcParams": ("matplotlib", {"update", "setdefault", "pop", "clear", "__setitem__"}),
    "matplotlib.pyplot.rcParams": ("matplotlib", {"update", "setdefault", "pop", "clear", "__setitem__"}),
    "sys.path": ("interpreter", {"append", "insert", "extend", "remove", "pop", "clear", "reverse", "sort"}),
    "sys.modules": ("interpreter", {"update", "pop", "setdefault", "clear"}),
    "warnings.filters": ("warnings", {"append", "insert", "clear", "pop", "remove", "extend"}),
}
LOGGER_METHODS = {"setLevel", "addHandler", "removeHandler", "addFilter", "removeFilter"}
CONTEXTS = {"warnings.catch_warnings": {"warnings"}, "numpy.errstate": {"numpy"}, "numpy.printoptions": {"numpy"},
            "pandas.option_context": {"pandas"}, "matplotlib.rc_context": {"matplotlib"}, "matplotlib.pyplot.rc_context": {"matplotlib"},
            "matplotlib.pyplot.style.context": {"matplotlib"}, "matplotlib.style.context": {"matplotlib"},
            "seaborn.axes_style": set(), "seaborn.plotting_context": set(), "torch.random.fork_rng": {"random"},
            "unittest.mock.patch.dict": {"environment"}}
POOLS = {"Pool", "ThreadPool", "ProcessPoolExecutor", "ThreadPoolExecutor"}
FILES = {"open", "io.open", "gzip.open", "bz2.open", "lzma.open", "zipfile.ZipFile", "tarfile.open", "codecs.open", "os.fdopen",
         "tempfile.TemporaryFile", "tempfile.NamedTemporaryFile", "tempfile.SpooledTemporaryFile", "tempfile.TemporaryDirectory", "socket.socket",
         "sqlite3.connect", "shelve.open", "mmap.mmap"}
FDS = {"os.open", "os.dup"}
PROCS = {"multiprocessing.Process", "threading.Thread", "torch.multiprocessing.Process"}
RELEASE = {"close", "terminate", "shutdown", "__exit__", "cleanup", "disconnect", "kill"}
ASYNC = {"apply_async", "map_async", "starmap_async", "submit"}
QUIET_METHODS = ASYNC | {"close", "join", "terminate", "append", "items", "keys", "values", "lower", "upper", "format", "split", "strip", "extend", "add",
                         "copy", "setdefault", "update", "startswith", "endswith"}
QUIET_FUNCS = {"len", "range", "min", "max", "list", "dict", "zip", "enumerate", "int", "str", "float", "bool", "print", "isinstance", "tuple", "set", "sorted",
               "sum", "repr", "type", "id", "getattr", "hasattr", "time.time", "time.perf_counter", "time.monotonic", "datetime.datetime.now", "cast",
               "typing.cast"}


class Scope:
    """one function, class body or module body"""

    def __init__(self, prj: Project, m: Module, name: str, body: List[ast.stmt], f: Optional[Func]) -> None:
        self.prj, self.m, self.name, self.body, self.f = prj, m, name, body, f
        self._cfg: Optional[CFG] = None
        self.local: Set[str] = set()
        self.imports: Dict[str, str] = {}
        if f is not None:
            self.local |= set(f.params) | ({f.self_name} if f.self_name else set())
            for x in (f.vararg, f.kwarg):
                if x:
                    self.local.add(x)
            p = f.parent
            while p is not None:
                self.local |= set(p.params)
                for n in own_nodes(p.node):
                    if isinstance(n, ast.Name) and isinstance(n.ctx, ast.Store):
                        self.local.add(n.id)
                p = p.parent
            for n in own_nodes(f.node):
                if isinstance(n, ast.Name) and isinstance(n.ctx, ast.Store):
                    self.local.add(n.id)
                elif isinstance(n, ast.Import):
                    for a in n.names:
                        self.imports[a.asname or a.name.split(".")[0]] = a.name if a.asname else a.name.split(".")[0]
                elif isinstance(n, ast.ImportFrom) and not n.level and n.module:
                    for a in n.names:
                        self.imports[a.asname or a.name] = f"{n.module}.{a.name}"
            for n in own_nodes(f.node):
                if isinstance(n, ast.Global):
                    self.local -= set(n.names)

    @property
    def cfg(self) -> CFG:
        if self._cfg is None:
            self._cfg = CFG(self.body)
        return self._cfg

    def where(self, n: Optional[ast.AST]) -> str:
        return f"{self.m.rel}:{getattr(n, 'lineno', 0)} in {self.name}"

    def dotted(self, e: ast.AST) -> Optional[str]:
        x = e
        while isinstance(x, ast.Attribute):
            x = x.value
        if not isinstance(x, ast.Name):
            return None
        if x.id in self.imports:
            tail = ast.unparse(e)[len(x.id):]
            return self.imports[x.id] + tail
        if x.id in self.local:
            d = self.alias(x.id)
            return None if d is None else d + ast.unparse(e)[len(x.id):]
        return self.prj.dotted(e, self.m)

    def alias(self, name: str) -> Optional[str]:
        """`cfg = plt.rcParams`: a local that stands for a module attribute"""
        if self.f is None or name in self.f.params:
            return None
        vs = [n.value for n in own_nodes(self.f.node) if isinstance(n, ast.Assign)
              and any(isinstance(t, ast.Name) and t.id == name for t in n.targets)]
        if len(vs) == 1 and isinstance(vs[0], (ast.Attribute, ast.Name)):
            v = vs[0]
            while isinstance(v, ast.Attribute):
                v = v.value
            if isinstance(v, ast.Name) and v.id != name and v.id not in self.local:
                return self.prj.dotted(vs[0], self.m)
        return None

    def external(self, e: ast.AST) -> Optional[str]:
        """dotted name if `e` is (an attribute of) an imported module that is not the library's own"""
        x = e
        while isinstance(x, ast.Attribute):
            x = x.value
        if not isinstance(x, ast.Name):
            return None
        if x.id in self.local and x.id not in self.imports and self.alias(x.id) is None:
            return None
        if x.id not in self.imports and x.id not in self.m.imports and self.alias(x.id) is None:
            return None
        d = self.dotted(e)
        return d if d is not None and not d.startswith("kats.") and d != "kats" else None


def scopes(prj: Project) -> Iterator[Scope]:
    for m in prj.modules.values():
        body: List[ast.stmt] = []

        def flat(b: List[ast.stmt]) -> List[ast.stmt]:
            out: List[ast.stmt] = []
            for s in b:
                if isinstance(s, ast.ClassDef):
                    out += flat(s.body)
                elif not isinstance(s, (ast.FunctionDef, ast.AsyncFunctionDef)):
                    out.append(s)
            return out
        body = flat(m.tree.body)
        yield Scope(prj, m, "<module>", body, None)
    for f in prj.funcs.values():
        if not isinstance(f.node, ast.Lambda):
            yield Scope(prj, f.module, f.short, f.node.body, f)


# ------------------------------------------------------------------ settings
def setting(sc: Scope, n: ast.AST) -> Optional[Tuple[str, str]]:
    """(what is changed, family) if evaluating `n` itself changes a process-wide setting"""
    if isinstance(n, ast.Call):
        d = sc.dotted(n.func)
        if d is not None:
            d = d.replace("matplotlib.pyplot.mpl.", "matplotlib.")
            if d in SETTERS:
                return d, SETTERS[d]
            if d in SEEDS:
                return d, "random"
            if d in ("setattr", "delattr") and n.args:
                x = sc.external(n.args[0])
                if x is not None:
                    return f"attribute of {x}", "attribute"
        if isinstance(n.func, ast.Attribute):
            b = sc.dotted(n.func.value)
            if b in OBJ_METHODS and n.func.attr in OBJ_METHODS[b][1]:
                return f"{b}.{n.func.attr}", OBJ_METHODS[b][0]
            if n.func.attr in LOGGER_METHODS and foreign_logger(sc, n.func.value):
                return f"logger.{n.func.attr}", "logging"
    if isinstance(n, (ast.Attribute, ast.Subscript)) and isinstance(n.ctx, (ast.Store, ast.Del)):
        base = n.value
        d = sc.external(base)
        if d is None and isinstance(n, ast.Subscript) and isinstance(base, ast.Call):
            return None
        if d is not None:
            fam = "pandas" if d.startswith("pandas.options") else "matplotlib" if d.endswith("rcParams") else \
                  "environment" if d == "os.environ" else "attribute"
            if isinstance(n, ast.Attribute):
                return f"{d}.{n.attr}", fam
            return f"{d}[...]", fam
        if isinstance(n, ast.Attribute) and n.attr in ("propagate", "disabled", "level", "handlers", "filters") and foreign_logger(sc, base):
            return f"logger.{n.attr}", "logging"
    return None


def foreign_logger(sc: Scope, e: ast.AST) -> bool:
    """the root logger, or one named after another package"""
    if isinstance(e, ast.Call) and sc.dotted(e.func) == "logging.getLogger":
        if not e.args and not e.keywords:
            return True
        a = e.args[0] if e.args else e.keywords[0].value
        if isinstance(a, ast.Constant):
            return a.value is None or (isinstance(a.value, str) and a.value.split(".")[0] in FOREIGN)
        return False
    if isinstance(e, ast.Name):
        vs: List[ast.AST] = []
        src = [sc.f.node] if sc.f is not None and e.id in sc.local else [sc.m.tree]
        for r in src:
            for n in ast.walk(r):
                if isinstance(n, ast.Assign) and any(isinstance(t, ast.Name) and t.id == e.id for t in n.targets):
                    vs.append(n.value)
                if isinstance(n, ast.AnnAssign) and isinstance(n.target, ast.Name) and n.target.id == e.id and n.value is not None:
                    vs.append(n.value)
        return any(isinstance(v, ast.Call) and foreign_logger(sc, v) for v in vs)
    return sc.dotted(e) == "logging.root"


FOREIGN = {"fbprophet", "prophet", "matplotlib", "statsmodels", "numpy", "pandas", "ax", "torch", "sklearn", "cmdstanpy", "pystan", "numba", "plotly",
           "lightgbm", "neuralprophet", "NP", "scipy", "gpytorch", "nevergrad", "py4j", "root"}


def constant_only(sc: Scope, e: Optional[ast.AST], depth: int = 0) -> bool:
    """the value cannot come from the caller"""
    if e is None or depth > 4:
        return True
    for x in ast.walk(e):
        if isinstance(x, ast.Name) and isinstance(x.ctx, ast.Load):
            f = sc.f
            if f is None:
                continue
            g: Optional[Func] = f
            while g is not None:
                if x.id in g.params or x.id in (g.vararg, g.kwarg):
                    return False
                for n in own_nodes(g.node):
                    if isinstance(n, (ast.For, ast.comprehension)) and any(isinstance(t, ast.Name) and t.id == x.id for t in ast.walk(n.target)):
                        if not constant_only(sc, n.iter, depth + 1):
                            return False
                    v = n.value if isinstance(n, (ast.Assign, ast.AnnAssign, ast.NamedExpr, ast.AugAssign)) else None
                    if v is not None:
                        ts = n.targets if isinstance(n, ast.Assign) else [n.target]
                        if any(isinstance(t, ast.Name) and t.id == x.id for tt in ts for t in ast.walk(tt)) and not constant_only(sc, v, depth + 1):
                            return False
                g = g.parent
    return True


def caller_seed(sc: Scope, call: ast.Call) -> bool:
    a = call.args[0] if call.args else next((k.value for k in call.keywords), None)
    return a is not None and not constant_only(sc, a)


def guards(root: List[ast.stmt]) -> Dict[ast.AST, List[ast.AST]]:
    """for every node the `with` statements whose body it is in, innermost first"""
    out: Dict[ast.AST, List[ast.AST]] = {}

    def visit(n: ast.AST, ws: List[ast.AST]) -> None:
        out[n] = ws
        if isinstance(n, (ast.With, ast.AsyncWith)):
            for i, it in enumerate(n.items):
                visit(it, ws + [x for x in n.items[:i]])
            inner = list(n.items)[::-1] + ws
            for b in n.body:
                visit(b, inner)
            return
        for c in ast.iter_child_nodes(n):
            if not isinstance(c, (ast.FunctionDef, ast.AsyncFunctionDef, ast.ClassDef)):
                visit(c, ws)
    for s in root:
        visit(s, [])
    return out


def restoring(sc: Scope, items: List[ast.AST], fam: str, own: Dict[str, Set[str]]) -> bool:
    for it in items:
        e = it.context_expr
        if isinstance(e, ast.Call):
            d = sc.dotted(e.func)
            if d is not None and fam in CONTEXTS.get(d, set()):
                return True
            f = sc.prj.resolve_func(d) if d else None
            if f is not None and fam in own.get(f.qual, set()):
                return True
    return False


# ------------------------------------------------------------------ the rule
class Rule:
    def __init__(self, prj: Project) -> None:
        self.prj = prj
        self.scopes = list(scopes(prj))
        self.by_func = {s.f.qual: s for s in self.scopes if s.f is not None}
        self.callers: Dict[str, List[Tuple[Scope, ast.Call]]] = {}
        self.own: Dict[str, Set[str]] = {}
        self.found: List[Tuple[str, str, str, str]] = []
        self.n: Dict[str, int] = {}
        self.acquirers: Dict[str, str] = {}
        for sc in self.scopes:
            if sc.f is None:
                continue
            for n in own_nodes(sc.f.node):
                if isinstance(n, ast.Call):
                    for g in prj.resolve_call(n, sc.f):
                        self.callers.setdefault(g.qual, []).append((sc, n))

    def cnt(self, k: str) -> None:
        self.n[k] = self.n.get(k, 0) + 1

    def run(self) -> None:
        for _ in range(2):                  # helpers that hand out what they acquired
            self.found = []
            self.n = {}
            for sc in self.scopes:
                self.scope(sc)
        for c in self.prj.classes.values():
            if c.module.rel.startswith("kats") and "__enter__" in c.methods:
                self.manager(c)

    # -- path helpers
    def raises(self, sc: Scope, n: Node, var: Optional[str]) -> bool:
        if isinstance(n.ast, ast.Raise):
            return True
        for e in sc.cfg.code(n):
            for x in walk_now(e):
                if isinstance(x, (ast.Yield, ast.YieldFrom, ast.Await)):
                    return True
                if isinstance(x, ast.Call):
                    d = sc.dotted(x.func) or ""
                    if d in QUIET_FUNCS or d.split(".")[0] in ("logging",) or d.startswith(("logging.", "_log", "LOGGER")):
                        continue
                    if d.rpartition(".")[0].split(".")[-1] in ("_log", "logger", "LOGGER", "_LOGGER", "_logger"):
                        continue
                    if isinstance(x.func, ast.Attribute) and x.func.attr in QUIET_METHODS:
                        continue
                    return True
        return False

    def facts(self, sc: Scope, s: ast.AST) -> FrozenSet[Tuple[str, bool]]:
        out: Set[Tuple[str, bool]] = set()

        def find(body: List[ast.stmt]) -> bool:
            for b in body:
                if b is s or any(x is s for x in walk_now(b)):
                    if isinstance(b, ast.If):
                        t, pos = b.test, True
                        while isinstance(t, ast.UnaryOp) and isinstance(t.op, ast.Not):
                            t, pos = t.operand, not pos
                        if any(x is s for q in b.body for x in ast.walk(q)):
                            out.add((ast.unparse(t), pos))
                            find(b.body)
                        elif any(x is s for q in b.orelse for x in ast.walk(q)):
                            out.add((ast.unparse(t), not pos))
                            find(b.orelse)
                    else:
                        for fld in ("body", "orelse", "finalbody"):
                            q = getattr(b, fld, None)
                            if isinstance(q, list) and q and isinstance(q[0], ast.stmt):
                                find(q)
                        for h in getattr(b, "handlers", []) or []:
                            find(h.body)
                    return True
            return False
        find(sc.body)
        return frozenset(out)

    def leak(self, sc: Scope, at: ast.AST, stop: Callable[[ast.AST], bool], var: Optional[str], exceptional: bool = True
             ) -> Optional[Tuple[str, int]]:
        """a path after the statement `at` to the end of the scope without `stop`"""
        cfg = sc.cfg

        def stops(n: Node) -> bool:
            if n.kind == "with" and var is not None and any(
                    isinstance(i.context_expr, ast.Name) and i.context_expr.id == var or
                    isinstance(i.context_expr, ast.Call) and any(isinstance(a, ast.Name) and a.id == var for a in i.context_expr.args)
                    for i in n.ast.items):
                return True
            return any(stop(x) for e in cfg.code(n) for x in walk_now(e))

        def known(t: ast.AST) -> Optional[bool]:
            if var is None:
                return None
            if isinstance(t, ast.Name) and t.id == var:
                return True
            if isinstance(t, ast.Compare) and isinstance(t.left, ast.Name) and t.left.id == var and len(t.ops) == 1 \
                    and isinstance(t.comparators[0], ast.Constant) and t.comparators[0].value is None:
                return isinstance(t.ops[0], (ast.IsNot, ast.NotEq))
            return None
        nodes = [n for n in cfg.nodes if n.kind in ("stmt", "with", "test", "iter") and
                 any(x is at for e in cfg.code(n) for x in walk_now(e))]
        for n in nodes:
            r = escape(cfg, list(n.succ), stops, lambda k: exceptional and self.raises(sc, k, var), self.facts(sc, at), known)
            if r is not None:
                last = next((p for p in reversed(r[1]) if p.ast is not None and p.kind != "endwith"), None)
                return r[0], last.line() if last is not None else n.line()
        return None

    # -- one scope
    def scope(self, sc: Scope) -> None:
        self.cnt("scopes walked")
        gs = guards(sc.body)
        for n in list(gs):
            st = setting(sc, n)
            if st is not None:
                self.cnt("changes of process-wide settings")
                self.judge_setting(sc, n, st, gs[n])
            if isinstance(n, ast.Call):
                k = self.resource(sc, n)
                if k is not None:
                    self.cnt("acquisitions of pools, files and descriptors")
                    self.judge_resource(sc, n, k, gs)
                if isinstance(n.func, ast.Attribute) and n.func.attr == "__enter__" and sc.name.split(".")[-1] != "__enter__":
                    txt = ast.unparse(n.func.value)
                    if self.leak(sc, n, lambda x: isinstance(x, ast.Call) and isinstance(x.func, ast.Attribute)
                                 and x.func.attr == "__exit__" and ast.unparse(x.func.value) == txt, None):
                        self.report(sc, n, "context", txt, "a context entered by hand is not left on every path")
                if isinstance(n.func, ast.Attribute) and n.func.attr in ASYNC:
                    self.cnt("jobs handed to workers")
                    self.judge_async(sc, n, gs)

    def report(self, sc: Scope, n: ast.AST, rule: str, what: str, why: str) -> None:
        self.found.append((rule, f"{sc.m.name}:{sc.name}|{what}", sc.where(n), why))

    def judge_setting(self, sc: Scope, n: ast.AST, st: Tuple[str, str], items: List[ast.AST]) -> None:
        what, fam = st
        if fam == "random" and isinstance(n, ast.Call) and what.split(".")[-1] in ("seed", "manual_seed", "manual_seed_all") and caller_seed(sc, n):
            return
        if restoring(sc, items, fam, self.own):
            return
        if sc.f is not None and sc.f.name in ("__enter__", "__exit__") and sc.f.cls is not None and {"__enter__", "__exit__"} <= set(sc.f.cls.methods):
            other = sc.f.cls.methods["__exit__" if sc.f.name == "__enter__" else "__enter__"]
            osc = self.by_func[other.qual]
            if any((s := setting(osc, x)) is not None and s[0] == what for x in own_nodes(other.node)):
                return
        if self.in_finally(sc, n):
            return                  # the restoring half; its other half is judged where it stands

        def undo(x: ast.AST) -> bool:
            s = setting(sc, x)
            return s is not None and x is not n and (s[0] == what or (fam == "random" and s[1] == "random")) and self.in_finally(sc, x)
        if self.has_finally(sc) and self.leak(sc, n, undo, None) is None:
            return
        # a helper all of whose callers restore
        if sc.f is not None and sc.f.name.startswith("_"):
            cs = self.callers.get(sc.f.qual, [])
            if cs and all(restoring(c, guards(c.body).get(k, []), fam, self.own) for c, k in cs):
                return
        self.report(sc, n, "setting", what, f"{what} changes a setting of the whole process and nothing restores it" if fam != "random" else
                    f"{what} resets the process-wide random generator with a value the caller did not choose")

    def in_finally(self, sc: Scope, n: ast.AST) -> bool:
        for t in [x for s in sc.body for x in ast.walk(s)]:
            if isinstance(t, ast.Try) and any(y is n for s in t.finalbody for y in ast.walk(s)):
                return True
        return False

    def has_finally(self, sc: Scope) -> bool:
        return any(isinstance(x, ast.Try) and x.finalbody for s in sc.body for x in ast.walk(s))

    # -- resources
    def resource(self, sc: Scope, n: ast.Call) -> Optional[str]:
        d = sc.dotted(n.func)
        last = n.func.attr if isinstance(n.func, ast.Attribute) else n.func.id if isinstance(n.func, ast.Name) else ""
        if d is not None:
            if d in FDS:
                return "descriptor"
            if d in FILES and not (d == "open" and "open" in sc.local):
                return "file"
            if d.split(".")[-1] in POOLS and not d.startswith("kats."):
                return "pool"
        elif last in POOLS:
            return "pool"
        if last == "open" and d is None and isinstance(n.func, ast.Attribute) and isinstance(n.func.value, ast.Call) \
                and (sc.dotted(n.func.value.func) or "").endswith("Path"):
            return "file"
        if sc.f is not None:
            for g in self.prj.resolve_call(n, sc.f):
                if g.qual in self.acquirers:
                    return self.acquirers[g.qual]
        return None

    def judge_resource(self, sc: Scope, call: ast.Call, kind: str, gs: Dict[ast.AST, List[ast.AST]]) -> None:
        name = {"pool": "worker pool", "file": "file", "descriptor": "file descriptor"}[kind]
        st, par = None, {}
        for s in sc.body:
            for x in ast.walk(s):
                for c in ast.iter_child_nodes(x):
                    par[c] = x
        p = call
        chain = []
        while p in par and not isinstance(p, ast.stmt):
            p = par[p]
            chain.append(p)
        st = p
        # with X(...) as y / with closing(X(...)) / stack.enter_context(X(...))
        for q in chain:
            if isinstance(q, ast.withitem):
                if q.context_expr is call:
                    return
                w = q.context_expr
                if isinstance(w, ast.Call) and any(a is call for a in w.args):
                    return
        up = chain[0] if chain else None
        if isinstance(up, ast.Call) and isinstance(up.func, ast.Attribute) and up.func.attr in ("enter_context", "push"):
            return
        while isinstance(up, (ast.IfExp, ast.BoolOp)) and len(chain) > 1:   # p = Pool() if multi else None
            chain.pop(0)
            up = chain[0]
        if isinstance(up, ast.Return):
            if sc.f is not None:
                self.acquirers[sc.f.qual] = kind
            return
        if isinstance(up, (ast.Yield,)):
            return
        val = st.value if isinstance(st, (ast.Assign, ast.AnnAssign)) else None
        tgts: List[ast.AST] = []
        if isinstance(up, ast.NamedExpr):
            tgts = [up.target]
        elif isinstance(st, (ast.Assign, ast.AnnAssign)):
            ts = st.targets if isinstance(st, ast.Assign) else [st.target]
            if up is st:
                tgts = list(ts)
            elif isinstance(up, ast.Tuple) and isinstance(val, ast.Tuple) and up is val and call in val.elts:
                i = val.elts.index(call)
                tgts = [t.elts[i] for t in ts if isinstance(t, (ast.Tuple, ast.List)) and len(t.elts) > i]
            elif isinstance(up, (ast.ListComp, ast.List)) and kind == "descriptor":
                tgts = list(ts)
        if not tgts:
            self.report(sc, call, "resource", kind, f"a {name} is acquired here and nothing can release it")
            return
        t = tgts[0]
        if isinstance(t, ast.Attribute) and isinstance(t.value, ast.Name) and sc.f is not None and sc.f.cls is not None and t.value.id == sc.f.self_name:
            ms = [m for c in sc.f.cls.mro for m in c.methods.values()] if hasattr(sc.f.cls, "mro") else list(sc.f.cls.methods.values())
            if not any(self.releases_attr(m, t.attr) for m in ms):
                self.report(sc, call, "resource", f"{kind} self.{t.attr}", f"the {name} kept in self.{t.attr} is never released by its class")
            return
        if not isinstance(t, ast.Name):
            return
        var = t.id

        def stop(x: ast.AST) -> bool:
            if isinstance(x, ast.Call):
                if isinstance(x.func, ast.Attribute) and isinstance(x.func.value, ast.Name) and x.func.value.id == var and x.func.attr in RELEASE:
                    return True
                if sc.dotted(x.func) == "os.close" and any(isinstance(a, ast.Name) and a.id == var for a in x.args):
                    return True
                if isinstance(x.func, ast.Attribute) and x.func.attr in ("enter_context", "callback", "push") and any(
                        isinstance(a, ast.Name) and a.id == var or isinstance(a, ast.Attribute) and isinstance(a.value, ast.Name) and a.value.id == var
                        for a in x.args):
                    return True
                if sc.f is not None and any(isinstance(a, ast.Name) and a.id == var for a in list(x.args) + [k.value for k in x.keywords]):
                    for g in self.prj.resolve_call(x, sc.f):
                        b, _ = self.prj.bind(x, g)
                        for pn, av in b.items():
                            if isinstance(av, ast.Name) and av.id == var and self.releases_param(g, pn):
                                return True
            if isinstance(x, ast.Return) and isinstance(x.value, (ast.Name, ast.Tuple)) and any(
                    isinstance(y, ast.Name) and y.id == var for y in ([x.value] + getattr(x.value, "elts", []))):
                if sc.f is not None and isinstance(x.value, ast.Name):
                    self.acquirers[sc.f.qual] = kind
                return True
            if isinstance(x, ast.Assign) and isinstance(x.value, ast.Name) and x.value.id == var and any(isinstance(q, ast.Attribute) for q in x.targets):
                return True
            return False
        r = self.leak(sc, call, stop, var)
        if r is not None:
            how = "when an error is raised" if r[0] == "raise" else "on a path that returns"
            self.report(sc, call, "resource", f"{kind} {var}" if kind != "pool" else "pool",
                        f"the {name} opened here is not released {how} near line {r[1]}")

    def releases_attr(self, m: Func, attr: str) -> bool:
        for n in own_nodes(m.node):
            if isinstance(n, ast.Call):
                if isinstance(n.func, ast.Attribute) and n.func.attr in RELEASE and isinstance(n.func.value, ast.Attribute) and n.func.value.attr == attr:
                    return True
                if ast.unparse(n.func) == "os.close":
                    if any(isinstance(y, ast.Attribute) and y.attr == attr for a in n.args for y in ast.walk(a)):
                        return True
                    names = {y.id for a in n.args for y in ast.walk(a) if isinstance(y, ast.Name)}
                    for q in own_nodes(m.node):
                        if isinstance(q, (ast.For, ast.comprehension)) and any(isinstance(y, ast.Name) and y.id in names for y in ast.walk(q.target)) \
                                and self.mentions(m, q.iter, attr):
                            return True
        return False

    def mentions(self, m: Func, e: ast.AST, attr: str, depth: int = 0) -> bool:
        """the attribute takes part in the value of `e`, locals followed"""
        for y in ast.walk(e):
            if isinstance(y, ast.Attribute) and y.attr == attr:
                return True
            if isinstance(y, ast.Name) and depth < 4:
                for q in own_nodes(m.node):
                    if isinstance(q, ast.Assign) and any(isinstance(z, ast.Name) and z.id == y.id for t in q.targets for z in ast.walk(t)) \
                            and self.mentions(m, q.value, attr, depth + 1):
                        return True
        return False

    def releases_param(self, g: Func, pn: str) -> bool:
        return any(isinstance(n, ast.Call) and isinstance(n.func, ast.Attribute) and n.func.attr in RELEASE
                   and isinstance(n.func.value, ast.Name) and n.func.value.id == pn for n in own_nodes(g.node)) or \
            any(isinstance(n, ast.withitem) and isinstance(n.context_expr, ast.Name) and n.context_expr.id == pn for n in own_nodes(g.node))

    # -- worker results
    def judge_async(self, sc: Scope, call: ast.Call, gs: Dict[ast.AST, List[ast.AST]]) -> None:
        if any(k.arg == "error_callback" for k in call.keywords):
            return
        for s in [x for b in sc.body for x in ast.walk(b)]:
            if isinstance(s, ast.Expr) and s.value is call:
                self.report(sc, call, "worker", "dropped", "the outcome of this job is dropped, so a failing worker goes unnoticed")
                return
        got = [x for b in sc.body for x in ast.walk(b) if isinstance(x, ast.Call) and isinstance(x.func, ast.Attribute)
               and x.func.attr in ("get", "result") and len(x.args) <= 1]
        returned = any(isinstance(x, ast.Return) for b in sc.body for x in ast.walk(b))
        if not got and not returned:
            self.report(sc, call, "worker", "uncollected", "the outcomes of these jobs are never collected, so a failing worker goes unnoticed")
            return
        # inside `with Pool() as p` the pool is terminated at the end: collect before
        recv = call.func.value
        if not isinstance(recv, ast.Name) or call.func.attr == "submit":
            return
        for it in gs[call]:
            if isinstance(it, ast.withitem) and isinstance(it.optional_vars, ast.Name) and it.optional_vars.id == recv.id \
                    and isinstance(it.context_expr, ast.Call) and self.resource(sc, it.context_expr) == "pool":
                inside = [x for x in got if it in gs.get(x, [])] + [
                    x for x in gs if isinstance(x, ast.Call) and isinstance(x.func, ast.Attribute) and x.func.attr in ("join", "wait") and it in gs[x]]
                if not inside:
                    self.report(sc, call, "worker", "terminated", "the pool is terminated before the outcomes of its jobs are collected")

    # -- context managers of the library
    def manager(self, c) -> None:
        self.cnt("context managers of the library")
        ent, ex = c.methods["__enter__"], c.find("__exit__")
        if ex is None:
            self.found.append(("manager", c.qual, ent.where(), "entered but can never be left"))
            return
        lit: Dict[str, str] = {}
        for s in c.node.body:
            for t, v in pairs(s):
                if isinstance(t, ast.Name):
                    lit[t.id] = ast.unparse(v)

        def stmts(f: Func, depth: int = 0) -> List[ast.AST]:
            """statements of the method with its own helpers inlined"""
            out: List[ast.AST] = []
            for n in own_nodes(f.node):
                out.append(n)
                if isinstance(n, ast.Call) and depth < 3 and isinstance(n.func, ast.Attribute) and isinstance(n.func.value, ast.Name) \
                        and n.func.value.id == f.self_name and c.find(n.func.attr) is not None:
                    out += stmts(c.find(n.func.attr), depth + 1)
            return out

        def norm(e: ast.AST) -> str:
            if isinstance(e, ast.Attribute) and isinstance(e.value, ast.Name) and e.attr in lit:
                return lit[e.attr]
            if isinstance(e, ast.Name) and e.id in lit:
                return lit[e.id]
            return ast.unparse(e)
        sc, xsc = self.by_func[ent.qual], self.by_func[ex.qual]
        ini = [n for n in (stmts(c.methods["__init__"]) if "__init__" in c.methods else [])] + stmts(ent)
        out = stmts(ex)
        saved: Dict[str, str] = {}
        for n in ini:
            for t, v in pairs(n):
                if isinstance(t, ast.Attribute) and isinstance(v, ast.Call) and sc.dotted(v.func) == "os.dup" and v.args:
                    saved[t.attr] = norm(v.args[0])
        redirected = [(norm(n.args[1]), n) for n in ini if isinstance(n, ast.Call) and sc.dotted(n.func) == "os.dup2" and len(n.args) > 1]
        restored = [(norm(n.args[1]), n.args[0].attr if isinstance(n.args[0], ast.Attribute) else None, n) for n in out
                    if isinstance(n, ast.Call) and xsc.dotted(n.func) == "os.dup2" and len(n.args) > 1]
        loops = [n for n in out if isinstance(n, ast.Call) and xsc.dotted(n.func) == "os.dup2"]
        for tgt, n in redirected:
            self.cnt("redirections")
            ok = [r for r in restored if r[0] == tgt and (r[1] is None or saved.get(r[1], tgt) == tgt)]
            plain = all(isinstance(q.args[1], (ast.Attribute, ast.Constant)) for q in loops if len(q.args) > 1)
            if not ok and (plain or not loops):
                self.found.append(("manager", f"{c.qual}|{tgt}", sc.where(n), f"{tgt} is redirected on entering and not restored to itself on leaving"))
                continue
            r = ok[0] if ok else None
            if r is not None and r[2] in xsc.cfg.by_ast or r is not None:
                if any(isinstance(x, ast.Return) and x.lineno < r[2].lineno for x in own_nodes(ex.node)) and r[2] in list(own_nodes(ex.node)):
                    self.found.append(("manager", f"{c.qual}|early {tgt}", xsc.where(r[2]), f"leaving may return before {tgt} is restored"))
                if self.skipped(xsc, ex, r[2]):
                    self.found.append(("manager", f"{c.qual}|cond {tgt}", xsc.where(r[2]), f"{tgt} is not restored on every path that leaves the context"))
        # attributes assigned on entering from streams must be put back
        for n in ini:
            if isinstance(n, ast.Attribute) and isinstance(n.ctx, ast.Store):
                d = sc.external(n.value) if isinstance(n.value, (ast.Name, ast.Attribute)) else None
                if d is not None and not any(isinstance(q, ast.Attribute) and isinstance(q.ctx, ast.Store) and ast.unparse(q) == ast.unparse(n) for q in out):
                    self.found.append(("manager", f"{c.qual}|{ast.unparse(n)}", sc.where(n), f"{ast.unparse(n)} is replaced on entering and not put back on leaving"))

    def skipped(self, sc: Scope, f: Func, call: ast.AST) -> bool:
        """some path through the method avoids the call without raising"""
        if not any(x is call for x in own_nodes(f.node)):
            return False
        r = escape(sc.cfg, [sc.cfg.entry], lambda n: any(x is call for e in sc.cfg.code(n) for x in walk_now(e)), lambda n: False)
        if r is None:
            return False
        # a loop over a fixed display runs at least once
        return not any(isinstance(x, (ast.For,)) and any(y is call for y in ast.walk(x)) for x in own_nodes(f.node))


def pairs(n: ast.AST) -> List[Tuple[ast.AST, ast.AST]]:
    """(target, value) of an assignment, tuples taken apart"""
    out: List[Tuple[ast.AST, ast.AST]] = []
    if isinstance(n, ast.AnnAssign) and n.value is not None:
        return [(n.target, n.value)]
    if isinstance(n, ast.Assign):
        for t in n.targets:
            if isinstance(t, (ast.Tuple, ast.List)) and isinstance(n.value, (ast.Tuple, ast.List)) and len(t.elts) == len(n.value.elts):
                out += list(zip(t.elts, n.value.elts))
            else:
                out.append((t, n.value))
    return out


BAD = '''
import os, logging, warnings
import numpy as np
import pandas as pd
from matplotlib import pyplot as plt
from multiprocessing import Pool
from numpy import seterr
import seaborn as sns

logging.basicConfig()

def a(x, multi):
    if multi:
        pool = Pool(4)
        r = pool.starmap(f, x)
        pool.close()
        pool.join()
    return r

def b(p):
    return p.load(open("x"))

def c():
    seterr(all="ignore")

def d(n):
    np.random.seed(3)
    warnings.simplefilter("ignore")
    return np.random.normal(size=n)

def e(x):
    old = np.seterr(all="ignore")
    y = x.sum()
    np.seterr(**old)
    return y

def f2():
    plt.rcParams["figure.figsize"] = (1, 2)
    pd.options.mode.chained_assignment = None
    os.environ["A"] = "1"

def g(x):
    p = Pool(2)
    try:
        p.apply_async(len, (x,))
    finally:
        p.close()

def h(x):
    fh = open(x)
    if fh.readline():
        return 1
    fh.close()

class M:
    def __enter__(self):
        self.null = os.open(os.devnull, 2)
        self.o, self.e = os.dup(1), os.dup(2)
        os.dup2(self.null, 1)
        os.dup2(self.null, 2)
    def __exit__(self, *_):
        os.dup2(self.o, 1)
        for q in [self.null, self.o]:
            os.close(q)
'''
GOOD = '''
import os, logging, warnings
import numpy as np
import pandas as pd
from multiprocessing import Pool

def a(x, multi):
    pool = None
    try:
        if multi:
            pool = Pool(4)
            r = pool.starmap(f, x)
        else:
            r = [f(i) for i in x]
    finally:
        if pool is not None:
            pool.close()
            pool.join()
    return r

def a2(x):
    with Pool(3) as p:
        return p.map(f, x)

def a3(x):
    p = make()
    try:
        return [r.get() for r in [p.apply_async(f, (i,)) for i in x]]
    finally:
        p.terminate()

def make():
    return Pool(3)

def b(p):
    with open("x") as fh:
        return p.load(fh)

def c(x):
    with np.errstate(all="ignore"), warnings.catch_warnings():
        warnings.simplefilter("ignore")
        return _quiet(x)

def _quiet(x):
    warnings.simplefilter("ignore")
    return x.sum()

def d(n, seed):
    np.random.seed(seed)
    return np.random.normal(size=n)

def e(x):
    old = np.seterr(all="ignore")
    try:
        return x.sum()
    finally:
        np.seterr(**old)

def f3(pd2, np):
    pd2.options.x = 1
    np.y = 3

def g(x):
    q = Pool(2)
    rs = []
    for i in x:
        rs.append(q.apply_async(f, (i,)))
    q.close()
    q.join()
    return [r.get() for r in rs]

class M:
    out = 1
    def __enter__(self):
        self.null = os.open(os.devnull, 2)
        self.o, self.e = os.dup(self.out), os.dup(2)
        os.dup2(self.null, 1)
        os.dup2(self.null, 2)
    def __exit__(self, *_):
        self._back()
        fds = [self.null, self.o, self.e]
        for q in fds:
            os.close(q)
    def _back(self):
        os.dup2(self.o, self.out)
        os.dup2(self.e, 2)
'''


def run(c: Ctx) -> None:
    c.rules.append("In every function and module body: a change of a process-wide setting stands inside a construct that restores it (a restoring context, "
                   "or a finally on every path, or a helper only called inside one; re-seeding only with a value the caller chose); every worker pool, file and "
                   "descriptor is released on every path of the control-flow graph, exceptional ones included; the outcome of every asynchronous job is "
                   "collected before its pool is terminated; a context manager restores each stream it redirects and closes each descriptor it opens.")
    c.assumptions += ["the table of process-wide settings and of pool, file and descriptor constructors is complete for the libraries used",
                      "evaluating names, subscripts and arithmetic does not raise between an acquisition and its release"]
    bad = Rule(Project(sources={"kats.x": BAD}))
    bad.run()
    fs = {f[1].split(":")[-1] for f in bad.found}
    want = {"<module>|logging.basicConfig", "a|pool", "b|file", "c|numpy.seterr", "d|numpy.random.seed", "d|warnings.simplefilter",
            "e|numpy.seterr", "f2|matplotlib.pyplot.rcParams[...]", "f2|pandas.options.mode.chained_assignment", "f2|os.environ[...]",
            "g|dropped", "h|file fh", "kats.x.M|2", "M.__enter__|descriptor self.e"}
    c.selftest("settings and leaks are reported", want <= fs)
    c.notes["self-test difference"] = sorted(want - fs)
    good = Rule(Project(sources={"kats.x": GOOD}))
    good.run()
    c.selftest("restored settings and released resources are accepted", not good.found)
    r = Rule(c.prj)
    r.run()
    for k, v in r.n.items():
        c.count(k, v)
    for rule, key, where, why in r.found:
        c.find(rule, key, where, why)
    c.floor("scopes walked", 1200)
