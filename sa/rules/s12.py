"""S12: a package that is not installed only takes away what needs it; every module and name the code refers to exists."""
from __future__ import annotations

import ast
import sys
from typing import Any, Dict, List, Optional, Set, Tuple

from ..importsim import BUILTIN, Fail, PARENTS, Ret, Sim, UNKNOWN
from ..project import Cls, Func, Module, Project
from ..report import Ctx

# import names of what requirements.txt makes mandatory, and what those bring along
MANDATORY = {"attr", "attrs", "deprecated", "importlib_metadata", "holidays", "matplotlib", "mpl_toolkits", "numpy", "pandas", "packaging", "dateutil", "sklearn", "scipy",
             "seaborn", "statsmodels", "lightgbm", "typing_extensions", "joblib", "patsy", "pytz", "six", "setuptools", "pkg_resources"}
# module -> packages that are not mandatory which it cannot be imported without (reviewed)
_GM = {"torch", "numba"}
NEEDS: Dict[str, Set[str]] = {
    "kats.detectors.meta_learning.hpt_tuning": {"torch"},
    "kats.detectors.prophet_detector": {"prophet", "pyre_extensions"},
    "kats.detectors.threshold_detector": {"prophet"},
    "kats.models.globalmodel.backtester": _GM, "kats.models.globalmodel.data_processor": _GM, "kats.models.globalmodel.ensemble": _GM,
    "kats.models.globalmodel.model": _GM, "kats.models.globalmodel.serialize": _GM, "kats.models.globalmodel.stdmodel": _GM,
    "kats.models.globalmodel.utils": _GM,
    "kats.models.lstm": {"torch"}, "kats.models.neuralprophet": {"torch"}, "kats.models.metalearner.metalearner_hpt": {"torch"},
    "kats.models.metalearner.get_metadata": {"ax", "nevergrad"}, "kats.utils.time_series_parameter_tuning": {"ax", "nevergrad"},
}
# what must say so on purpose when its package is missing
REFUSE: List[Tuple[str, str]] = [
    ("kats.models.prophet.ProphetModel.__init__", "prophet"), ("kats.models.prophet.ProphetParams.__init__", "prophet"),
    ("kats.detectors.trend_mk.MKDetector.__init__", "pymannkendall"), ("kats.detectors.trend_mk.MKDetector.plot_heat_map", "plotly"),
    ("kats.detectors.bocpd.BOCPDetector._choose_priors", "ax"), ("kats.detectors.bocpd.BOCPDetector._choose_priors", "nevergrad"),
    ("kats.graphics.plots.make_fourier_plot", "plotly"), ("kats.graphics.plots.plot_fitted_harmonics", "plotly"),
    ("kats.graphics.plots.plot_scatter_with_confints", "plotly"),
]


class Exit(Exception):
    """the function certainly raises here"""

    def __init__(self, kind: str = "") -> None:
        super().__init__(kind)
        self.kind = kind


def bound_in(fn: ast.AST) -> Tuple[Set[str], Set[str]]:
    """(names local to a function, names it declares global)"""
    loc: Set[str] = set()
    glob: Set[str] = set()
    a = fn.args
    loc |= {x.arg for x in a.posonlyargs + a.args + a.kwonlyargs + [y for y in (a.vararg, a.kwarg) if y]}

    def walk(n: ast.AST) -> None:
        for x in ast.iter_child_nodes(n):
            if isinstance(x, (ast.FunctionDef, ast.AsyncFunctionDef, ast.ClassDef)):
                loc.add(x.name)
                for d in x.decorator_list:
                    walk(d)
                continue
            if isinstance(x, ast.Lambda):
                continue
            if isinstance(x, ast.Name) and isinstance(x.ctx, (ast.Store, ast.Del)):
                loc.add(x.id)
            elif isinstance(x, (ast.Import, ast.ImportFrom)):
                loc.update(al.asname or al.name.split(".")[0] for al in x.names)
            elif isinstance(x, ast.ExceptHandler) and x.name:
                loc.add(x.name)
            elif isinstance(x, ast.Global):
                glob.update(x.names)
            walk(x)
    for s in (fn.body if isinstance(fn.body, list) else [fn.body]):
        walk(ast.Module(body=[s], type_ignores=[]) if isinstance(s, ast.stmt) else ast.Expression(body=s))
    return loc - glob, glob


class Walk:
    """the loads of module-level names a function can reach, given the module's namespace in a scenario"""

    def __init__(self, prj: Project, sim: Sim, m: Module, ns: Dict[str, Any], unavailable: Set[str]) -> None:
        self.prj, self.sim, self.m, self.ns, self.un = prj, sim, m, ns, unavailable
        self.hits: List[Tuple[str, ast.AST, Tuple[str, ...]]] = []      # name, node, call chain
        self.stack: List[ast.AST] = []
        self.chain: Tuple[str, ...] = ()
        self.n = 0
        self.exits: Dict[int, bool] = {}

    def function(self, fn, cls: Optional[Cls], outer: Set[str]) -> bool:
        """walk a function body; True if it certainly ends in a raise"""
        if fn in self.stack or len(self.stack) > 12:
            return False
        loc, _ = bound_in(fn)
        self.stack.append(fn)
        ch = self.chain
        self.chain = ch + (fn.name,)
        try:
            self.block(fn.body, cls, outer | loc)
            return False
        except Exit:
            return True
        finally:
            self.stack.pop()
            self.chain = ch

    def block(self, body: List[ast.stmt], cls, loc: Set[str]) -> bool:
        """True if control cannot continue after the block (return, break, ...); Exit if it certainly raises"""
        for s in body:
            if self.stmt(s, cls, loc):
                return True
        return False

    def stmt(self, s: ast.stmt, cls, loc: Set[str]) -> bool:
        if isinstance(s, ast.Raise):
            if s.exc is not None:
                self.expr(s.exc, cls, loc)
            raise Exit()
        if isinstance(s, ast.Return):
            if s.value is not None:
                self.expr(s.value, cls, loc)
            return True
        if isinstance(s, (ast.Break, ast.Continue)):
            return True
        if isinstance(s, (ast.FunctionDef, ast.AsyncFunctionDef)):
            for d in s.decorator_list + s.args.defaults + [k for k in s.args.kw_defaults if k is not None]:
                self.expr(d, cls, loc)
            if s not in self.stack:
                self.function(s, None, loc)
            return False
        if isinstance(s, ast.ClassDef):
            return False
        if isinstance(s, ast.If):
            t = None
            names = {n.id for n in ast.walk(s.test) if isinstance(n, ast.Name)}
            if not names & loc:
                t = self.sim.truth(s.test, self.ns)
            self.expr(s.test, cls, loc)
            if t is not None:
                return self.block(s.body if t else s.orelse, cls, loc)
            ends = []
            for b in (s.body, s.orelse):
                try:
                    ends.append("stop" if self.block(b, cls, loc) else "on")
                except Exit:
                    ends.append("raise")
            if ends == ["raise", "raise"]:
                raise Exit()
            return "on" not in ends
        if isinstance(s, (ast.For, ast.AsyncFor, ast.While)):
            self.expr(s.iter if not isinstance(s, ast.While) else s.test, cls, loc)
            for b in (s.body, s.orelse):
                try:
                    self.block(b, cls, loc)
                except Exit:
                    pass
            return False
        if isinstance(s, (ast.With, ast.AsyncWith)):
            for i in s.items:
                self.expr(i.context_expr, cls, loc)
            return self.block(s.body, cls, loc)
        if isinstance(s, ast.Try):
            caught: Set[str] = set()
            for h in s.handlers:
                caught |= {"all"} if h.type is None else {x.split(".")[-1] for x in Sim.names(h.type)}
            k = len(self.hits)
            end = "on"
            try:
                end = "stop" if self.block(s.body, cls, loc) else "on"
            except Exit as x:
                end = "raise"
                if x.kind and caught & (PARENTS[x.kind] | {"all"}):
                    for h in s.handlers:
                        if h.type is None or {y.split(".")[-1] for y in Sim.names(h.type)} & PARENTS[x.kind]:
                            stop = self.block(h.body, cls, loc)
                            return self.block(s.finalbody, cls, loc) or stop
            if caught & {"all", "Exception", "BaseException", "NameError"}:
                del self.hits[k:]
            ends = []
            for h in s.handlers:
                try:
                    ends.append("stop" if self.block(h.body, cls, loc) else "on")
                except Exit:
                    ends.append("raise")
            if end != "raise" and end == "on":
                try:
                    if self.block(s.orelse, cls, loc):
                        end = "stop"
                except Exit:
                    end = "raise"
            if self.block(s.finalbody, cls, loc):
                return True
            ends.append(end)
            if set(ends) == {"raise"}:
                raise Exit()
            return "on" not in ends
        if isinstance(s, ast.AnnAssign):
            if s.value is not None:
                self.expr(s.value, cls, loc)
            if not isinstance(s.target, ast.Name):
                self.expr(s.target, cls, loc)
            return False
        if isinstance(s, (ast.Import, ast.ImportFrom)):
            try:
                self.sim.stmt(s, self.m, {}, None)
            except Fail as f:
                raise Exit(f.kind)
            except Ret:
                pass
            return False
        for x in ast.iter_child_nodes(s):
            self.expr(x, cls, loc)
        return False

    def expr(self, e: ast.AST, cls, loc: Set[str]) -> None:
        if isinstance(e, ast.Lambda):
            l2, _ = bound_in(e)
            self.expr(e.body, cls, loc | l2)
            return
        if isinstance(e, ast.BoolOp):
            for v in e.values:
                self.expr(v, cls, loc)
                names = {n.id for n in ast.walk(v) if isinstance(n, ast.Name)}
                if not names & loc and self.sim.truth(v, self.ns) is isinstance(e.op, ast.Or):
                    return          # the rest is not evaluated
            return
        if isinstance(e, ast.IfExp):
            self.expr(e.test, cls, loc)
            names = {n.id for n in ast.walk(e.test) if isinstance(n, ast.Name)}
            t = None if names & loc else self.sim.truth(e.test, self.ns)
            for v, w in ((True, e.body), (False, e.orelse)):
                if t is None or t is v:
                    self.expr(w, cls, loc)
            return
        if isinstance(e, ast.Name):
            if isinstance(e.ctx, ast.Load) and e.id not in loc:
                self.n += 1
                if e.id in self.un or (e.id not in self.ns and e.id not in BUILTIN):
                    self.hits.append((e.id, e, self.chain))
            return
        for x in ast.iter_child_nodes(e):
            self.expr(x, cls, loc)
        if isinstance(e, ast.Call):
            self.call(e, cls, loc)

    def call(self, e: ast.Call, cls: Optional[Cls], loc: Set[str]) -> None:
        fn, c = None, None
        if isinstance(e.func, ast.Name) and e.func.id not in loc:
            v = self.ns.get(e.func.id)
            if isinstance(v, tuple) and v[0] == "fn" and v[1] in self.m.tree.body:
                fn = v[1]
            elif isinstance(v, tuple) and v[0] == "class" and f"{self.m.name}.{v[1]}" in self.prj.classes:
                c = self.prj.classes[f"{self.m.name}.{v[1]}"]
                g = c.find("__init__")
                fn = g.node if g is not None and g.module is self.m else None
        elif isinstance(e.func, ast.Attribute) and isinstance(e.func.value, ast.Name) and e.func.value.id in ("self", "cls") and cls is not None:
            g = cls.find(e.func.attr)
            if g is not None and g.module is self.m:
                fn, c = g.node, cls
        elif isinstance(e.func, ast.Attribute) and isinstance(e.func.value, ast.Name) and e.func.value.id not in loc:
            v = self.ns.get(e.func.value.id)
            if isinstance(v, tuple) and v[0] == "class" and f"{self.m.name}.{v[1]}" in self.prj.classes:
                c = self.prj.classes[f"{self.m.name}.{v[1]}"]
                g = c.find(e.func.attr)
                fn = g.node if g is not None and g.module is self.m else None
        if fn is None or fn in self.stack:
            return
        if self.function(fn, c, set()):
            raise Exit()


def decorated_guard(w: Walk, f: Func) -> bool:
    """a decorator of this module whose wrapper raises in this scenario"""
    for d in f.node.decorator_list:
        n = d.func if isinstance(d, ast.Call) else d
        v = w.ns.get(n.id) if isinstance(n, ast.Name) else None
        if isinstance(v, tuple) and v[0] == "fn":
            for x in ast.walk(v[1]):
                if isinstance(x, ast.FunctionDef) and x is not v[1]:
                    w2 = Walk(w.prj, w.sim, w.m, w.ns, w.un)
                    if w2.function(x, None, {a.arg for a in v[1].args.args}):
                        return True
    return False


def refuses(w: Walk, f: Func) -> bool:
    if decorated_guard(w, f):
        return True
    return w.function(f.node, f.cls, set())


def entry_points(m: Module) -> List[Func]:
    out = [f for f in m.functions.values() if not f.name.startswith("_")]
    for c in m.classes.values():
        out += [f for f in c.methods.values() if not f.name.startswith("_") or f.name.startswith("__")]
    return out


def check_names(prj: Project, sim: Sim, label: str, out: List[Tuple[str, str, str]], counts: Dict[str, int]) -> None:
    """out: (construct, where, why)"""
    for name, m in prj.modules.items():
        ns = sim.ns.get(name)
        if ns is None or sim.done.get(name) is not None:
            continue
        un = sim.absent.get(name, set())
        for f in prj.funcs.values():
            if f.module is m:
                for x in ast.walk(f.node):
                    if isinstance(x, ast.Global):
                        for g in x.names:
                            ns.setdefault(g, UNKNOWN)
        for f in entry_points(m):
            counts["functions walked for unbound names"] = counts.get("functions walked for unbound names", 0) + 1
            w = Walk(prj, sim, m, ns, un)
            if decorated_guard(w, f):
                continue
            if f.cls is not None and f.name != "__init__" and f.node.args.args and f.self_name is not None and not any(
                    isinstance(d, ast.Name) and d.id in ("classmethod", "staticmethod") for d in f.node.decorator_list):
                init = f.cls.find("__init__")
                if init is not None and init.module is m and refuses(Walk(prj, sim, m, ns, un), init):
                    continue        # no such object exists in this scenario
            w.function(f.node, f.cls, set())
            counts["module-level names looked up"] = counts.get("module-level names looked up", 0) + w.n
            for nm, node, chain in w.hits:
                out.append((f"{f.qual}|{nm}|{label}", f"{m.rel}:{node.lineno} in {chain[-1]}",
                            f"uses {nm}, which is not bound{' when ' + label + ' is not installed' if label else ''}" +
                            (f" (reached from {f.name} by {' > '.join(chain)})" if len(chain) > 1 else "")))


def check_inner_imports(prj: Project, sim: Sim, out: List[Tuple[str, str, str]], counts: Dict[str, int]) -> None:
    for f in prj.funcs.values():
        if f.parent is not None or f.module.name not in sim.ns:
            continue
        safe: Set[int] = set()
        for t in ast.walk(f.node):
            if isinstance(t, ast.Try):
                for h in t.handlers:
                    if h.type is None or {x.split(".")[-1] for x in Sim.names(h.type)} & {"ImportError", "ModuleNotFoundError", "Exception"}:
                        safe |= {id(x) for b in t.body for x in ast.walk(b)}
        for x in ast.walk(f.node):
            if isinstance(x, (ast.Import, ast.ImportFrom)) and id(x) not in safe:
                counts["imports inside functions"] = counts.get("imports inside functions", 0) + 1
                ns: Dict[str, Any] = {}
                try:
                    sim.stmt(x, f.module, ns, None)
                except (Fail, Ret) as e:
                    if isinstance(e, Fail):
                        out.append((f"{f.qual}|{ast.unparse(x)[:80]}", f"{e.where} in {f.name}", e.why))


def third_party(prj: Project) -> Set[str]:
    out: Set[str] = set()
    for m in prj.modules.values():
        for x in ast.walk(m.tree):
            if isinstance(x, ast.Import):
                out |= {a.name.split(".")[0] for a in x.names}
            elif isinstance(x, ast.ImportFrom) and not x.level and x.module:
                out.add(x.module.split(".")[0])
    return {t for t in out if t not in prj.tops and t not in sys.stdlib_module_names and t not in MANDATORY}


def judge(prj: Project, needs: Dict[str, Set[str]], root: str, refuse: List[Tuple[str, str]]) -> Tuple[List[Tuple[str, str, str, str]], Dict[str, int]]:
    opt = sorted(third_party(prj))
    counts: Dict[str, int] = {"modules": len(prj.modules), "optional packages": len(opt)}
    res: List[Tuple[str, str, str, str]] = []
    broken: Set[str] = set()
    sets: List[Tuple[str, Set[str]]] = [("", set())] + [(o, {o}) for o in opt] + [("every optional package", set(opt))]
    for label, missing in sets:
        sim = Sim(prj, missing)
        sim.status(root)
        counts["scenarios of missing packages"] = counts.get("scenarios of missing packages", 0) + 1
        for name, m in sorted(prj.modules.items()):
            fail = sim.status(name)
            counts["module imports decided"] = counts.get("module imports decided", 0) + 1
            if fail is None:
                continue
            if not label:
                broken.add(name)
                res.append(("cannot-be-imported", f"{name}|{fail.why}", fail.where, f"{name} can never be imported: {fail.why}"))
            elif name not in broken and not needs.get(name, set()) & missing:
                res.append(("optional-became-mandatory", f"{name}|{label}", fail.where, f"{name} cannot be imported without {label}: {fail.why}"))
        counts["import statements followed"] = counts.get("import statements followed", 0) + sim.n_imports
        out: List[Tuple[str, str, str]] = []
        check_names(prj, sim, label, out, counts)
        if not label:
            check_inner_imports(prj, sim, out, counts)
        res += [("unbound-name", *o) for o in out]
        for q, pkg in refuse:
            if pkg == label:
                f = prj.funcs.get(q)
                if f is None or sim.ns.get(f.module.name) is None:
                    continue
                counts["refusals decided"] = counts.get("refusals decided", 0) + 1
                if not refuses(Walk(prj, sim, f.module, sim.ns[f.module.name], sim.absent.get(f.module.name, set())), f):
                    res.append(("no-refusal", f"{q}|{pkg}", f.where(), f"does not raise although {pkg} is not installed"))
    return res, counts



T_OK = {
    "pk": "from . import a\ntry:\n    from . import b\nexcept ImportError:\n    pass\n",
    "pk.a": "import numpy\ntry:\n    import opt\n    _no = False\nexcept ImportError:\n    _no = True\n\ndef _need():\n    if _no:\n        raise RuntimeError('opt')\n\n"
            "def f(x):\n    _need()\n    return opt.g(x)\n\nclass C:\n    def __init__(self):\n        if _no:\n            raise RuntimeError\n    def m(self):\n        return opt.x\n"
            "\ndef g():\n    return opt.z if not _no else None\n",
    "pk.b": "import opt2\nfrom pk.a import f\n",
}
T_BAD = {
    "pk": "from . import a, b\n",
    "pk.a": "try:\n    import opt\nexcept ImportError:\n    pass\ndef f(x):\n    return opt.g(x)\ndef h():\n    return nowhere + 1\ndef late():\n    from pk.b import nothing\n",
    "pk.b": "import opt2\nfrom pk.a import f\n",
    "pk.c": "from pk.a import missing_name\n",
}


def selftest(c: Ctx) -> None:
    ok, _ = judge(Project(sources=T_OK), {"pk.b": {"opt2"}}, "pk", [("pk.a.f", "opt"), ("pk.a.C.__init__", "opt")])
    c.selftest("guarded optional packages are accepted", not ok)
    bad, _ = judge(Project(sources=T_BAD), {"pk.b": {"opt2"}}, "pk", [("pk.a.f", "opt")])
    kinds = {(k, q.split("|")[0]) for k, q, _, _ in bad}
    c.selftest("unguarded and missing ones are reported", {("optional-became-mandatory", "pk"), ("cannot-be-imported", "pk.c"), ("no-refusal", "pk.a.f")} <= kinds
               and any(k == "unbound-name" and "nowhere" in w for k, _, _, w in bad) and any(k == "unbound-name" and "nothing" in w for k, _, _, w in bad)
               and any(k == "unbound-name" and "opt," in w for k, _, _, w in bad))


def run(c: Ctx) -> None:
    c.rules.append("S12: the module bodies are followed with no package, each single optional package and all optional packages missing; only the modules that "
                   "need a package may fail to import without it, names lost with a package must not be reached in a function before a guard that raises, "
                   "and with everything installed every import and every module-level name used in a function must exist.")
    c.assumptions += ["the packages of requirements.txt are installed", "third-party modules have the names imported from them", "globals() and setattr on modules bind no names"]
    selftest(c)
    res, counts = judge(c.prj, NEEDS, "kats", REFUSE)
    for k, v in counts.items():
        c.count(k, v)
    for kind, q, where, why in res:
        c.find(kind, q, where, why)
    c.floor("modules", 60)
    c.floor("optional packages", 8)
    c.floor("refusals decided", 5)
    c.floor("functions walked for unbound names", 500)
