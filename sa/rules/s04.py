"""S04: no option is silently ignored.

An option (a named parameter of a public function, method or constructor) has an effect when some read of it
reaches something other than a validation, a log message or a further name that is itself never used: a result,
a decision between two ways to go on, an external call, a parameter of a library function that has an effect, or
an attribute somebody consults. The forward slice is followed through local names, attributes and calls."""
from __future__ import annotations

import ast
import sys
from typing import Any, Dict, Iterator, List, Optional, Set, Tuple

from ..project import AnalysisBroken, Cls, Func, Project, own_nodes
from ..report import Ctx

LOGS = {"debug", "info", "warning", "warn", "error", "critical", "exception", "log"}
DUMPS = {"serialize", "__repr__", "__str__", "__eq__", "__hash__", "to_string", "_repr_html_"}


def is_log(e: ast.AST) -> bool:
    if not isinstance(e, ast.Call):
        return False
    f = e.func
    if isinstance(f, ast.Name):
        return f.id in ("print", "_log_error", "_error_msg")
    if isinstance(f, ast.Attribute) and f.attr in LOGS:
        r = f.value
        while isinstance(r, (ast.Attribute, ast.Call)):
            r = r.value if isinstance(r, ast.Attribute) else r.func
        return isinstance(r, ast.Name) and ("log" in r.id.lower() or r.id in ("warnings", "self"))
    return False


def is_params(c: Cls) -> bool:
    return any("param" in k.name.lower() for k in c.mro)


def last(b: ast.AST) -> str:
    return b.attr if isinstance(b, ast.Attribute) else b.id if isinstance(b, ast.Name) else ""


def stub(f: Func) -> bool:
    """no body to speak of: an interface"""
    body = [s for s in f.node.body if not (isinstance(s, ast.Expr) and isinstance(s.value, ast.Constant))]
    return f.is_abstract or f.is_overload or all(isinstance(s, (ast.Pass, ast.Raise)) or isinstance(s, ast.Expr) and is_log(s.value)
                                                 or isinstance(s, (ast.Assign, ast.AnnAssign)) and isinstance(s.value, (ast.Constant, ast.JoinedStr, ast.Call)) and
                                                 any(isinstance(x, ast.Raise) for x in body) for s in body) or \
        len(body) == 1 and isinstance(body[0], ast.Return) and (body[0].value is None or isinstance(body[0].value, ast.Constant))


class Slice:
    def __init__(self, prj: Project) -> None:
        self.prj = prj
        self.memo: Dict[Any, bool] = {}
        self.busy: Set[Any] = set()
        self.cut = False
        self.parents: Dict[ast.AST, Dict[ast.AST, ast.AST]] = {}
        self.loads: Dict[str, List[Tuple[ast.AST, Func]]] = {}
        self.whole: Dict[str, List[Tuple[ast.AST, Func]]] = {}
        self.strings: Dict[str, Set[str]] = {}
        for f in prj.funcs.values():
            if f.parent is not None:
                continue
            for n in ast.walk(f.node):
                if isinstance(n, ast.Attribute) and isinstance(n.ctx, ast.Load):
                    self.loads.setdefault(n.attr, []).append((n, f))
                elif isinstance(n, ast.Call) and isinstance(n.func, ast.Name) and n.func.id in ("getattr", "hasattr") and len(n.args) > 1 \
                        and isinstance(n.args[1], ast.Constant):
                    self.loads.setdefault(str(n.args[1].value), []).append((n, f))

    def up(self, f: Func) -> Dict[ast.AST, ast.AST]:
        while f.parent is not None:
            f = f.parent
        if f.node not in self.parents:
            self.parents[f.node] = {c: n for n in ast.walk(f.node) for c in ast.iter_child_nodes(n)}
        return self.parents[f.node]

    # ------------------------------------------------------------------------------------------------------------
    def once(self, key: Any, work) -> bool:
        if key in self.memo:
            return self.memo[key]
        if key in self.busy:
            self.cut = True
            return False
        self.busy.add(key)
        old, self.cut = self.cut, False
        r = work()
        self.busy.discard(key)
        if r or not self.cut or not self.busy:
            self.memo[key] = r
        self.cut = old or self.cut and not r
        return r

    def name(self, f: Func, v: str, param: bool = False) -> bool:
        """does some read of local/parameter v of f (or of a function nested in f) have an effect?"""
        while f.parent is not None and not param and v not in f.params and not any(
                isinstance(n, ast.Name) and n.id == v and isinstance(n.ctx, ast.Store) for n in own_nodes(f.node)):
            f = f.parent
        return self.once(("n", f.qual, v), lambda: any(self.use(n, f) for n in ast.walk(f.node) if isinstance(n, ast.Name) and n.id == v and isinstance(n.ctx, ast.Load)))

    def attribute(self, c: Cls, a: str) -> bool:
        return self.once(("a", c.qual, a), lambda: self._attribute(c, a))

    def _attribute(self, c: Cls, a: str) -> bool:
        fam = {k for d in [c, *c.all_subclasses()] for k in d.mro}
        for n, f in self.loads.get(a, ()):
            if f.name in DUMPS:
                continue
            b = n.value if isinstance(n, ast.Attribute) else n.args[0]
            if isinstance(b, ast.Name) and b.id == f.self_name and f.cls is not None:
                if f.cls not in fam:
                    continue
            else:
                if is_params(c) and last(b).endswith(("model", "data", "detector", "fcst", "df", "ts")) or self.foreign(b, f):
                    continue
                own = self.own_params(b, f)
                if own is not None and own not in fam:
                    continue
                if not is_params(c) and (b.attr if isinstance(b, ast.Attribute) else b.id if isinstance(b, ast.Name) else "").endswith(("params", "param")):
                    continue
                ts = {self.prj.classes.get(t) for t in self.prj.expr_types(b, f)} - {None}
                if ts and not any(t in fam for t in ts):
                    continue
            if self.use(n, f):
                return True
        # the whole object is looked through
        for k in fam:
            for m in k.methods.values():
                if m.name in DUMPS:
                    continue
                for n in ast.walk(m.node):
                    if isinstance(n, ast.Attribute) and n.attr == "__dict__" and isinstance(n.ctx, ast.Load) or isinstance(n, ast.Call) and isinstance(n.func, ast.Name) \
                            and n.func.id in ("getattr", "vars") and (len(n.args) < 2 or not isinstance(n.args[1], ast.Constant)):
                        return True
        return False

    def own_params(self, b: ast.AST, f: Func) -> Optional[Cls]:
        """the class of self.params, told by the annotation of the constructor's parameter of that name"""
        if isinstance(b, ast.Attribute) and isinstance(b.value, ast.Name) and b.value.id == f.self_name and f.cls is not None and not f.cls.all_subclasses():
            i = f.cls.find("__init__")
            if i is not None and b.attr in i.params and i.annotation(b.attr) is not None:
                ts = [self.prj.classes.get(t) for t in self.prj.ann_types(i.annotation(b.attr), i.module) if t != "None"]
                if len(ts) == 1 and ts[0] is not None:
                    return ts[0]
        return None

    def foreign(self, b: ast.AST, f: Func) -> bool:
        """a local that only ever holds the result of code outside kats"""
        if not isinstance(b, ast.Name) or b.id in f.params or b.id == f.self_name:
            return False
        got = False
        for n in ast.walk(f.node):
            if isinstance(n, ast.Name) and n.id == b.id and isinstance(n.ctx, (ast.Store, ast.Del)):
                p = self.up(f).get(n)
                if not (isinstance(p, ast.Assign) and p.targets == [n] and isinstance(p.value, ast.Call)):
                    return False
                root = p.value.func
                while isinstance(root, (ast.Attribute, ast.Call)):
                    root = root.value if isinstance(root, ast.Attribute) else root.func
                d = self.prj.dotted(root, f.module) if isinstance(root, ast.Name) else None
                if d is None or d.split(".")[0] == "kats" or root.id not in f.module.imports:
                    return False
                got = True
        return got

    # ------------------------------------------------------------------------------------------------------------
    def use(self, n: ast.AST, f: Func) -> bool:
        up = self.up(f)
        fn = self.inner(n, f, up)
        start = n
        while True:
            p = up.get(n)
            if p is None:
                return False
            if isinstance(p, ast.Call):
                if is_log(p):
                    return False
                if n is not p.func:
                    r = self.argument(p, n, fn)
                    if r is not None:
                        return r
                n = p
            elif isinstance(p, ast.keyword):
                call = up[p]
                if is_log(call):
                    return False
                r = self.argument(call, p, fn)
                if r is not None:
                    return r
                n = call
            elif isinstance(p, ast.JoinedStr):
                n = p
            elif isinstance(p, ast.Compare):
                if any(data(x) for x in [p.left] + p.comparators if x is not n) and not any(isinstance(o, (ast.In, ast.NotIn)) for o in p.ops):
                    return True
                n = p
            elif isinstance(p, (ast.expr, ast.FormattedValue, ast.comprehension, ast.Slice)):
                if isinstance(p, ast.Lambda):
                    fn = fn
                n = p
            elif isinstance(p, (ast.If, ast.While)):
                return n is not p.test or self.switch(start, fn) or self.branches(p.body + p.orelse, fn)
            elif isinstance(p, ast.Delete):
                return any(t is not start for t in p.targets)
            elif isinstance(p, (ast.Assert, ast.Raise)):
                return False
            elif isinstance(p, (ast.Assign, ast.AnnAssign, ast.AugAssign)):
                return self.stores(p, fn)
            elif isinstance(p, ast.Expr):
                return not is_log(p.value) and not isinstance(p.value, ast.Name) and not isinstance(p.value, ast.Compare)
            elif isinstance(p, (ast.For, ast.AsyncFor)):
                return any(self.name(fn, x.id) for x in ast.walk(p.target) if isinstance(x, ast.Name)) or self.branches(p.body, fn)
            elif isinstance(p, ast.withitem):
                n = p
            elif isinstance(p, ast.arguments):
                return True
            else:
                return True

    def switch(self, n: ast.AST, f: Func) -> bool:
        """a yes/no option: what it switches is a check of something else"""
        if isinstance(n, ast.Name):
            d = f.default(n.id)
            return isinstance(d, ast.Constant) and isinstance(d.value, bool) or ann_bool(f.annotation(n.id))
        a = n.attr if isinstance(n, ast.Attribute) else ""
        return any(ann_bool(g.annotation(a)) or isinstance(g.default(a), ast.Constant) and isinstance(g.default(a).value, bool)
                   for k in (f.cls.mro if f.cls is not None else []) for g in [k.methods.get("__init__")] if g is not None and a in g.params)

    def inner(self, n: ast.AST, f: Func, up) -> Func:
        chain = []
        x = n
        while x is not None and x is not f.node:
            x = up.get(x)
            if isinstance(x, (ast.FunctionDef, ast.AsyncFunctionDef)) and x is not f.node:
                chain.append(x.name)
        for k in reversed(chain):
            f = f.inner.get(k, f)
        return f

    def argument(self, call: ast.Call, n: ast.AST, f: Func) -> Optional[bool]:
        """the effect of argument n of a call of a library function; None: follow the result"""
        if isinstance(call.func, ast.Name) and call.func.id in ("isinstance", "len", "str", "int", "float", "bool", "type", "list", "tuple", "dict", "min", "max", "set", "range", "cast", "callable"):
            return None
        if isinstance(call.func, ast.Attribute) and call.func.attr in ("format", "join", "upper", "lower", "strip", "total_seconds", "copy"):
            return None
        if last(call.func).endswith(("Error", "Exception", "Warning")) or last(call.func) in ("repr", "deepcopy", "copy", "sorted", "abs", "round", "sum", "tuple", "any", "all"):
            return None
        gs = self.prj.resolve_call(call, f)
        gs = [g for g in gs if not stub(g)] or gs
        if not gs:
            return True
        for g in gs:
            bound, star = self.prj.bind(call, g)
            a = n.value if isinstance(n, ast.keyword) else n
            if isinstance(n, ast.Starred) or star and not any(v is a for v in bound.values()):
                return True
            for q, v in bound.items():
                if v is a:
                    if q.startswith("**") or q in (g.vararg, g.kwarg):
                        return True
                    if stub(g) or self.name(g, q, True):
                        return True
                    break
            else:
                if g.vararg or g.kwarg:
                    return True
        return False

    def stores(self, s: ast.AST, f: Func) -> bool:
        for t in s.targets if isinstance(s, ast.Assign) else [s.target]:
            for x in ast.walk(t):
                if isinstance(x, ast.Name) and isinstance(x.ctx, ast.Store):
                    if self.name(f, x.id):
                        return True
                elif isinstance(x, ast.Attribute) and isinstance(x.ctx, ast.Store):
                    top = f
                    while top.parent is not None:
                        top = top.parent
                    if isinstance(x.value, ast.Name) and x.value.id == top.self_name and top.cls is not None:
                        st = top.cls.find_setter(x.attr)
                        if st is not None:
                            if any(self.name(st, q, True) for q in st.params):
                                return True
                        elif self.attribute(top.cls, x.attr):
                            return True
                    else:
                        return True
                elif isinstance(x, (ast.Subscript,)):
                    return True
        return False

    def branches(self, body: List[ast.stmt], f: Func) -> bool:
        for s in body:
            if isinstance(s, (ast.Raise, ast.Pass, ast.Assert)) or isinstance(s, ast.Expr) and (is_log(s.value) or isinstance(s.value, ast.Constant)):
                continue
            if isinstance(s, (ast.Assign, ast.AnnAssign, ast.AugAssign)):
                if self.stores(s, f):
                    return True
            elif isinstance(s, ast.If):
                if self.branches(s.body + s.orelse, f):
                    return True
            elif isinstance(s, (ast.For, ast.While)):
                if self.branches(s.body + s.orelse, f):
                    return True
            elif isinstance(s, ast.Try):
                if self.branches(s.body + s.orelse + s.finalbody + [x for h in s.handlers for x in h.body], f):
                    return True
            elif isinstance(s, ast.Expr) and isinstance(s.value, ast.Call):
                gs = self.prj.resolve_call(s.value, f)
                if not gs or any(not checks(g) for g in gs):
                    return True
            else:
                return True
        return False


def checks(g: Func) -> bool:
    """a function that does nothing but log and raise"""
    return all(isinstance(s, (ast.Raise, ast.Pass, ast.Assert)) or isinstance(s, ast.Expr) and (is_log(s.value) or isinstance(s.value, ast.Constant))
               or isinstance(s, ast.If) and all(isinstance(x, (ast.Raise, ast.Expr, ast.Assign)) for x in s.body + s.orelse)
               or isinstance(s, (ast.Assign, ast.AnnAssign)) and all(isinstance(t, ast.Name) for t in (s.targets if isinstance(s, ast.Assign) else [s.target])) for s in g.node.body)


def data(e: ast.AST) -> bool:
    """an expression over something else than constants"""
    return any(isinstance(x, ast.Name) and not x.id.isupper() and x.id not in ("np", "pd", "math", "int", "float", "str", "bool", "list", "dict", "tuple", "type", "len", "set")
               for x in ast.walk(e))


def ann_bool(a: Any) -> bool:
    return a is not None and "bool" in ast.unparse(a)


def public(f: Func) -> bool:
    return f.parent is None and (not f.name.startswith("_") or f.name == "__init__" or f.name == "__call__") and not (f.cls is not None and f.cls.name.startswith("_")) \
        and not f.is_setter and not f.is_property


def options(f: Func) -> List[str]:
    return [p for p in f.params if p not in (f.vararg, f.kwarg) and not p.startswith("_")]


def fields(c: Cls) -> List[str]:
    """the fields of an options dataclass"""
    if not c.name.endswith(("Parameters", "Options", "Args")) or not any("dataclass" in ast.unparse(d) for d in c.node.decorator_list):
        return []
    return [s.target.id for s in c.node.body if isinstance(s, ast.AnnAssign) and isinstance(s.target, ast.Name) and not s.target.id.startswith("_")]


def ignored(prj: Project, s: Slice, tick=lambda what: None) -> Iterator[Tuple[str, str, str, str]]:
    for f in prj.funcs.values():
        if not public(f) or stub(f) or checks(f):
            continue
        for p in options(f):
            tick("options of functions and constructors")
            if not s.name(f, p, True):
                yield f.qual, p, f.where(f.node), f"option {p} of {f.short} reaches nothing but checks and messages: whatever is passed, the outcome is the same"
    for c in prj.classes.values():
        for a in fields(c):
            tick("fields of option records")
            if not s.attribute(c, a):
                yield c.qual, a, f"{c.module.rel}:{c.node.lineno}", f"option {a} of {c.name} is never consulted"
    for f, k, n, ok in keyed(prj, s):
        tick("options read from **kwargs")
        if not ok:
            yield f.qual, "**" + k, f.where(n), f"option {k} of {f.short} is read and then reaches nothing but checks and messages"


def unforwarded(prj: Project, s: Slice, tick=lambda what: None) -> Iterator[Tuple[str, str, str, str]]:
    """an option of the caller (parameter, or constructor option kept in the attribute of that name) which the callee takes under the same name, but is not given"""
    for f in prj.funcs.values():
        own: Set[str] = set()
        top = f
        own |= set(options(f))
        while top.parent is not None:
            top = top.parent
            own |= set(options(top))
        kept: Set[str] = set()
        if top.cls is not None and top.name != "__init__":
            i = top.cls.find("__init__")
            if i is not None:
                kept = {p for p in options(i) if any(isinstance(n, ast.Attribute) and n.attr == p and isinstance(n.ctx, ast.Store) for k in top.cls.mro for m in k.methods.values()
                                                     for n in ast.walk(m.node))}
        for n in own_nodes(f.node):
            if not isinstance(n, ast.Call):
                continue
            gs = prj.resolve_call(n, f)
            if not gs or any(g.cls is not None and g.cls.name in CONTAINERS and g.name == "__init__" for g in gs):
                continue
            for q in sorted(own | kept):
                if not all(q in g.params and q not in (g.vararg, g.kwarg) and g.default(q) is not None or q in keys(g) for g in gs):
                    continue
                tick("options a callee takes under the same name")
                if decided(f, n, q, s) or any(q in b or star for g in gs for b, star in [prj.bind(n, g)]) or any(k.arg in (None, q) for k in n.keywords):
                    continue
                if all(stub(g) or q not in keys(g) and not s.name(g, q, True) for g in gs):
                    continue            # the callee ignores it: reported there
                if q in own and q in top.params and not stub(top) and not reads(top, q):
                    continue            # the caller ignores it: reported there
                yield top.qual, f"{gs[0].short}:{q}", f.where(n), f"{top.short} has its own {q} but lets {gs[0].short} fall back to the default of {q}"


def keys(g: Func) -> Dict[str, List[ast.AST]]:
    """options a function looks up in its **kwargs with a fallback"""
    out: Dict[str, List[ast.AST]] = {}
    if g.kwarg is None:
        return out
    for n in own_nodes(g.node):
        if isinstance(n, ast.Call) and isinstance(n.func, ast.Attribute) and n.func.attr in ("get", "pop") and isinstance(n.func.value, ast.Name) and n.func.value.id == g.kwarg and n.args \
                and isinstance(n.args[0], ast.Constant) and isinstance(n.args[0].value, str):
            out.setdefault(n.args[0].value, []).append(n)
    return out


def siblings(prj: Project, s: Slice, tick=lambda what: None) -> Iterator[Tuple[str, str, str, str]]:
    """two calls of one function inside the same function: an own option is given in one and not in the other"""
    for f in prj.funcs.values():
        own = set(options(f))
        top = f
        while top.parent is not None:
            top = top.parent
            own |= set(options(top))
        calls: Dict[str, List[ast.Call]] = {}
        for n in own_nodes(f.node):
            if isinstance(n, ast.Call) and not any(k.arg is None for k in n.keywords):
                nm = ast.unparse(n.func)
                if nm == "super().__init__" or isinstance(n.func, ast.Name) and nm not in ("partial", "dict", "cast", "print", "isinstance") or prj.resolve_call(n, f):
                    calls.setdefault(nm, []).append(n)
        for nm, ns in calls.items():
            if len(ns) < 2:
                continue
            tick("functions called in several places of one function")
            kw = [{a.arg: ast.unparse(a.value) for a in n.keywords} for n in ns]
            for i, n in enumerate(ns):
                if any(g.cls is not None and g.cls.name in CONTAINERS for g in prj.resolve_call(n, f)):
                    continue
                lost = sorted({a for j, d in enumerate(kw) for a, v in d.items() if a not in kw[i] and len(n.args) == len(ns[j].args)
                               and (v == a and a in own or v in ("self." + a, "self.params." + a))})
                for a in lost:
                    if decided(f, n, a, s):
                        continue
                    yield top.qual, f"{nm}:{a}", f.where(n), f"{top.short} gives {nm}() its option {a} in one place and not in this one"


def decided(f: Func, n: ast.AST, q: str, s: Slice) -> bool:
    """the call stands under a decision about that very option (no option given: the callee's default)"""
    up = s.up(f)
    x: Optional[ast.AST] = n
    while x is not None and x is not f.node:
        p = up.get(x)
        if isinstance(p, (ast.If, ast.IfExp)) and x is not p.test and any(isinstance(y, ast.Name) and y.id == q or isinstance(y, ast.Attribute) and y.attr == q for y in ast.walk(p.test)):
            return True
        x = p
    return False


CONTAINERS = {"TimeSeriesData"}     # a new series is described by its own arguments, not by those of the object that builds it


def reads(f: Func, v: str) -> bool:
    return any(isinstance(n, ast.Name) and n.id == v and isinstance(n.ctx, ast.Load) for n in ast.walk(f.node))


REVIEWED = {
    # data that describe an object, kept for whoever reads it
    "kats.consts.IntervalAnomaly.__init__|confidence": "attribute of a record",
    "kats.detectors.interval_detector.ABInterval.__init__|interval_type": "attribute of a record",
    # a parameter that an interface asks for and this implementation has no use for
    "kats.detectors.bocpd_model.BocpdTrendDetectorModel.fit_predict|historical_data": "detector interface",
    "kats.detectors.prophet_detector.ProphetDetectorModel.predict|historical_data": "detector interface; the history was given to fit",
    "kats.detectors.prophet_detector.ProphetTrendDetectorModel.fit_predict|historical_data": "detector interface",
    "kats.detectors.threshold_detector.StaticThresholdModel.fit_predict|historical_data": "detector interface; a static threshold needs no history",
    "kats.detectors.threshold_detector.StaticThresholdModel.fit|historical_data": "detector interface; a static threshold needs no history",
    "kats.detectors.outlier.OutlierDetector.detector|method": "detector interface",
    "kats.detectors.prophet_detector.deviation_from_predicted_val|ci_threshold": "interface of score functions: this score has no interval",
    "kats.models.nowcasting.dynamic_nowcasting.NowcastingModel.predict_polyfit|model": "callback interface shared with the other predictors",
    "kats.models.nowcasting.dynamic_nowcasting.NowcastingModel.predict_polyfit|df": "callback interface shared with the other predictors",
    "kats.models.nowcasting.nowcastingplus.NowcastingPlusModel.predict_polyfit|model": "callback interface shared with the other predictors",
    "kats.models.nowcasting.nowcastingplus.NowcastingPlusModel.predict_polyfit|df": "callback interface shared with the other predictors",
    "kats.models.nowcasting.model_io.deserialize_from_zippy|use_case_id": "identifies the caller to the store of a deployment; no such store here",
    "kats.utils.time_series_parameter_tuning.TimeSeriesEvaluationMetric.__init__|logger": "where to log",
    "kats.utils.time_series_parameter_tuning.BayesianOptSearch.generate_evaluate_new_parameter_values_with_options|arm_count": "interface of the search methods; the optimiser counts its own arms",
    "kats.models.globalmodel.model.GMModel.train|debug": "documented: only adds log messages",
    "kats.consts.TimeSeriesData.__init__|categorical_var": "names the columns a check does not apply to",
    # not passing on is right
    "kats.consts.TimeSeriesData.__init__|TimeSeriesData._set_time_format:cache_datetimes": "the time column was already given; unix or date parsing of it gains nothing from the cache but speed",
    "kats.detectors.cusum_model.CUSUMDetectorModel.fit_predict|VectorizedCUSUMDetectorModel.__init__:season_period_freq": "seasonality has been removed already (remove_seasonality=False)",
    "kats.detectors.multivariate_detector.MultivariateAnomalyDetectorModel.fit_predict|MultivariateAnomalyDetectorModel.predict:historical_data": "the history was given to fit",
    "kats.detectors.stat_sig_detector.StatSigDetectorModel.fit_predict|MultiStatSigDetectorModel.fit_predict:historical_data": "the history is part of the reorganised data",
    "kats.detectors.stat_sig_detector.MultiStatSigDetectorModel.__init__|StatSigDetectorModel.__init__:use_corrected_scores": "set by the subclass after the call",
    "kats.metrics.metrics.mean_absolute_error|absolute_error:sample_weight": "the weights are applied when averaging",
    "kats.models.stlf.STLFParams.validate_params|SimpleHeuristicModelParams.__init__:method": "a different option that happens to have the same name",
    "kats.models.globalmodel.ensemble.GMEnsemble.train|gmpreprocess:valid_set": "test series always need their validation part",
    "kats.compat.sklearn.mean_squared_log_error|msle:squared": "the branch for versions that have no such option, where the root is taken by hand",
    **{f"kats.compat.statsmodels.ExponentialSmoothing.__init__|super().__init__:{a}": "the branch for versions that have no such option, which warns"
       for a in ("bounds", "initial_level", "initial_seasonal", "initial_trend", "initialization_method", "use_boxcox")},
    "kats.models.globalmodel.ensemble.GMEnsemble.train|gmpreprocess:valid_set": "test series always need their validation part",
    "kats.tsfeatures.tsfeatures.TsFeatures.get_cusum_detector|CUSUMDetector.detector:threshold": "a different option that happens to have the same name",
    "kats.tsfeatures.tsfeatures.TsFeatures.get_bocp_detector|BOCPDetector.detector:threshold": "a different option that happens to have the same name",
    "kats.tsfeatures.tsfeatures.TsFeatures.get_trend_detector|MKDetector.detector:window_size": "a different option that happens to have the same name",
}

# what a library outside kats takes as the level of the interval it returns
LEVELED = {"summary_frame": "alpha", "conf_int": "alpha", "forecast_interval": "alpha", "wls_prediction_std": "alpha", "original_test": "alpha", "multivariate_test": "alpha",
           "seasonal_test": "alpha", "multipletests": "alpha"}


def levels(prj: Project, tick=lambda what: None) -> Iterator[Tuple[str, str, str, str]]:
    """a significance level asked for reaches the library call that computes the interval or the test"""
    for f in prj.funcs.values():
        if f.parent is not None:
            continue
        has = "alpha" in options(f) or f.cls is not None and any(isinstance(n, ast.Attribute) and n.attr == "alpha" and isinstance(n.ctx, ast.Store) and
                                                                isinstance(n.value, ast.Name) and n.value.id == m.self_name
                                                                for k in f.cls.mro for m in k.methods.values() for n in ast.walk(m.node))
        if not has:
            continue
        for n in ast.walk(f.node):
            if not isinstance(n, ast.Call):
                continue
            nm = n.func.attr if isinstance(n.func, ast.Attribute) else n.func.id if isinstance(n.func, ast.Name) else ""
            if nm not in LEVELED or prj.resolve_call(n, f):
                continue
            tick("library calls that take a level")
            kw = {k.arg: k.value for k in n.keywords}
            if None in kw or any(data(x) for x in [kw.get(LEVELED[nm]), *n.args] if x is not None and any("alpha" in (getattr(y, "id", "") + getattr(y, "attr", "")) or isinstance(y, ast.Name) and not isinstance(x, ast.Name)
                                                                                                          for y in ast.walk(x))) or LEVELED[nm] in kw and data(kw[LEVELED[nm]]):
                continue
            yield f.qual, f"{nm}:{LEVELED[nm]}", f.where(n), f"{f.short} has a level alpha but {nm}() is left to its default level"


def same(prj: Project, tick=lambda what: None) -> Iterator[Tuple[str, str, str, str]]:
    """a decision whose two sides are the same code whenever some further condition holds"""
    for f in prj.funcs.values():
        for n in own_nodes(f.node):
            if not isinstance(n, ast.If) or not n.orelse:
                continue
            tick("two-sided decisions compared")
            sides = [{ast.dump(x.test): x.test for s in b for x in ast.walk(s) if isinstance(x, ast.If)} for b in (n.body, n.orelse)]
            inner = {k: t for k, t in sides[0].items() if k in sides[1]}
            for cond in [None, *inner]:
                for v in ((True, False) if cond else (True,)):
                    a, b = (simplify(x, cond, v) for x in (n.body, n.orelse))
                    if a and a == b:
                        yield f.qual, "same:" + ast.unparse(n.test), f.where(n), \
                            f"{ast.unparse(n.test)} makes no difference" + (f" when {ast.unparse(inner[cond])} is {v}" if cond else "")


def simplify(body: List[ast.stmt], cond: Optional[str], v: bool) -> List[str]:
    out: List[str] = []
    for s in body:
        if isinstance(s, ast.If) and cond is not None and ast.dump(s.test) == cond:
            out += simplify(s.body if v else s.orelse, cond, v)
        elif not (isinstance(s, ast.Pass) or isinstance(s, ast.Expr) and (isinstance(s.value, ast.Constant) or is_log(s.value))):
            out.append(ast.dump(s))
    return out


def keyed(prj: Project, s: Slice) -> Iterator[Tuple[Func, str, ast.AST, bool]]:
    """options read out of **kwargs: function, key, first read, whether some read has an effect"""
    for f in prj.funcs.values():
        if not public(f) or f.kwarg is None:
            continue
        reads = keys(f)
        for n in own_nodes(f.node):
            if isinstance(n, ast.Subscript) and isinstance(n.ctx, ast.Load) and isinstance(n.value, ast.Name) and n.value.id == f.kwarg and isinstance(n.slice, ast.Constant) \
                    and isinstance(n.slice.value, str):
                reads.setdefault(n.slice.value, []).append(n)
        for k, ns in reads.items():
            yield f, k, ns[0], any(s.use(n, f) for n in ns)


RULES = (("ignored-option", lambda p, s, t: ignored(p, s, t)), ("option-not-passed-on", lambda p, s, t: unforwarded(p, s, t)),
         ("level-not-passed-on", lambda p, s, t: levels(p, t)), ("no-difference", lambda p, s, t: same(p, t)), ("option-not-passed-on-here", lambda p, s, t: siblings(p, s, t)))


def run(c: Ctx) -> None:
    c.rules.append("S04: forward slice of every option (parameter of a public function, method or constructor, field of an options record, key read from **kwargs) through locals, attributes and "
                   "calls: it must reach something else than a validation, a message or a name nobody reads. A call of a library function that has an option of the same name and an effect "
                   "for it must be given it; a library computation of intervals or tests must be given the level; the two sides of a decision must differ.")
    c.assumptions += ["an argument given to code outside kats has an effect", "reviewed interface parameters (listed in the rule with reasons) are exempt"]
    selftest(c)
    sys.setrecursionlimit(20000)
    s = Slice(c.prj)
    used: Set[str] = set()
    for rule, go in RULES:
        for q, p, where, why in go(c.prj, s, c.count):
            if f"{q}|{p}" in REVIEWED:
                used.add(f"{q}|{p}")
                c.count("reviewed exceptions")
            else:
                c.find(rule, f"{q}|{p}", where, why)
    c.notes["exceptions"] = {k: v for k, v in REVIEWED.items() if k in used}
    c.floor("options of functions and constructors", 1500)
    c.floor("options read from **kwargs", 80)
    c.floor("fields of option records", 30)
    c.floor("options a callee takes under the same name", 280)
    c.floor("library calls that take a level", 7)
    c.floor("two-sided decisions compared", 350)


def selftest(c: Ctx) -> None:
    src = '''
import logging
from statsmodels.api import fitted
class A:
    def __init__(self, a, b=1, unused=2, checked=3, alpha=0.05):
        if checked < 0:
            raise ValueError("checked")
        self.b = b
        self.unused = unused
        self.alpha = alpha
        self.a = a
    def go(self, n, dead=1, logged=2, seasonal=True, slow=False, **kwargs):
        logging.info(f"{logged}")
        k = kwargs.get("kept", 1)
        j = kwargs.get("lost", 1)
        logging.info(j)
        x = helper(self.a, k)
        if slow:
            if n:
                y = fitted(x, 1)
            else:
                y = fitted(x, 2)
        else:
            if n:
                y = fitted(x, 1)
            else:
                y = fitted(x, 3)
        z = fitted.conf_int()
        w = fitted.conf_int(alpha=self.alpha)
        return [y, z, w] * n if seasonal else y
def helper(a, k, b=1):
    return fitted(a, k, b)
def outer(a, b=1):
    return helper(a, 1) + b
def fine(a, b=1):
    c = b + 1
    for i in range(c):
        a = a * 2
    return a
'''
    prj = Project(sources={"kats.t": src})
    s = Slice(prj)
    got = {(rule, p) for rule, go in RULES for q, p, where, why in go(prj, s, lambda what: None)}
    want = {("ignored-option", "unused"), ("ignored-option", "checked"), ("ignored-option", "dead"), ("ignored-option", "logged"), ("ignored-option", "**lost"), ("ignored-option", "b"),
            ("option-not-passed-on", "helper:b"), ("level-not-passed-on", "conf_int:alpha"), ("no-difference", "same:slow")}
    c.selftest("ignored options are found, used ones are not", got == want)
