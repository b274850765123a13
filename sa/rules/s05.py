"""S05: an error the library detects reaches the caller as an exception."""
from __future__ import annotations

import ast
import builtins
import json
import os
from typing import Dict, List, Optional, Set, Tuple

from ..flow import Flow, dead_stores, enclosing
from ..project import Func, Project, own_nodes
from ..report import Ctx

DATA = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "data", "error_messages.json")

# log records of level error after which the call legitimately goes on: (function, reason)
LOG_AND_GO = {
    "kats.models.globalmodel.model.GMModel._valid_tensor": "debug aid, active only with debug on",
    "kats.utils.decomposition.TimeSeriesDecomposition.__decompose_STL": "the logarithm that follows yields NaN for those points, documented",
    "kats.tsfeatures.tsfeatures.TsFeatures.get_level_shift_features": "a feature that cannot be computed is NaN, documented",
    "kats.tsfeatures.tsfeatures.TsFeatures.get_flat_spots": "a feature that cannot be computed is NaN, documented",
    "kats.tsfeatures.tsfeatures.TsFeatures.get_acfpacf_features": "a feature that cannot be computed is NaN, documented",
}
# handlers that absorb a broad exception, read one by one: (module, exception) -> how many, why
ABSORB: Dict[Tuple[str, str], Tuple[int, str]] = {
    ("kats.consts", "AssertionError"): (3, "outcome of an equality assertion turned into a bool"),
    ("kats.models.metalearner.metalearner_predictability", "Exception"): (2, "one series of a batch without features; fallback threshold"),
    ("kats.models.metalearner.get_metadata", "Exception"): (2, "one trial of a search counts as infinitely bad"),
    ("kats.compat.compat", "TypeError"): (1, "comparison protocol: NotImplemented"),
    ("kats.detectors.stat_sig_detector", "ValueError"): (2, "second way to read the unit follows, which raises"),
    ("kats.models.reconciliation.thm", "Exception"): (2, "fallback estimate when the kernel estimate is singular"),
    ("kats.models.globalmodel.stdmodel", "Exception"): (1, "fallback period when none can be inferred"),
    ("kats.detectors.outlier", "BaseException"): (1, "one column of many: reported as without outliers, logged"),
    ("kats.detectors.prophet_detector", "TypeError"): (1, "second attempt at decoding follows"),
    ("kats.detectors.meta_learning.metalearning_detection_model", "Exception"): (1, "series without features are skipped in training"),
    ("kats.utils.time_series_parameter_tuning", "Exception"): (2, "returned as an error value / second attempt follows"),
    ("kats.utils.feature_engineering", "TypeError"): (1, "index kind probe"),
    ("kats.tsfeatures.tsfeatures", "Exception"): (11, "a feature group that cannot be computed is NaN, documented"),
    ("kats.utils.backtesters", "Exception"): (2, "one failed fold counts as missing"),
}
BROAD = {"", "Exception", "BaseException", "ValueError", "AssertionError", "RuntimeError", "TypeError",
         "NotImplementedError", "ArithmeticError", "OSError", "KatsError", "DataError", "ParameterError",
         "DataInsufficientError", "DataIrregularGranularityError", "DataIrregularGranualarityException",
         "DataInsufficientException", "InternalError", "ParameterException", "UnsupportedError"}


def _builtin_exc(name: str) -> bool:
    o = getattr(builtins, name, None)
    return isinstance(o, type) and issubclass(o, BaseException) and not issubclass(o, Warning)


class Exc:
    """which expressions denote an exception object"""

    def __init__(self, prj: Project) -> None:
        self.prj = prj
        self.makers: Set[str] = set()
        for _ in range(3):
            for f in prj.funcs.values():
                if isinstance(f.node, ast.Lambda):
                    continue
                rets = [n for n in own_nodes(f.node) if isinstance(n, ast.Return)]
                if rets and all(r.value is not None and self.is_exc(r.value, f) for r in rets):
                    self.makers.add(f.qual)

    def exc_class(self, e: ast.AST, f: Func) -> bool:
        d = self.prj.dotted(e, f.module)
        c = self.prj.resolve_class(d)
        if c is not None:
            return any(_builtin_exc(b.split(".")[-1]) for k in c.mro for b in k.ext_bases)
        return isinstance(e, ast.Name) and _builtin_exc(e.id)

    def is_exc(self, e: ast.AST, f: Func) -> bool:
        """an exception instance, positively"""
        if isinstance(e, ast.Call):
            if self.exc_class(e.func, f):
                return True
            gs = self.prj.resolve_call(e, f)
            return bool(gs) and all(g.qual in self.makers for g in gs)
        return False


def _own_text(e: ast.AST) -> Optional[str]:
    """identity of a message: its constant parts"""
    if isinstance(e, ast.Constant) and isinstance(e.value, str):
        return e.value
    if isinstance(e, ast.JoinedStr):
        return "{}".join("".join(v.value for v in [p] if isinstance(v, ast.Constant)) if isinstance(p, ast.Constant) else ""
                         for p in e.values)
    if isinstance(e, ast.BinOp) and isinstance(e.op, (ast.Mod, ast.Add)):
        l, r = _own_text(e.left), _own_text(e.right) if isinstance(e.op, ast.Add) else ""
        return (l or "") + (r or "") if (l or r) else None
    if isinstance(e, ast.Call) and isinstance(e.func, ast.Attribute) and e.func.attr == "format":
        return _own_text(e.func.value)
    return None


def _norm(t: str) -> str:
    return " ".join(t.replace("{}", " ").split())


def messages(prj: Project, ex: Exc, fl: Flow, strict: bool = False) -> Dict[str, List[Tuple[Func, ast.AST, bool]]]:
    """message text -> places where it is composed, and whether that one reaches a raise"""
    out: Dict[str, List[Tuple[Func, ast.AST, bool]]] = {}
    for f in prj.funcs.values():
        if isinstance(f.node, ast.Lambda):
            continue
        doc = ast.get_docstring(f.node, clean=False) if not isinstance(f.node, ast.Lambda) else None
        raised_names: Dict[str, bool] = {}
        par: Dict[ast.AST, ast.AST] = {}
        for n in own_nodes(f.node):
            for c in ast.iter_child_nodes(n):
                par[c] = n
        for c in ast.iter_child_nodes(f.node):
            par[c] = f.node
        for n in own_nodes(f.node):
            if not isinstance(n, (ast.Constant, ast.JoinedStr, ast.BinOp, ast.Call)):
                continue
            t = _own_text(n)
            if t is None or t == doc or len(_norm(t)) < 12:
                continue
            p = par.get(n)
            if p is not None and isinstance(p, (ast.JoinedStr, ast.FormattedValue)):
                continue
            if isinstance(p, (ast.BinOp,)) and _own_text(p) is not None:
                continue
            if isinstance(p, ast.Attribute):
                continue
            out.setdefault(_norm(t), []).append((f, n, _raises(n, par, f, ex, fl, strict=strict)))
    return out


def _raises(n: ast.AST, par, f: Func, ex: Exc, fl: Flow, seen: frozenset = frozenset(),
            strict: bool = False) -> bool:
    """the string composed at n takes part in a raise (or, unless strict, leaves the
    function in a way this rule does not follow)"""
    cur = n
    while cur is not f.node:
        p = par.get(cur)
        if p is None:
            return False
        if isinstance(p, ast.Raise):
            return True
        if isinstance(p, ast.Assert):
            return p.msg is cur or _in(p.msg, cur)
        if isinstance(p, ast.Return):
            return not strict   # handed to the caller
        if isinstance(p, ast.Call):
            gs = ex.prj.resolve_call(p, f)
            if gs and any(g.qual in fl.noreturn for g in gs):
                return True
            if gs and not all(g.qual in ex.makers for g in gs):
                # handed to a project function: it may raise with it
                if not strict and any(isinstance(x, ast.Raise) for g in gs for x in own_nodes(g.node)):
                    return True
        if isinstance(p, (ast.Assign, ast.AnnAssign, ast.AugAssign, ast.NamedExpr)):
            ts = p.targets if isinstance(p, ast.Assign) else [p.target]
            for t in ts:
                if not isinstance(t, ast.Name):
                    return not strict   # stored somewhere: out of reach of this rule
                if isinstance(p, ast.NamedExpr):
                    return not strict
                if p not in seen and _name_raises(t.id, p, par, f, ex, fl, seen | {p}, strict):
                    return True
            return False
        if isinstance(p, (ast.Expr, ast.If, ast.While)):
            return False
        cur = p
    return False


def _in(root: Optional[ast.AST], n: ast.AST) -> bool:
    return root is not None and any(x is n for x in ast.walk(root))


def _name_raises(name: str, store: ast.stmt, par, f: Func, ex: Exc, fl: Flow, seen: frozenset, strict: bool) -> bool:
    for m in own_nodes(f.node):
        if isinstance(m, ast.Name) and m.id == name and isinstance(m.ctx, ast.Load):
            # a read in the same block as the store, or anywhere that is not separated by another store
            if _raises(m, par, f, ex, fl, seen, strict) and _reaches(store, m, par, f, name):
                return True
    for i in f.inner.values():
        if any(isinstance(m, ast.Name) and m.id == name for m in ast.walk(i.node)):
            return not strict
    return False


def _block_of(s: ast.AST, par) -> Optional[list]:
    p = par.get(s)
    for fld in ("body", "orelse", "finalbody"):
        b = getattr(p, fld, None)
        if isinstance(b, list) and any(x is s for x in b):
            return b
    return None


def _reaches(store: ast.stmt, read: ast.AST, par, f: Func, name: str) -> bool:
    """the read may see the value of that store: walk the statements after the
    store, outward block by block, until the name is unconditionally re-assigned"""
    cur: ast.AST = store
    while cur is not f.node and cur is not None:
        b = _block_of(cur, par)
        if b is not None:
            i = next(k for k, x in enumerate(b) if x is cur)
            for s in b[i + 1:]:
                if _in(s, read):
                    return True
                if isinstance(s, ast.Assign) and any(isinstance(t, ast.Name) and t.id == name for t in s.targets):
                    return False
                if isinstance(s, (ast.Return, ast.Raise, ast.Continue, ast.Break)):
                    return isinstance(s, (ast.Continue, ast.Break)) and True
        cur = par.get(cur)
        if isinstance(cur, (ast.For, ast.While)) and _in(cur, read):
            return True
    return False


def run_rules(prj: Project, report, count=lambda *_: None, absorb=ABSORB) -> Tuple[Exc, Flow]:
    fl = Flow(prj)
    ex = Exc(prj)
    seen_absorb: Dict[Tuple[str, str], List[Tuple[Func, ast.AST]]] = {}
    for f in prj.funcs.values():
        if isinstance(f.node, ast.Lambda):
            continue
        for n in own_nodes(f.node):
            if isinstance(n, ast.Raise):
                count("raise statements")
                if n.exc is not None:
                    bad = None
                    if isinstance(n.exc, ast.Constant):
                        bad = "a constant"
                    elif isinstance(n.exc, ast.Name) and n.exc.id in ("NotImplemented", "None"):
                        bad = n.exc.id
                    if bad:
                        report("raise-of-non-exception", f"{f.qual}|{ast.unparse(n.exc)[:40]}", f.where(n),
                               f"raises {bad}, which is not an exception")
            elif isinstance(n, ast.Assert):
                count("assert statements")
                if ex.is_exc(n.test, f):
                    report("assert-on-exception", f"{f.qual}|{ast.unparse(n.test)[:60]}", f.where(n),
                           "asserts an exception object, which is always true: the error is never raised")
                elif isinstance(n.test, ast.Tuple) and n.test.elts:
                    report("assert-on-tuple", f"{f.qual}|{ast.unparse(n.test)[:60]}", f.where(n),
                           "asserts a non-empty tuple, which is always true")
            elif isinstance(n, ast.Expr):
                if ex.is_exc(n.value, f):
                    report("exception-built-and-dropped", f"{f.qual}|{ast.unparse(n.value)[:60]}", f.where(n),
                           "builds an exception and drops it: the caller is not told")
                elif isinstance(n.value, ast.Call) and _error_log(n.value):
                    count("error log statements")
                    _log(prj, fl, ex, f, n, report)
                if isinstance(n.value, ast.Call) and any(
                        g.qual in ex.makers for g in prj.resolve_call(n.value, f)):
                    count("calls of functions that build an exception")
            elif isinstance(n, ast.ExceptHandler):
                count("exception handlers")
                k = fl.exits(n.body, f)
                if k <= {"raise"}:
                    continue
                names = _caught(n)
                for nm in names:
                    if nm in BROAD:
                        seen_absorb.setdefault((f.module.name, nm), []).append((f, n))
            elif isinstance(n, (ast.With, ast.AsyncWith)):
                for i in n.items:
                    ce = i.context_expr
                    if isinstance(ce, ast.Call) and (prj.dotted(ce.func, f.module) or "").endswith("suppress"):
                        for a in ce.args:
                            nm = ast.unparse(a).split(".")[-1]
                            if nm in BROAD:
                                seen_absorb.setdefault((f.module.name, nm), []).append((f, n))
            elif isinstance(n, ast.Try) and n.finalbody:
                if fl.exits(n.finalbody, f) & {"return", "break", "continue"}:
                    report("exception-discarded-in-finally", f"{f.qual}|finally", f.where(n.finalbody[0]),
                           "leaves a finally block by return/break/continue, which discards the exception in flight")
        for s, name in dead_stores(f):
            v = s.value
            if ex.is_exc(v, f):
                report("exception-built-and-dropped", f"{f.qual}|{name}|{ast.unparse(v)[:50]}", f.where(s),
                       f"builds an exception into '{name}', which is never raised or read")
            elif _own_text(v) is not None and _norm(_own_text(v)) and len(_own_text(v)) >= 12:
                report("message-composed-and-dropped", f"{f.qual}|{_norm(_own_text(v))[:60]}", f.where(s),
                       f"composes an error message into '{name}' that is never used: the condition it describes is not reported")
    for k, hs in sorted(seen_absorb.items()):
        allowed = absorb.get(k, (0, ""))[0]
        count("broad handlers that absorb", len(hs))
        if len(hs) > allowed:
            f, n = hs[-1]
            where = "; ".join(g.where(h) for g, h in hs)
            report("broad-exception-absorbed", f"{k[0]}|{k[1] or 'bare'}|{len(hs)}", where,
                   f"{len(hs)} handlers absorb {k[1] or 'every exception'} without raising, {allowed} are reviewed")
    return ex, fl


def _caught(h: ast.ExceptHandler) -> List[str]:
    if h.type is None:
        return [""]
    ts = h.type.elts if isinstance(h.type, ast.Tuple) else [h.type]
    return [ast.unparse(t).split(".")[-1] for t in ts]


def _error_log(c: ast.Call) -> bool:
    return isinstance(c.func, ast.Attribute) and c.func.attr in ("error", "critical", "exception") and \
        ast.unparse(c.func.value).split(".")[-1].lower().strip("_") in ("logging", "logger", "log")


def _log(prj: Project, fl: Flow, ex: Exc, f: Func, n: ast.Expr, report) -> None:
    if f.qual in LOG_AND_GO or f.qual in ex.makers:
        return
    anc = enclosing(f.node, n)
    if any(isinstance(a, ast.ExceptHandler) for a in anc):
        return   # judged by the handler rule
    rest = fl.exits_after(n, f)
    if rest & {"fall", "return"}:
        # a function that only logs (a helper) is judged where it is called
        if len(f.node.body) <= 2 and f.cls is None:
            return
        report("logged-error-not-raised", f"{f.qual}|{ast.unparse(n.value)[:60]}", f.where(n),
               "logs an error and then carries on: the caller is not told")


def run(c: Ctx) -> None:
    c.rules = [
        "Every function is searched for errors that are detected and then lost:",
        "(1) an exception object built by a constructor or by a function whose every return is an exception, used as a bare statement, asserted, or stored and never read;",
        "(2) an error message composed into a local that no path reads (backward liveness);",
        "(3) a log record of level error outside an exception handler from which the function can still complete normally (exits of the statements that follow, calls of always-raising helpers counted as raise);",
        "(4) more handlers absorbing a broad exception in a module than the reviewed number;",
        "(5) a message that is an error message of this code base (table confirmed on the reference tree) whose every composition no longer takes part in a raise;",
        "(6) raise of a value that is no exception.",
    ]
    c.assumptions = ["Optimised runs (python -O) are out of scope: assert statements count as checks.",
                     "The reviewed absorbing handlers stay as wide as they were; only their number is watched."]
    _selftests(c)
    ex, fl = run_rules(c.prj, c.find, c.count)
    ms = messages(c.prj, ex, fl)
    table = json.load(open(DATA)) if os.path.exists(DATA) else []
    for t in table:
        sites = ms.get(t)
        if not sites:
            continue
        c.count("error messages followed")
        for f, n, ok in sites:
            if not ok and not _still_raised_near(f, n, sites):
                c.find("error-message-no-longer-raised", f"{f.qual}|{t[:70]}", f.where(n),
                       f"the error '{t[:80]}' is composed here but never raised")
    c.notes["functions_building_exceptions"] = sorted(ex.makers)
    c.notes["functions_always_raising"] = sorted(fl.noreturn)
    c.floor("raise statements", 250)
    c.floor("error messages followed", 100)


def _still_raised_near(f: Func, n: ast.AST, sites) -> bool:
    """the same text is logged and also raised in the same function (message repeated)"""
    return any(ok and g is f for g, _, ok in sites)


def _selftests(c: Ctx) -> None:
    src = '''
import logging
def _err(m):
    logging.error(m)
    return ValueError(m)
def a(x):
    if x < 0:
        _err("x must be positive here")
    return x
def b(x):
    if x < 0:
        msg = f"x must be positive, got {x}"
    return x
def c(x):
    if x < 0:
        logging.error("x must be positive")
    y = x + 1
    return y
def d(x):
    assert ValueError("no")
def e(x):
    try:
        return a(x)
    except Exception:
        return None
def g(x):
    try:
        a(x)
    finally:
        return x
def h(x):
    from contextlib import suppress
    with suppress(Exception):
        a(x)
def ok(x):
    if x < 0:
        msg = "x must be positive"
        logging.error(msg)
        raise ValueError(msg)
    if x > 9:
        raise _err("x is far too large")
    return x
'''
    prj = Project(sources={"kats.t": src})
    got = set()
    run_rules(prj, lambda r, k, w, y: got.add((r, k.split("|")[0].split(".")[-1])), absorb={})
    want = {("exception-built-and-dropped", "a"), ("message-composed-and-dropped", "b"),
            ("logged-error-not-raised", "c"), ("assert-on-exception", "d"), ("broad-exception-absorbed", "t"), ("exception-discarded-in-finally", "g")}
    c.selftest("lost errors are found, raised ones are not", got == want)
