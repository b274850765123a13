"""S07: a forecast covers exactly the periods asked for.

Every forecasting model is followed through construction, fit and predict with a series of unknown length N and an
unknown number of steps. Library models (statsmodels, prophet) forecast the positions their interface promises; what
Kats makes of them is computed: the time column and every value column of the returned frame come out as stretches of
positions with polynomials as bounds, which have to be [N, N + steps), or [0, N + steps) with history.
"""
from __future__ import annotations

import ast
import os
from fractions import Fraction
from multiprocessing import Pool
from typing import Any, Dict, List, Optional, Tuple

from ..absint import FALSE, NN, NONE, TOP, TRUE, Budget, Frame, St, const, is_const
from ..linint import TS, LinInterp, padd, poly, show, showseq
from ..project import Project
from ..report import Ctx
from .s09 import Verdicts, part

M = "kats.models."
DV = ("dv",)            # a number or flag read off the data: nothing is known about it, and nothing has to be
NAN = (("ext", "numpy.nan"), ("ext", "math.nan"), ("ext", "numpy.NaN"))
OPS = {"mul": ast.Mult, "truediv": ast.Div, "sub": ast.Sub, "add": ast.Add}
_prj: Optional[Project] = None


def scenarios(tier: str) -> List[Dict[str, Any]]:
    out: List[Dict[str, Any]] = []

    def add(mod, model, params, pk=None, **more):
        extra = more.pop("more", {})
        for hist in ((False, True) if more.pop("history", True) else (None,)):
            for freq in (False, True):
                pr = {**({} if hist is None else {"include_history": hist}), **extra}
                if freq and not more.get("freq", True):
                    continue
                out.append({"cls": f"{M}{mod}.{model}", "params": f"{M}{mod}.{params}", "pk": pk or {}, "predict": pr, "askfreq": freq, **more})
    add("linear_model", "LinearModel", "LinearModelParams", full=True)
    add("quadratic_model", "QuadraticModel", "QuadraticModelParams", full=True)
    add("holtwinters", "HoltWintersModel", "HoltWintersParams", full=True)
    add("holtwinters", "HoltWintersModel", "HoltWintersParams", full=True, more={"alpha": 0.05})
    for m in (1, 12) + ((7, 24) if tier == "thorough" else ()):
        add("theta", "ThetaModel", "ThetaParams", {"m": m}, full=True)
    add("arima", "ARIMAModel", "ARIMAParams", {"p": 1, "d": 1, "q": 1})
    add("arima", "ARIMAModel", "ARIMAParams", {"p": 1, "d": 0, "q": 1}, full=True)
    add("sarima", "SARIMAModel", "SARIMAParams", {"p": 1, "d": 1, "q": 1}, full=True)
    add("var", "VARModel", "VARParams", multi=True)
    for m in ("last", "mean", "median", "percentile"):
        add("simple_heuristic_model", "SimpleHeuristicModel", "SimpleHeuristicModelParams", {"method": m}, full=True)
    for m in ("linear", "quadratic", "theta", "simple", "prophet"):
        for d in ("additive", "multiplicative"):
            for k in (12, 7, 2) if tier == "thorough" else (12,):
                add("stlf", "STLFModel", "STLFParams", {"method": m, "m": k, "decomposition": d}, full=True)
    add("prophet", "ProphetModel", "ProphetParams", full=True)
    add("prophet", "ProphetModel", "ProphetParams", full=True, missing=True)
    for e in ("median_ensemble.MedianEnsembleModel", "weighted_avg_ensemble.WeightedAvgEnsemble"):
        out.append({"cls": f"{M}ensemble.{e}", "params": None, "pk": {}, "predict": {}, "askfreq": True, "ensemble": True})
        out.append({"cls": f"{M}ensemble.{e}", "params": None, "pk": {}, "predict": {}, "askfreq": False, "ensemble": True})
    for how in ("predict", "forecast"):
        for agg in ("median", "weightedavg"):
            for dec in ("additive", "multiplicative"):
                for seas in (True, False):
                    out.append({"cls": M + "ensemble.kats_ensemble.KatsEnsemble", "params": None, "pk": {"aggregation": agg, "decomposition_method": dec, "seasonality_length": 12},
                                "predict": {}, "askfreq": False, "ensemble": True, "method": how, "seasonal": seas})
    out.append({"cls": M + "lstm.LSTMModel", "params": M + "lstm.LSTMParams", "pk": {"hidden_size": 10, "time_window": 4, "num_epochs": 5}, "predict": {}, "askfreq": False})
    return out


def label(sc: Dict[str, Any]) -> str:
    pk = ", ".join(str(v) for v in sc["pk"].values() if isinstance(v, str))
    ar = ["steps"] + [k for k, v in sc["predict"].items() if v] + (["freq"] if sc["askfreq"] else [])
    return f"{sc['cls'].split('.')[-1]}({pk}).{sc.get('method', 'predict')}({', '.join(ar)})" + (" with missing values" if sc.get("missing") else "") \
        + (" of seasonal data" if sc.get("seasonal") else "")


class FcstInterp(LinInterp):
    def __init__(self, prj: Project, multi: bool, **kw: Any) -> None:
        super().__init__(prj, **kw)
        self.multi = multi
        self.names: Dict[Any, str] = {}
        self.N: Any = None
        self.present: Any = None                # how many values are there, when some are missing
        self.checks: List[Tuple] = []           # (what, seq a, seq b, state, where)
        self.cycles: set = set()                # the cycle lengths series were decomposed with

    # ------------------------------------------------------ unknown numbers
    def truth(self, v, st: St):
        return None if v == DV else True if v[0] == "freq" else super().truth(v, st)

    def compare_vals(self, a, op, b, s2: St, l, r, fr: Frame):
        if NONE in (a, b) and isinstance(op, (ast.Is, ast.IsNot, ast.Eq, ast.NotEq)):
            o, h = (a, self.h(a, s2)) if b == NONE else (b, self.h(b, s2))
            if o[0] in ("freq", "dv", "row", "mat", "tiles") or h is not None and h.cls in ("ext:lib", "ext:pred"):
                return [(isinstance(op, (ast.IsNot, ast.NotEq)), s2)]
        return super().compare_vals(a, op, b, s2, l, r, fr)

    def cond(self, e: ast.AST, st: St, fr: Frame):
        if isinstance(e, ast.Call) and isinstance(e.func, ast.Name) and e.func.id in ("any", "all") and len(e.args) == 1 \
                and isinstance(e.args[0], (ast.GeneratorExp, ast.ListComp)) and len(e.args[0].generators) > 1:
            out = []
            for v, s in self.comp(e.args[0], st, fr):
                els = self.elements(v, s)
                ts = {self.truth(x, s) for x in els} if els is not None else {None}
                stop = e.func.id == "any"
                out += [(stop, s)] if stop in ts else [(True, s), (False, s)] if None in ts else [(not stop, s)]
            if len({t for t, _ in out}) == 1:
                return out
        if isinstance(e, (ast.Compare, ast.Name, ast.Attribute, ast.Subscript)) or isinstance(e, ast.Call) and not isinstance(e.func, ast.Name):
            parts = [e.left, *e.comparators] if isinstance(e, ast.Compare) else [e]
            k = len(self.excs[-1]) if self.excs else 0
            rs = self.evs(parts, st, fr)
            if rs and all(any(v == DV for v in vs) for vs, _ in rs) and not (isinstance(e, ast.Compare) and isinstance(e.ops[0], (ast.Is, ast.IsNot))):
                return [(t, s) for _, s in rs for t in (True, False)]
            if self.excs:
                del self.excs[-1][k:]
        return super().cond(e, st, fr)

    def binop(self, e: ast.BinOp, a, b, st: St, fr: Frame):
        a, b = [const(int(x[2])) if x in (TRUE, FALSE) else x for x in (a, b)]
        if DV in (a, b):
            o = b if a == DV else a
            return (o if o[0] == "seq" else DV), st
        for x, y in ((a, b), (b, a)):
            h = self.h(x, st) if y[0] in ("tiles", "seq") else None
            cols = self.cols(x, st) if h is not None and h.cls == "ext:pandas.DataFrame" else None
            if cols is not None and y[0] == "tiles":
                out = {}
                for k, c in cols.items():
                    out[k], st = (c, st) if k.startswith("#") else self.binop(e, c, y[1], st, fr)
                return self.frame(st, out, h.attrs.get("#index", NN))
        if a[0] == "seq" and b[0] == "seq" and "tile" in (a[1].split(":")[0], b[1].split(":")[0]) and a[1] != b[1]:
            x, y = (b, a) if a[1].startswith("tile") else (a, b)
            if len(x[2]) == 1 and len(y[2]) == 1:
                self.checks.append(("phase", x, y, st, fr.f.where(e) if fr.f is not None else "?"))
                return x, st
            return TOP, st
        return super().binop(e, a, b, st, fr)

    def ev(self, e, st: St, fr: Frame):
        if isinstance(e, ast.Name) and e.id not in st.env and fr.module is not None and e.id in fr.module.globals:
            # an optional library that is there
            d = fr.module.imports.get(e.id, "")
            if d.split(".")[0] in ("prophet", "fbprophet"):
                return [(("ext", d), st)]
            if e.id.startswith("_no_"):
                return [(FALSE, st)]
        if isinstance(e, ast.Slice):
            return self.ev_index(e, st, fr)
        if isinstance(e, ast.Compare) and len(e.ops) == 1 and isinstance(e.ops[0], (ast.Lt, ast.LtE, ast.Gt, ast.GtE, ast.Eq, ast.NotEq)):
            k = len(self.excs[-1]) if self.excs else 0
            rs = self.evs([e.left, e.comparators[0]], st, fr)
            if rs and all(any(v == DV or v[0] == "seq" and v[1] in ("val", "arr") for v in vs) for vs, _ in rs):
                return [(DV, s) for _, s in rs]
            if self.excs:
                del self.excs[-1][k:]
        if isinstance(e, ast.UnaryOp) and isinstance(e.op, (ast.USub, ast.Invert)):
            rs = super().ev(e.operand, st, fr)
            if any(v == DV for v, _ in rs):
                return rs
        return super().ev(e, st, fr)

    def item(self, v, i, st: St):
        if v[1] in ("val", "arr", "list") and i[0] != "slice":
            return [(DV, st)]
        return super().item(v, i, st)

    def assign(self, t, v, st: St, fr: Frame):
        if v == DV and isinstance(t, (ast.Tuple, ast.List)):
            states = [st]
            for x in t.elts:
                states = [s2 for s in states for s2 in self.assign(x.value if isinstance(x, ast.Starred) else x, DV, s, fr)]
            return states
        return super().assign(t, v, st, fr)

    def setcols(self, v, cols, st: St) -> St:
        return super().setcols(v, self.spread(cols, st) if cols else cols, st)

    def frame(self, st: St, cols, *more):
        return super().frame(st, self.spread(cols, st) if cols else cols, *more)

    @staticmethod
    def spread(cols, st: St):
        """a number given for a whole column stands in every row"""
        q = next((c for c in cols.values() if c[0] == "seq" and c[1] in ("val", "arr", "list", "time")), None)
        if q is None:
            return cols
        return {k: ("seq", "val", q[2]) if not k.startswith("#") and (is_const(c) and isinstance(c[2], (int, float)) or c in NAN) else c for k, c in cols.items()}

    def setattr_(self, b, name: str, v, st: St, node, fr: Frame):
        h = self.h(b, st)
        cols = self.cols(b, st) if h is not None and h.cls == "ext:pandas.DataFrame" else None
        if name == "columns" and cols is not None:
            els = self.elements(v, st)
            vals = [c for k, c in cols.items() if not k.startswith("#")]
            named = els is not None and len(els) == len(vals) and all(is_const(x) for x in els)
            return [self.setcols(b, {str(els[i][2]) if named else f"c{i}": c for i, c in enumerate(vals)}, st)]
        return super().setattr_(b, name, v, st, node, fr)

    def sub_seq(self, b, i, st: St):
        if i[0] == "null":
            return [(b if i[2] and self.present is None else TOP, st)]
        els = self.elements(i, st) if i[0] == "obj" else None
        if els is not None and len(els) == 2 and els[0][0] == "slice":
            rows = self.sub_seq(b, els[0], st)
            return rows
        if els is not None and len(els) == 2 and els[1][0] == "slice" and is_const(els[0]):
            return [(("row", b), st)]
        return super().sub_seq(b, i, st)

    # ------------------------------------------------------------ the data
    def attr(self, b, name: str, st: St, node, fr: Frame):
        if b[0] == "null":
            return [(b if name in ("iloc", "loc", "values", "iat") else ("extb", b, name), st)]
        if b[0] == "tiles":
            return [(b if name == "T" else ("extb", b, name), st)]
        if b == DV:
            return [(DV if name in ("T", "values", "real") else ("extb", b, name), st)]
        if b[0] == "seq" and b[1] in ("val", "arr"):
            if name == "columns" and self.multi:
                return [self.alloc(st, "list", None, (const("a"), const("b")))]
            if name == "shape" and self.multi:
                return [self.alloc(st, "tuple", None, (self.seqlen(b) or TOP, const(2)))]
            if name == "ndim":
                return [(const(2 if self.multi else 1), st)]
        h = self.h(b, st)
        if h is not None and h.cls == "ext:pandas.DataFrame" and name == "columns":
            cols = self.cols(b, st)
            if cols is not None:
                return [self.alloc(st, "list", None, tuple(const(k) for k in cols if not k.startswith("#")))]
        if h is not None and h.cls == "ext:pandas.DataFrame" and name == "shape":
            cols = self.cols(b, st)
            q = self.frame_seq(b, st)
            if cols is not None and q is not None:
                return [self.alloc(st, "tuple", None, (self.seqlen(q) or TOP, const(len(cols))))]
        if h is not None and h.cls == "ext:pred":
            return [(h.attrs["#v"], st)] if name in ("predicted_mean", "se_mean", "mean") else [(("extb", b, name), st)]
        if h is not None and h.cls == "ext:lib":
            if name in ("fittedvalues", "resid", "fcastvalues"):
                if self.multi:
                    return [(("seq", "val", (("t", self.kar(), self.N),)), st)]
                return [(("seq", "val", (("t", const(0), self.N),)), st)]
            if name == "k_ar":
                return [(self.kar(), st)]
            if name in ("sse", "params", "aic", "bic", "sigma_u", "endog", "interval_width"):
                return [(DV, st)]
            if name == "history":
                return [self.frame(st, {"ds": ("seq", "time", (("t", const(0), self.N),))})]
            return [(("extb", b, name), st)]
        return super().attr(b, name, st, node, fr)

    def subscript(self, e: ast.Subscript, st: St, fr: Frame):
        rs = self.ev(e.value, st, fr)
        if any(b == DV or b[0] == "row" for b, _ in rs):
            return [(DV, s) for b, s in rs]
        if rs and all(b[0] == "null" for b, _ in rs):
            return [(const(b[2]) if i[0] != "slice" else b, s2) for b, s in rs for i, s2 in self.ev_index(e.slice, s, fr)]
        if rs and all(b[0] in ("frameloc", "mat") for b, _ in rs):
            out = []
            for b, s in rs:
                for i, s2 in self.ev_index(e.slice, s, fr):
                    els = self.elements(i, s2) if i[0] == "obj" else None
                    if b[0] == "mat":
                        one = is_const(i) or els is not None and len(els) == 2 and (is_const(els[0]) or els[0][0] == "lin") and els[1][0] == "slice"
                        out.append((self.stretch(self.N, padd(self.N, b[1])) if one and poly(b[1]) is not None else DV if i[0] == "obj" else TOP, s2))
                        continue
                    cols = self.cols(b[1], s2)
                    if els is not None and len(els) == 2 and cols is not None:
                        names = [k for k in cols if not k.startswith("#")]
                        if els[0][0] == "slice" and is_const(els[1]) and isinstance(els[1][2], int) and -len(names) <= els[1][2] < len(names):
                            col = cols[names[els[1][2]]]
                            out.extend(self.sub_seq(col, els[0], s2) if col[0] == "seq" else [(TOP, s2)])
                            continue
                        if els[0][0] != "slice" and els[1][0] != "slice":
                            out.append((DV, s2))
                            continue
                    return super().subscript(e, st, fr)
            return out
        return super().subscript(e, st, fr)

    def kar(self):
        v = self.opaque(("k_ar",), "k_ar", 0, True)
        self.samples.setdefault(self.interned[("k_ar",)], [1, 2])
        return v

    def lib(self, st: St):
        return [self.alloc(st, "ext:lib", {}, None, True)]

    def shaped(self, q, shape, st: St, node, fr: Frame):
        """a table of the given width; its rows stand for as many periods after the data"""
        els = self.elements(shape, st) if shape is not None and shape[0] == "obj" else None
        n = self.seqlen(q)
        if els is None or len(els) != 2 or n is None or const(1) in els or const(-1) not in els or any(poly(x) is None for x in els):
            return q, st
        w = els[0] if els[1] == const(-1) else els[1]
        self.checks.append(("rows", n, w, st, fr.f.where(node) if fr.f is not None else "?"))
        if q[1] in ("val", "arr") and q[2]:
            self.checks.append(("block", q, w, st, fr.f.where(node) if fr.f is not None else "?"))
        d, st = self.binop(ast.copy_location(ast.BinOp(left=ast.Constant(0), op=ast.FloorDiv(), right=ast.Constant(0)), node), n, w, st, fr)
        return (("mat", w, d) if els[0] == const(-1) else ("mat", d, w)), st

    def stretch(self, lo, hi):
        return ("seq", "val", (("t", lo, hi),))

    def type_test(self, v, t, st: St):
        if v[0] == "seq" and v[1] == "val" and t[0] == "ext" and t[1].split(".")[-1] in ("Series", "DataFrame"):
            return (t[1].split(".")[-1] == "DataFrame") == self.multi
        if v == DV:
            return None
        return super().type_test(v, t, st)

    # --------------------------------------------------------------- calls
    def ext_method(self, b, name: str, args, kw, st: St, fr: Frame, node):
        a0 = args[0] if args else None
        if b == DV or b[0] == "row":
            return [(DV, st)]
        if b[0] == "tiles":
            return [(b if name in ("transpose", "copy") else TOP, st)]
        if b[0] == "null":
            if self.present is not None and name in ("any", "all", "sum"):
                n = self.seqlen(b[1])
                return [(DV if name != "sum" or part(b[1]) != (const(0), self.N) else self.present if b[2] else padd(n, self.present, -1), st)]
            if name in ("any", "all", "sum", "item", "to_numpy", "astype", "copy"):
                return [(const(b[2]) if name in ("any", "all") else (self.seqlen(b[1]) if b[2] else const(0)) if name == "sum" else b, st)]
            return [(TOP, st)]
        h = self.h(b, st)
        if b[0] == "seq":
            if name == "is_univariate":
                return [(const(not self.multi), st)]
            if name == "rename" and a0 is not None and is_const(a0):
                self.names[b[2]] = a0[2]
                return [(b, st)]
            if name == "to_frame":
                n = kw.get("name", a0 if a0 is not None else const(self.names.get(b[2], "0")))
                if is_const(n):
                    return [self.frame(st, {n[2]: b}, b)]
            if name in ("isna", "isnull", "notnull", "notna") and b[1] != "time":
                return [(("null", b, name[:3] == "not"), st)]           # no value is missing, by assumption
            if name in ("any", "all", "sum", "mean", "std", "nunique", "isna", "isnull", "notnull", "median", "var") or b[1] != "time" and name in ("max", "min"):
                return [(DV, st)]
            if name in ("reshape",) and b[1] in ("val", "arr"):
                return [self.shaped(b, a0 if len(args) == 1 else None, st, node, fr)]
            if name in ("date_range",):
                return [(TOP, st)]
        if h is not None and h.cls == "ext:pred":
            v = h.attrs["#v"]
            if name == "conf_int":
                return [self.frame(st, {"lower y": v, "upper y": v})]
            if name == "summary_frame":
                return [self.frame(st, {"mean": v, "mean_se": v, "mean_ci_lower": v, "mean_ci_upper": v})]
            return [(TOP, st)]
        if h is not None and h.cls == "ext:lib":
            return self.lib_call(b, name, args, kw, st, fr, node)
        if h is not None and h.cls == "ext:pandas.DataFrame":
            cols = self.cols(b, st)
            if name == "dropna" and "subset" in kw and cols is not None:
                els = self.elements(kw["subset"], st)
                if els is not None and len(els) == 1 and is_const(els[0]) and cols.get(els[0][2], TOP)[0] == "seq":
                    k = cols[els[0][2]]
                    out = {}
                    for n, c in cols.items():
                        # rows are matched by position: what both columns have stays
                        ok = c[0] == "seq" and part(c) is not None and part(k) is not None
                        lo = (part(k)[0] if self.le(part(c)[0], part(k)[0], st) else part(c)[0] if self.le(part(k)[0], part(c)[0], st) else None) if ok else None
                        hi = (part(k)[1] if self.le(part(k)[1], part(c)[1], st) else part(c)[1] if self.le(part(c)[1], part(k)[1], st) else None) if ok else None
                        out[n] = ("seq", c[1], (("t", lo, hi),)) if lo is not None and hi is not None else TOP
                    return [self.frame(st, out)]
            if name == "merge" and a0 is not None and cols is not None:
                o = self.cols(a0, st)
                x, y = cols.get("ds", TOP), (o or {}).get("ds", TOP)
                how = kw.get("how", const("inner"))
                if x[0] == "seq" and y[0] == "seq" and part(x) is not None and part(y) is not None and how == const("outer"):
                    # the dates of both
                    lo = part(x)[0] if self.le(part(x)[0], part(y)[0], st) else part(y)[0] if self.le(part(y)[0], part(x)[0], st) else None
                    hi = part(x)[1] if self.le(part(y)[1], part(x)[1], st) else part(y)[1] if self.le(part(x)[1], part(y)[1], st) else None
                    if lo is not None and hi is not None and self.le(part(y)[0], part(x)[1], st) and self.le(part(x)[0], part(y)[1], st):
                        q = ("seq", "time", (("t", lo, hi),))
                        return [self.frame(st, {n: q if n == "ds" else TOP for n in {**cols, **o}})]
                return [self.frame(st, None)]
            if name in ("isnull", "isna", "notnull", "notna"):
                return [(DV, st)]
            if name == "replace" and cols is not None:
                return [self.frame(st, cols, h.attrs.get("#index", NN))]
            if name == "median" or name == "dot":
                q = self.frame_seq(b, st)
                return [(q if q is not None else TOP, st)]
        return super().ext_method(b, name, args, kw, st, fr, node)

    def frame_call(self, b, h, name, args, kw, st: St, fr: Frame, node):
        r = super().frame_call(b, h, name, args, kw, st, fr, node)
        return r

    def lib_call(self, b, name: str, args, kw, st: St, fr: Frame, node):
        a0 = args[0] if args else None
        if name in ("fit", "filter", "smooth", "train", "eval"):
            return [(b, st)]
        N = self.N
        if name in ("forecast", "get_forecast"):
            n = kw.get("steps", a0 if a0 is not None else const(1))
            v = self.stretch(N, padd(N, n)) if poly(n) is not None else TOP
            return [(v, st)] if name == "forecast" else [self.alloc(st, "ext:pred", {"#v": v}, None, True)]
        if name == "forecast_interval":
            n = kw.get("steps", args[1] if len(args) > 1 else NONE)
            v = self.stretch(N, padd(N, n)) if poly(n) is not None else TOP
            return [self.alloc(st, "tuple", None, (v, v, v))]
        if name in ("predict", "get_prediction"):
            cols = self.cols(a0, st) if a0 is not None else None
            if a0 is not None and a0[0] == "seq":
                # one value per row of the design matrix, whose rows are numbered like the observations
                return [(("seq", "val", tuple(("t", lo, hi) for _, lo, hi in a0[2])), st)]
            if cols is not None or (a0 is not None and a0[0] == "obj"):
                q = (cols or {}).get("ds", TOP)
                if q[0] == "seq":
                    v = ("seq", "val", q[2])
                    return [self.frame(st, {"ds": q, "yhat": v, "yhat_lower": v, "yhat_upper": v})]
                return [self.frame(st, None)]
            lo = kw.get("start", a0 if a0 is not None else const(0))
            hi = kw.get("end", args[1] if len(args) > 1 else NONE)
            lo = const(0) if lo == NONE else lo
            hi = N if hi == NONE else padd(hi, const(1)) if poly(hi) is not None else None
            v = self.stretch(lo, hi) if poly(lo) is not None and hi is not None else TOP
            return [(v, st)] if name == "predict" else [self.alloc(st, "ext:pred", {"#v": v}, None, True)]
        if name == "make_future_dataframe":
            n = kw.get("periods", a0 if a0 is not None else NONE)
            hist = kw.get("include_history", args[2] if len(args) > 2 else TRUE)
            f = kw.get("freq", args[1] if len(args) > 1 else const("D"))
            self.checks.append(("freq", f, fr.f.cls.qual if fr.f is not None and fr.f.cls is not None else None, st, fr.f.where(node) if fr.f is not None else "?"))
            if poly(n) is None or hist not in (TRUE, FALSE):
                return [self.frame(st, None)]
            return [self.frame(st, {"ds": ("seq", "time", (("t", const(0) if hist == TRUE else N, padd(N, n)),))})]
        if name == "inverse_transform" and a0 is not None and a0[0] == "seq":
            return [(a0, st)]
        return [(DV, st)]

    def ext_call(self, d: str, args, kw, st: St, fr: Frame, node, star: bool = False):
        n = d.split(".")[-1]
        a = args[0] if args else None
        root = d.split(".")[0]
        if root in ("statsmodels", "prophet", "sklearn", "fbprophet"):
            if n == "add_constant" and a is not None:
                ok = kw.get("has_constant", args[2] if len(args) > 2 else const("skip"))
                if a[0] == "seq" and ok != const("add"):
                    self.checks.append(("constant", a, a, st, fr.f.where(node) if fr.f is not None else "?"))
                return [(a, st)]
            if n == "wls_prediction_std":
                x = kw.get("exog", args[1] if len(args) > 1 else NONE)
                v = ("seq", "arr", tuple(("t", lo, hi) for _, lo, hi in x[2])) if x[0] == "seq" else self.stretch(const(0), self.N) if x == NONE else TOP
                return [self.alloc(st, "tuple", None, (v, v, v))]
            if n[:1].isupper():
                return self.lib(st)
            return [(DV, st)]
        if root == "numpy":
            if n in ("roll", "resize") and a is not None and a[0] == "seq" and len(a[2]) == 1 and len(args) > 1 and poly(args[1]) is not None:
                ax, lo, hi = a[2][0]
                m = padd(hi, lo, -1)
                if not is_const(m):
                    return [(TOP, st)]
                l2, h2 = (padd(lo, args[1], -1), None) if n == "roll" else (lo, padd(lo, args[1]))
                return [(("seq", f"tile:{m[2]}", (("t", l2, h2 if h2 is not None else padd(l2, m)),)), st)]
            if n in ("concatenate", "hstack") and a is not None and a[0] == "obj":
                els = self.elements(a, st)
                if els and any(x[0] == "seq" and x[1].startswith("tile") for x in els) and all(x[0] == "seq" and len(x[2]) == 1 for x in els):
                    out, end = None, None
                    for x in els:
                        lo, hi = x[2][0][1:]
                        if end is not None and x[1].startswith("tile"):
                            at = ("seq", "val", (("t", end, padd(end, padd(hi, lo, -1))),))
                            self.checks.append(("phase", at, x, st, fr.f.where(node) if fr.f is not None else "?"))
                            lo, hi = at[2][0][1:]
                        elif end is None and x[1].startswith("tile"):
                            return [(TOP, st)]
                        out, end = (lo if out is None else out), hi
                    return [(("seq", "val", (("t", out, end),)), st)]
            if n == "tile" and a is not None and a[0] == "seq" and a[1].startswith("tile") and len(args) > 1:
                els = self.elements(args[1], st) if args[1][0] == "obj" else None
                return [(("tiles", a) if els is not None and len(els) == 2 and els[1] == const(1) else TOP, st)]
            if n == "tile" and a is not None and a[0] == "seq" and len(a[2]) == 1 and len(args) > 1 and poly(args[1]) is not None:
                ax, lo, hi = a[2][0]
                m = padd(hi, lo, -1)
                if is_const(m):
                    return [(("seq", f"tile:{m[2]}", (("t", lo, padd(lo, self.binop_lin_mul(m, args[1]))),)), st)]
                return [(TOP, st)]
            if n in ("column_stack", "vstack", "hstack") and a is not None and n == "column_stack":
                els = self.elements(a, st)
                if els and all(x[0] == "seq" and x[2] == els[0][2] for x in els):
                    return [(els[0], st)]
                return [(TOP, st)]
            if n == "reshape" and a is not None and a[0] == "seq":
                return [self.shaped(a, args[1] if len(args) > 1 else None, st, node, fr)]
            if n in ("mean", "median", "percentile", "quantile", "nanmean", "max", "min", "nanmedian") and a is not None and a[0] == "mat":
                ax = kw.get("axis", args[2] if n in ("percentile", "quantile") and len(args) > 2 else args[1] if n not in ("percentile", "quantile") and len(args) > 1 else NONE)
                w = a[1] if ax == const(0) else a[2] if ax in (const(1), const(-1)) else None
                return [(DV if ax == NONE else self.stretch(self.N, padd(self.N, w)) if w is not None and poly(w) is not None else TOP, st)]
            if n in ("power", "log1p", "square", "full_like", "zeros_like", "ones_like", "asarray", "array", "sqrt", "abs", "expand_dims") and a is not None and a[0] == "seq":
                return [(a, st)]
            if n in ("mean", "median", "percentile", "quantile", "nanmean") and a is not None and a[0] == "seq":
                ax = kw.get("axis", args[2] if n in ("percentile", "quantile") and len(args) > 2 else args[1] if n not in ("percentile", "quantile") and len(args) > 1 else NONE)
                return [(("row", a) if ax == const(0) else DV, st)]
            if any(x == DV or x[0] == "seq" for x in args) and n not in ("concatenate", "append", "arange", "linspace", "searchsorted", "array_split", "isnan"):
                return [(DV, st)] if not any(x[0] == "seq" and x[1].startswith("tile") for x in args) else [(TOP, st)]
        if root == "scipy":
            return [(DV, st)]
        if root in ("operator", "_operator") and len(args) == 2 and n in OPS:
            return [self.binop(ast.copy_location(ast.BinOp(left=ast.Constant(0), op=OPS[n](), right=ast.Constant(0)), node), args[0], args[1], st, fr)]
        if root == "pandas" and n == "concat" and a is not None and kw.get("axis", args[1] if len(args) > 1 else NONE) in (const(1), const("columns")):
            els = self.elements(a, st)
            if els and all(x[0] == "seq" for x in els):
                if all(self.samelen(els[0], x, st) for x in els[1:]):
                    return [self.frame(st, {f"c{i}": x for i, x in enumerate(els)})]
                return [self.frame(st, None)]
        if root == "pandas" and n in ("infer_freq",):
            return [(("freq", "data"), st)]
        if root == "pandas" and n == "date_range":
            f = kw.get("freq", args[3] if len(args) > 3 else NONE)
            self.checks.append(("freq", f, fr.f.cls.qual if fr.f is not None and fr.f.cls is not None else None, st, fr.f.where(node) if fr.f is not None else "?"))
        return super().ext_call(d, args, kw, st, fr, node, star)

    def concat(self, parts: List[Any], st: St):
        return super().concat(parts, st)

    def builtin(self, n: str, args, kw, st: St, fr: Frame, node):
        if n in ("max", "min", "abs", "float", "int", "sum", "round") and any(x == DV for x in args):
            return [(DV, st)]
        return super().builtin(n, args, kw, st, fr, node)


def series(v, it: FcstInterp, st: St) -> Optional[Tuple[Any, ...]]:
    return v[2] if v[0] == "seq" and v[1] in ("val", "arr", "list", "time", "range") else None


def play(sc: Dict[str, Any]) -> List[Tuple[str, str, str]]:
    prj = _prj
    if sc["cls"] not in prj.classes:
        return [("gone", "", "")]
    it = FcstInterp(prj, bool(sc.get("multi")), budget=500000)
    it.opaque_ctors.add(TS)
    N, steps = it.symbol("N", 30), it.symbol("steps", 1)
    it.N = N
    if sc.get("missing"):
        # some values are missing, the last one is not
        it.present = it.symbol("present", 1)
        it.samples["present"] = [28]
    it.samples.update({"N": [30, 31, 37, 60], "steps": [1, 2, 7, 12, 13, 25]})
    st = St()
    if it.present is not None:
        st = it.assume(st, padd(padd(N, it.present, -1), const(1), -1))
    data = ("seq", "ts", (("t", const(0), N),))

    def decomposed(i, a, k, s, f, nd):
        h = i.h(a[0], s) if a and a[0][0] == "obj" else None
        i.cycles.add(h.attrs.get("period", TOP) if h is not None else TOP)
        els = [(const(n), ("seq", "ts", (("t", const(0), N),))) for n in ("trend", "seasonal", "rem")]
        return [i.alloc(s, "dict", None, tuple(els))]
    it.stubs["kats.utils.decomposition.TimeSeriesDecomposition.decomposer"] = decomposed
    for n in ("run_cv", "get_lr"):          # how wide the interval is, not where
        it.stubs[f"kats.utils.emp_confidence_int.EmpConfidenceInt.{n}"] = lambda i, a, k, s, f, nd: [(NONE, i.own(a[0], s).setattr(a[0][1], "coefs", DV))]
    fr = Frame(None, prj.classes[sc["cls"]].module, 0, None, None)
    vd = Verdicts(it)
    ran = 0
    try:
        if sc.get("ensemble"):
            E = M + "ensemble.ensemble."
            ms = []
            for name, q in (("linear", M + "linear_model.LinearModelParams"), ("holtwinters", M + "holtwinters.HoltWintersParams")):
                (p, st), = it.run(lambda: it.instantiate(q, [], {}, st, fr, None))[0][:1]
                (b, st), = it.run(lambda: it.instantiate(E + "BaseModelParams", [const(name), p], {}, st, fr, None))[0][:1]
                ms.append(b)
            l, st = it.alloc(st, "list", None, tuple(ms))
            ps = it.run(lambda: it.instantiate(E + "EnsembleParams", [l], {}, st, fr, None))[0]
            if "method" in sc:
                ks, st = it.alloc(ps[0][1], "dict", None, tuple([(const("models"), ps[0][0])] + [(const(k), const(v)) for k, v in sc["pk"].items()]))
                ps = [(ks, st)]
                it.stubs[sc["cls"] + ".seasonality_detector"] = lambda i, a, k, s, f, nd: [(const(sc["seasonal"]), s)]
                it.stubs[sc["cls"] + ".backTestExecutor"] = lambda i, a, k, s, f, nd: [(DV, s)]
            for c in prj.classes:
                if c.startswith(M + "ensemble.") and "_backtester_all" in {g.name for g in prj.classes[c].methods.values()}:
                    it.stubs[c + "._backtester_all"] = lambda i, a, k, s, f, nd: [i.alloc(i.own(a[0], s).setattr(a[0][1], "weights", DV), "tuple", None, (DV, DV))]
        else:
            ps = it.run(lambda: it.instantiate(sc["params"], [], {k: const(v) for k, v in sc["pk"].items()}, st, fr, None))[0]
        kw = {"steps": steps, **{k: const(v) for k, v in sc["predict"].items()}}
        if sc["askfreq"]:
            kw["freq"] = ("freq", "asked")
        for p, s0 in ps:
            for m, s1 in it.run(lambda: it.instantiate(sc["cls"], [data, p], {}, s0, fr, None))[0]:
                cl = prj.classes[it.h(m, s1).cls]
                for _, s2 in it.run(lambda: it.invoke(cl.find("fit"), [m], {}, s1, fr))[0] if sc.get("method") != "forecast" else [(NONE, s1)]:
                    k0 = len(it.checks)
                    rs, ex = it.run(lambda: it.invoke(cl.find(sc.get("method", "predict")), [m], dict(kw), s2, fr))
                    if "method" in sc:
                        rs = [y for _, s in rs for y in it.run(lambda: it.invoke(cl.find("aggregate"), [m], {}, s, fr))[0]]
                    ran += len(rs)
                    for r, s3 in rs:
                        result(it, vd, sc, r, N, steps, s3)
                    library(it, vd, sc, k0)
        if not ran:
            vd.rows.append(("none", "a forecast is returned", "no path from the constructor through fit to predict returns"))
    except Budget:
        vd.rows.append(("open", "budget", "too many paths"))
    return vd.rows


def rows(it: FcstInterp, n, w, st: St) -> Tuple[str, Optional[Dict[str, str]]]:
    """does the width divide the number of values?"""
    pn, pw = poly(n), poly(w)
    if pn is not None and pw is not None and pw[0] == 0 and len(pw[1]) == 1:
        (m, k), = pw[1].items()
        if k == 1 and len(m) == 1 and pn[0] == 0 and all(m[0] in t and c.denominator == 1 for t, c in pn[1].items()):
            return "holds", None
    if it.blind(st):
        return "open", None
    for x in it.samples.get("N", []):
        for y in it.samples.get("steps", []):
            env = {"N": Fraction(x), "steps": Fraction(y)}
            vals = [it.evaluate(g[1] if g[0] == "gt" else g, env) for g in it.facts(st)]
            if any(v is None or v < 0 or v == 0 and g[0] == "gt" for v, g in zip(vals, it.facts(st))):
                continue
            p, q = it.evaluate(n, env), it.evaluate(w, env)
            if p is not None and q and p % q:
                return "fails", {"N": str(x), "steps": str(y)}
    return "open", None


def library(it: FcstInterp, vd: Verdicts, sc, k0: int) -> None:
    seen = set()
    for what, a, b, st, where in it.checks[k0:]:
        k = (what, a, b, where, it.facts(st))
        if k in seen:
            continue
        seen.add(k)
        if what == "constant":
            n = it.seqlen(a)
            vd.want("a design matrix of a single row keeps its constant", padd(n, const(2), -1), st,
                    f"{where}: add_constant() leaves the constant out of a matrix with one row")
        elif what == "phase":
            m = int(b[1].split(":")[1])
            d = padd(a[2][0][1], b[2][0][1], -1)
            if d is None:
                continue
            c0, ts = poly(d)
            bad = [t for t, k in ts.items() if k % m] or (c0 % m != 0)
            text = f"{where}: the seasonal cycle of {m} observations starting at {show(b[2][0][1])} is laid over {showseq(a)}"
            for p in sorted(it.cycles, key=str):
                vd.rows.append(("holds" if p == const(m) else "fails" if is_const(p) and not it.blind(st) else "open", "the repeated cycle is as long as the one decomposed",
                                f"{where}: the data are decomposed with a cycle of {p[2] if is_const(p) and p[2] is not None else 'the length the library takes for their frequency'}, {m} observations are repeated" if is_const(p) else where))
            vd.same("the seasonal pattern is as long as what it is added to", it.seqlen(a), it.seqlen(b), st, text)
            vd.rows.append(("holds" if not bad else "open" if it.blind(st) else "fails", "seasonal pattern continues in phase", text))
        elif what == "block":
            vd.same("blocks of past periods end at the last one", a[2][-1][2], it.N, st, f"{where}: {showseq(a)} in rows of {show(b)}")
        elif what == "rows":
            got = rows(it, a, b, st)
            vd.rows.append((got[0], "a table has whole rows", f"{where}: {show(a)} values in rows of {show(b)}" + (f", with {got[1]}" if got[1] else "")))
        elif what == "freq":
            own = {k.qual for k in it.prj.classes[sc["cls"]].mro}
            if b not in own and (b is not None or "stlf" in sc["cls"] or sc.get("ensemble")):
                continue
            ok = a in (("freq", "data"), ("freq", "asked"), ("delta", const(1)))
            if ok and sc["askfreq"] and a != ("freq", "asked"):
                vd.rows.append(("open" if it.blind(st) else "fails", "the frequency asked for is used", f"{where}: the dates follow the frequency of the data"))
            elif ok:
                vd.rows.append(("holds", "dates follow the frequency of the data or the one asked for", where))
            else:
                vd.rows.append(("fails" if a == NONE or is_const(a) and isinstance(a[2], str) else "open", "dates follow the frequency of the data or the one asked for", f"{where}: freq={a[2] if is_const(a) else a}"))


def result(it: FcstInterp, vd: Verdicts, sc, r, N, steps, st: St) -> None:
    h = it.h(r, st)
    frames = [r]
    if h is not None and h.cls == "dict" and h.elts is not None:
        frames = [v for _, v in h.elts]
        if not frames:
            vd.rows.append(("open", "result", "an empty result"))
    hist = bool(sc["predict"].get("include_history"))
    for f in frames:
        if f[0] == "seq" and f[1] == "ts":
            cols = {"time": ("seq", "time", f[2])}
        else:
            cols = it.cols(f, st)
        if cols is None or "time" not in cols:
            vd.rows.append(("open", "result", "columns of the forecast are unknown"))
            continue
        t = cols["time"]
        if t[0] != "seq" or not t[2]:
            vd.rows.append(("open", "time column", f"times {t[0]}"))
        else:
            text = f"times are those of {showseq(t)}"
            for (_, _, h1), (_, l2, _) in zip(t[2], t[2][1:]):
                vd.same("forecast periods follow each other", h1, l2, st, text)
            if any(x[0] != "t" for x in t[2]):
                vd.rows.append(("open", "time column", text))
                continue
            lo, hi = t[2][0][1], t[2][-1][2]
            vd.same("the last period is the one asked for", hi, padd(N, steps), st, text)
            if not hist:
                vd.same("the first period follows the data", lo, N, st, text)
            elif sc.get("full"):
                vd.same("with history, the first period is the first of the data", lo, const(0), st, text)
            else:
                vd.want("with history, periods of the data are included", padd(padd(N, lo, -1), const(1), -1), st, text)
        for n, c in cols.items():
            if n == "time" or n.startswith("#"):
                continue
            if c == DV:
                continue            # numbers collected one by one: how many there are is not followed
            q = series(c, it, st)
            if q is None or not q or t[0] != "seq" or any(x[0] != "t" for x in q):
                vd.rows.append(("open", "values", f"{n}: {showseq(c) if c[0] == 'seq' else c[0]}"))
                continue
            text = f"times of {showseq(t)}, {n} of {showseq(c)}"
            vd.same("values stand at their periods", q[0][1], t[2][0][1], st, text)
            vd.same("values stand at their periods", q[-1][2], t[2][-1][2], st, text)
            for (_, _, h1), (_, l2, _) in zip(q, q[1:]):
                vd.same("forecast values follow each other", h1, l2, st, text)


def job(sc):
    try:
        return play(sc)
    except (AttributeError, TypeError, ValueError, KeyError, IndexError, RecursionError, ArithmeticError) as e:      # source this analysis does not read: nothing is claimed
        return [("open", "analysis", f"{type(e).__name__}: {e}")]


def run_all(prj: Project, scs):
    global _prj
    _prj = prj
    with Pool(min(8, os.cpu_count() or 1)) as pool:
        return pool.map(job, scs, chunksize=1)


def run(c: Ctx) -> None:
    c.rules += [
        "S07: on every path from construction through fit to predict(steps), for a series of unknown length N and an unknown number of steps, the time column of the forecast is the stretch "
        "[N, N + steps), or [0, N + steps) with history, every value column is the same stretch, the dates are generated with the frequency of the data or the one asked for, "
        "a repeated seasonal cycle lies in phase with the periods it is added to, and a design matrix of one row keeps its constant. "
        "Stretches have polynomials as bounds; an obligation is violated when sizes exist that satisfy every condition on the path and break it."]
    c.assumptions += ["observations have no gaps in time; some values are missing in the scenarios that say so, none in the others; no more steps than observations",
                      "library models (statsmodels, prophet) forecast the positions their interface promises: forecast(n) the n after the data, predict(start, end) those from start to end, "
                      "predict(matrix) one per row; make_future_dataframe(n) the n dates after the history"]
    _selftest(c)
    scs = scenarios(c.tier)
    for sc, rows in zip(scs, run_all(c.prj, scs)):
        n = label(sc)
        c.count("scenarios")
        c.sample({"scenario": n, "obligations": len(rows)}, 12)
        for v, what, text in rows:
            if v in ("gone", "none"):
                c.count("classes gone" if v == "gone" else "scenarios without a forecast")
                continue
            c.count({"holds": "obligations that hold", "open": "obligations left open", "fails": "obligations violated"}[v])
            if v == "fails":
                c.find("forecast periods", f"{n}: {what}", sc["cls"], text)
    c.floor("scenarios", 90)
    c.floor("obligations that hold", 500)


def _selftest(c: Ctx) -> None:
    global _prj
    src = '''
import math
import numpy as np
import pandas as pd
from statsmodels.tsa.holtwinters import SimpleExpSmoothing
class P:
    def __init__(self, m=1):
        self.m = m
class Mo:
    def __init__(self, data, params):
        self.data, self.params = data, params
        self.n = self.data.value.shape[0]
    def fit(self):
        self.model = SimpleExpSmoothing(self.data.value).fit()
    def predict(self, steps, include_history=False, freq=None):
        freq = freq or pd.infer_freq(self.data.time)
        y = self.model.forecast(steps)
        season = self.data.value[-self.params.m:]
        y = y * np.tile(season, math.trunc(1 + steps / self.params.m))[:steps]
        dates = pd.date_range(start=self.data.time.max(), periods=steps + 1, freq=freq)[1:]
        if include_history:
            y = np.concatenate((self.model.fittedvalues, y))
            dates = np.concatenate((pd.to_datetime(self.data.time), dates))
        return pd.DataFrame({"time": dates, "fcst": y})
'''

    def got(old: str, new: str, hist: bool = False, ask: bool = True) -> List[Tuple[str, str, str]]:
        global _prj
        assert old in src
        _prj = Project(sources={"kats.x": src.replace(old, new), "kats.consts": "class TimeSeriesData:\n    pass\n"})
        return play({"cls": "kats.x.Mo", "params": "kats.x.P", "pk": {"m": 12}, "predict": {"include_history": hist}, "askfreq": ask, "full": True})

    def fails(rows, what: str) -> bool:
        return any(v == "fails" and w == what for v, w, _ in rows)
    for h in (False, True):
        good = got("y = ", "y = ", h)
        c.selftest(f"a proper forecast, history {h}", all(v == "holds" for v, _, _ in good) and len(good) >= 5)
    c.selftest("one period too many", fails(got("[1:]", ""), "the first period follows the data"))
    c.selftest("values of other periods", fails(got("self.model.forecast(steps)", "self.model.predict(0, steps - 1)"), "values stand at their periods"))
    c.selftest("too few values", fails(got("self.model.forecast(steps)", "self.model.forecast(steps - 1)"), "values stand at their periods"))
    c.selftest("history cut", fails(got("self.model.fittedvalues", "self.model.fittedvalues[1:]", True), "values stand at their periods"))
    c.selftest("cycle out of phase", fails(got("[-self.params.m:]", "[:self.params.m]"), "seasonal pattern continues in phase"))
    c.selftest("the asked frequency is dropped", fails(got("freq or ", ""), "the frequency asked for is used"))
    _prj = None
