"""S01: no public call changes an object the caller passed in (or handed over earlier)."""
from __future__ import annotations

from typing import Dict, Set, Tuple

from ..effects import Effects, _split, is_fresh
from ..project import Func, Project
from ..report import Ctx

FRESH = dict(fresh_ctors=("kats.consts.TimeSeriesData",), fresh_funcs=("kats.consts.TimeSeriesData.to_dataframe",))

# entry point, parameter -> why the write is the documented purpose of the call
EXEMPT_PARAM: Dict[Tuple[str, str], str] = {
    ("kats.utils.feature_engineering.date_features", "result"): "documented output argument",
    ("kats.utils.feature_engineering.time_features", "result"): "documented output argument",
    ("kats.utils.feature_engineering.datetime_features", "result"): "documented output argument",
    ("kats.detectors.prophet_detector.prophet_weekend_masks", "ts_df"): "adds the mask columns to the frame it is given, by contract",
    ("kats.models.globalmodel.utils.AdjustedPinballLoss.__init__", "quantile"): "torch parameter handed to the module",
    ("kats.models.globalmodel.utils.PinballLoss.__init__", "quantile"): "torch parameter handed to the module",
    ("kats.models.globalmodel.utils.AdjustedPinballLoss.forward", "target"): "torch layer: masks its batch tensor in place",
    ("kats.models.globalmodel.utils.PinballLoss.forward", "target"): "torch layer: masks its batch tensor in place",
    ("kats.models.globalmodel.utils.DilatedRNNStack.prepare_decoder", "decoder"): "hands the hidden state to the decoder layer",
    ("kats.detectors.bocpd._BayesOnlineChangePoint.detector", "model"): "internal engine driving its predictive model",
    ("kats.utils.time_series_parameter_tuning.TimeSeriesEvaluationMetric.fetch_trial_data", "trial"): "Ax trial: parameters dict is rebuilt per arm",
}
# attributes a parameter object derives for itself while it is being validated
SELF_DERIVED = {"_reqd_regressor_names", "_reqd_cap_floor_names", "method_params"}
# writes to these attributes are the run-time state of the object written to
STATE_ATTRS = {"h_state_store": "hidden state of a recurrent layer", "c_state_store": "hidden state of a recurrent layer"}
EXEMPT_OWNER: Dict[Tuple[str, str], str] = {
    ("TimeSeriesParameterTuning", "_exp"): "the Ax experiment is driven by the search object",
    ("BayesianOptSearch", "_exp"): "the Ax experiment is driven by the search object",
    ("Pipeline", "steps"): "a pipeline drives the steps it is given: it assigns their data and fits them",
    ("AnomalyResponse", "*"): "a response owns the series it is built from and offers in-place update and extend",
}


SPECIAL = {"__init__", "__call__", "__getitem__", "__contains__", "__eq__", "__ne__", "__add__", "__sub__", "__mul__",
           "__truediv__", "__radd__", "__rsub__", "__rmul__", "__lt__", "__le__", "__gt__", "__ge__", "__iter__", "__hash__",
           "__len__", "__repr__", "__str__", "__setitem__", "__enter__", "__exit__", "__copy__", "__deepcopy__", "__post_init__"}


def public(f: Func) -> bool:
    if f.parent is not None:
        return False
    if f.name.startswith("_") and f.name not in SPECIAL:
        return False
    return not (f.cls is not None and f.cls.name.startswith("_"))


def _site_exempt(m, f: Func) -> bool:
    if m.attr in STATE_ATTRS:
        return True
    if ".validate_params" in m.site:
        _, comps = _split(m.loc)
        tail = comps[-1] if comps else ""
        return m.attr in SELF_DERIVED or tail in SELF_DERIVED
    return False


def analyse(prj: Project):
    e = Effects(prj, **FRESH)
    e.run()
    return e


def violations(prj: Project, e: Effects):
    """yield (kind, entry Func, loc, mut)"""
    for q, s in sorted(e.sum.items()):
        f = prj.funcs[q]
        if not public(f):
            continue
        for m in sorted(s.muts.values()):
            root, _ = _split(m.loc)
            if root == f.self_name or root.startswith(("global", "free")) or is_fresh(m.loc):
                continue
            if (q, root) in EXEMPT_PARAM or _site_exempt(m, f):
                continue
            yield "argument", f, m.loc, m
    for c in sorted(prj.classes.values(), key=lambda c: c.qual):
        own: Dict[str, Set[str]] = {}
        meths: Dict[str, Func] = {}
        for k in reversed(c.mro):
            meths.update(k.methods)
        for n, f in meths.items():
            if not public(f):
                continue
            for (l, a), av in e.sum[f.qual].stores.items():
                if l != f.self_name:
                    continue
                for x, mode in av:
                    r, _ = _split(x)
                    if not is_fresh(x) and r != f.self_name and r in f.params and r != f.kwarg and mode in ("o", "b"):
                        own.setdefault(a, set()).add(f"{n}({x})")
        for n, f in meths.items():
            if not public(f):
                continue
            for m in sorted(e.sum[f.qual].muts.values()):
                r, comps = _split(m.loc)
                if r != f.self_name or not comps or comps[0] not in own:
                    continue
                if len(comps) == 1 and m.kind == "obj" and False:
                    continue
                if (c.name, comps[0]) in EXEMPT_OWNER or (c.name, "*") in EXEMPT_OWNER or _site_exempt(m, f):
                    continue
                yield "retained", f, m.loc, m


def run(c: Ctx) -> None:
    c.rules.append(
        "Interprocedural, flow-sensitive alias and effect analysis: every store, in-place operation and augmented "
        "assignment is traced to the symbolic object it writes; a public function or method may not write an object "
        "reachable from one of its own parameters, nor one it was handed earlier and kept.")
    e = analyse(c.prj)
    pubs = [f for f in c.prj.funcs.values() if public(f)]
    c.count("public entry points", len(pubs))
    c.count("caller-supplied parameters", sum(len(f.params) for f in pubs))
    c.count("call edges resolved", sum(len(v) for v in e.callgraph.values()))
    c.count("write effects summarised", sum(len(s.muts) for s in e.sum.values()))
    c.count("fixpoint rounds", e.rounds)
    c.floor("public entry points", 500)
    c.floor("write effects summarised", 200)
    for q, s in sorted(e.sum.items()):
        for m in list(s.muts.values())[:1]:
            c.sample({"function": q, "writes": m.loc, "operation": m.attr, "at": m.site}, cap=12)
    n = 0
    for kind, f, loc, m in violations(c.prj, e):
        n += 1
        fn = m.site.split(" in ")[-1]
        c.find("input-modified" if kind == "argument" else "kept-input-modified",
               f"{f.qual[5:]}:{loc}:{m.attr}@{fn}", m.site,
               f"{m.what}: writes `{loc}`, which the caller of {f.short} "
               + ("passed in" if kind == "argument" else "handed over and still owns"))
    c.notes["exemptions"] = {f"{a}({b})": r for (a, b), r in {**EXEMPT_PARAM, **EXEMPT_OWNER}.items()}
    c.assumptions += [
        "External callables are assumed not to write their arguments except for the in-place pandas/numpy/list/dict operations listed in sa/effects.py.",
        "Boolean-mask, list and array indexing copy; slices, single columns, .values and .iloc[...] are views.",
    ]
    _selftest(c)


SELF = '''
import pandas as pd, copy
class P:
    def __init__(self): self.k = 1
class D:
    def __init__(self, data, params):
        self.data = data
        self.params = copy.copy(params)
        self.raw = params
    def bad_kept(self):
        self.raw.k = 3
    def ok(self):
        self.params.k = 3
    def _h(self, df):
        df["x"] = 1
    def bad_arg(self, frame):
        self._h(frame)
    def ok_arg(self, frame):
        frame = frame.copy()
        self._h(frame)
    def bad_view(self, s):
        v = s.values
        v[0] = 1
    def bad_list(self, xs: list):
        xs.append(1)
    def ok_list(self, xs: list):
        xs = list(xs)
        xs.append(1)
    def bad_map(self, df: pd.DataFrame):
        return df["c"].map(_w)
def _w(d: dict):
    d["a"] = 1
    return d
'''


def _selftest(c: Ctx) -> None:
    p = Project(sources={"kats.selftest": SELF})
    hit = {f.name for _, f, _, _ in violations(p, analyse(p))}
    want = {"bad_kept", "bad_arg", "bad_view", "bad_list", "bad_map"}
    c.selftest("effect analysis separates in-place writes from copies", want <= hit and not any(h.startswith("ok") for h in hit))
