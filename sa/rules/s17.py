"""S17: feature extraction returns exactly the features that were asked for.

Part A interprets every group's calculator (all detectors inlined) for each choice of switched-off and
switched-on features: the names in the dictionary it returns lie between the requested and the
advertised names of its group. Part B interprets construction and transform with calculators that
honour exactly that contract, for every single feature, every group, opt-outs and the defaults, on
univariate and multivariate series: the returned names must equal the requested ones."""
from __future__ import annotations

import ast
import sys
from multiprocessing import Pool
from typing import Any, Dict, FrozenSet, List, Optional, Tuple

from ..absint import FALSE, NN, TRUE, Budget, Frame, Interp, St, const
from ..options import TSD, make_tsd, new_interp
from ..project import AnalysisBroken, Project
from ..report import Ctx

MOD = "kats.tsfeatures.tsfeatures"
CLS = MOD + ".TsFeatures"
# the names the library advertises (documentation and tutorials), by group; group -> on by default
ADVERTISED: Dict[str, List[str]] = {
    "stl_features": ["trend_strength", "seasonality_strength", "spikiness", "peak", "trough"],
    "level_shift_features": ["level_shift_idx", "level_shift_size"],
    "acfpacf_features": ["y_acf1", "y_acf5", "diff1y_acf1", "diff1y_acf5", "diff2y_acf1", "diff2y_acf5", "y_pacf5", "diff1y_pacf5",
                         "diff2y_pacf5", "seas_acf1", "seas_pacf1"],
    "special_ac": ["firstmin_ac", "firstzero_ac"],
    "holt_params": ["holt_alpha", "holt_beta"],
    "hw_params": ["hw_alpha", "hw_beta", "hw_gamma"],
    "statistics": ["length", "mean", "var", "entropy", "lumpiness", "stability", "flat_spots", "hurst", "std1st_der", "crossing_points",
                   "binarize_mean", "unitroot_kpss", "heterogeneity", "histogram_mode", "linearity"],
    "cusum_detector": ["cusum_num", "cusum_conf", "cusum_cp_index", "cusum_delta", "cusum_llr", "cusum_regression_detected",
                       "cusum_stable_changepoint", "cusum_p_value"],
    "robust_stat_detector": ["robust_num", "robust_metric_mean"],
    "bocp_detector": ["bocp_num", "bocp_conf_max", "bocp_conf_mean"],
    "outlier_detector": ["outlier_num"],
    "trend_detector": ["trend_num", "trend_num_increasing", "trend_avg_abs_tau"],
    "nowcasting": ["nowcast_roc", "nowcast_ma", "nowcast_mom", "nowcast_lag", "nowcast_macd", "nowcast_macdsign", "nowcast_macddiff"],
    "seasonalities": ["seasonal_period", "trend_mag", "seasonality_mag", "residual_std"],
    "time": ["time_years", "time_months", "time_monthsofyear", "time_weeks", "time_weeksofyear", "time_days", "time_daysofyear",
             "time_avg_timezone_offset", "time_length_days"] + [
        f"time_freq_{d}" for d in ("Monday", "Tuesday", "Wednesday", "Thursday", "Friday", "Saturday", "Sunday")],
}
ON = {"stl_features", "level_shift_features", "acfpacf_features", "special_ac", "holt_params", "hw_params", "statistics"}
_PRJ: Optional[Project] = None
_FUNCS: Dict[str, str] = {}


def keys(it: Interp, v, st: St) -> Optional[FrozenSet[str]]:
    h = it.h(v, st)
    if h is None or h.cls != "dict" or h.elts is None or any(k[0] != "c" for k, _ in h.elts):
        return None
    return frozenset(k[2] for k, _ in h.elts)


def calc(job: Tuple[str, Tuple[Tuple[str, bool], ...], bool]) -> Tuple[str, List[Any]]:
    """names one calculator may return"""
    sys.setrecursionlimit(20000)
    g, extra, default = job
    it = new_interp(_PRJ, 250000)
    f = _PRJ.funcs[_FUNCS[g]]
    st = St()
    kw: Dict[str, Any] = {}
    for p in f.params:
        if p == "x":
            kw[p], st = it.ext(st, "numpy.ndarray")
        elif p == "ts":
            kw[p], st = make_tsd(it, st, "uni")
        elif p == "extra_args":
            kw[p], st = it.alloc(st, "dict", None, tuple((const(k), const(v)) for k, v in extra))
        elif p == "default_status":
            kw[p] = const(default)
        elif p == "dict_features":
            kw[p], st = it.alloc(st, "dict", None, tuple((const(n), ("ext", "numpy.mean")) for n in ADVERTISED[g]))
    args: List[Any] = []
    if not f.is_static:
        v, st = it.alloc(st, CLS, None, None, True)
        args = [v]
    try:
        r, _ = it.run(lambda: it.invoke(f, args, kw, st, Frame(None, f.module, 0, None, None)))
    except (Budget, RecursionError):
        return "budget", []
    out = {keys(it, v, s) for v, s in r}
    return ("unknown" if None in out or not out else "ok"), sorted([sorted(k) for k in out if k is not None])


def series(it: Interp, st: St, kind: str):
    v, st = make_tsd(it, st, kind)
    val = it.h(v, st).attrs["value"]
    arr, st = it.ext(st, "numpy.ndarray")
    shp, st = it.alloc(st, "tuple", None, (NN,) if kind == "uni" else (NN, const(2)))
    st = st.setattr(val[1], "shape", shp).setattr(val[1], "values", arr).setattr(val[1], "ndim", const(1 if kind == "uni" else 2))
    if kind == "multi":
        cols, st = it.alloc(st, "list", None, (const("a"), const("b")))
        st = st.setattr(val[1], "columns", cols)
    st = st.setattr(v[1], "#len", it_len())
    return v, st


def it_len():
    from ..absint import num
    return num(5, float("inf"), isint=True)


def whole(job: Tuple[Optional[Tuple[str, ...]], Tuple[Tuple[str, bool], ...], str, str]) -> Tuple[str, List[Any]]:
    """names transform may return; the calculators are replaced by their contract"""
    sys.setrecursionlimit(20000)
    sel, kws, kind, variant = job
    it = new_interp(_PRJ, 200000)

    def stub_for(g: str):
        def stub(i, args, kw, st, fr, node):
            extra, default = kw.get("extra_args"), kw.get("default_status")
            f = _PRJ.funcs[_FUNCS[g]]
            for p, a in zip(list(f.posargs), args):
                if p == "extra_args":
                    extra = a
                if p == "default_status":
                    default = a
            h = i.h(extra, st) if extra is not None else None
            opts = {k[2]: v for k, v in h.elts if k[0] == "c"} if h is not None and h.elts is not None else None
            names = []
            for n in ADVERTISED[g]:
                if variant == "all":
                    names.append(n)
                    continue
                if opts is None:
                    return [(NN, st)]
                v = opts.get(n, default)
                t = i.truth(v, st) if v is not None else None
                if t is None:
                    return [(NN, st)]
                if t:
                    names.append(n)
            return [i.alloc(st, "dict", None, tuple((const(n), NN) for n in names))]
        return stub

    for g, q in _FUNCS.items():
        it.stubs[q] = stub_for(g)

    def column(i, args, kw, st, fr, node):
        return [series(i, st, "uni")]
    it.stubs[TSD + ".__getitem__"] = column
    st = St()
    kw: Dict[str, Any] = {}
    if sel is not None:
        kw["selected_features"], st = it.alloc(st, "list", None, tuple(const(x) for x in sel))
    for k, v in kws:
        kw[k] = const(v)
    m = _PRJ.modules[MOD]
    out: List[Any] = []
    explicit = []
    try:
        r, e = it.run(lambda: it.instantiate(CLS, [], kw, st, Frame(None, m, 0, None, None), None))
        explicit += e
        g = _PRJ.classes[CLS].find("transform")
        for v, s in r:
            x, s = series(it, s, kind)
            r2, e2 = it.run(lambda: it.invoke(g, [v, x], {}, s, Frame(None, m, 0, None, None)))
            explicit += e2
            for v2, s2 in r2:
                if kind == "uni":
                    out.append(keys(it, v2, s2))
                else:
                    els = it.elements(v2, s2)
                    if els is None or len(els) != 2:
                        out.append(None)
                    else:
                        out += [keys(it, y, s2) for y in els]
    except (Budget, RecursionError):
        return "budget", []
    if not out:
        return ("raises" if explicit and all(x.kind != "maybe" for x, _ in explicit) else "unknown"), sorted({x.where() for x, _ in explicit})[:3]
    return ("unknown" if None in out else "ok"), sorted({tuple(sorted(k)) for k in out if k is not None})


def expected(sel, kws) -> FrozenSet[str]:
    kws = dict(kws)
    want = set()
    if sel is None:
        for g, ns in ADVERTISED.items():
            if kws.get(g, g in ON):
                want |= {n for n in ns if kws.get(n, True)}
        return frozenset(want)
    for s in sel:
        for n in ADVERTISED.get(s, [s]):
            if kws.get(n, True):
                want.add(n)
    return frozenset(want)


def jobs_b() -> List[Tuple]:
    js: List[Tuple] = []
    for g, ns in ADVERTISED.items():
        js.append(((g,), ()))
        js.append((None, ((g, g not in ON),)))
        for n in ns:
            js.append(((n,), ()))
        js.append(((g,), ((ns[0], False),)))
        if len(ns) > 1:
            js.append(((ns[0], ns[-1]), ()))
            js.append((None, ((g, True), (ns[-1], False))))
    gs = list(ADVERTISED)
    for a, b in zip(gs, gs[1:]):
        js.append(((ADVERTISED[a][0], b), ()))
    js.append((None, ()))
    out = []
    for sel, kws in js:
        for kind in ("uni", "multi"):
            for variant in ("all", "exact"):
                if kind == "multi" and variant == "exact":
                    continue
                out.append((sel, kws, kind, variant))
    return out


SELF = '''
class TsFeatures:
    @staticmethod
    def get_outlier_detector(ts, extra_args=None, default_status=True):
        res = {}
        try:
            n = len(helper(ts))
            if extra_args is not None and extra_args.get("outlier_num", default_status):
                res["outlier_num"] = n
        except Exception:
            print("failed")
        return res
    @staticmethod
    def get_holt_params(x, extra_args=None, default_status=True):
        res = dict.fromkeys(["holt_alpha", "holt_beta"])
        for k in list(res):
            if not extra_args.get(k, default_status):
                res.pop(k)
        return res
'''


def selftest(c: Ctx) -> None:
    global _PRJ, _FUNCS
    _PRJ = Project(sources={MOD: SELF})
    _FUNCS = {g: f"{CLS}.get_{g}" for g in ("outlier_detector", "holt_params")}
    c.selftest("a name lost in an exception handler", calc(("outlier_detector", (), True)) == ("ok", [[], ["outlier_num"]]))
    c.selftest("names kept and switched off", calc(("holt_params", (("holt_beta", False),), True)) == ("ok", [["holt_alpha"]]))


def run(c: Ctx) -> None:
    global _PRJ, _FUNCS
    prj = c.prj
    selftest(c)
    c.rules.append("S17: names returned by every calculator lie between the requested and the advertised names of its group, on every abstract path; "
                   "construction followed by transform returns exactly the requested names for every single feature, group, opt-out and the default selection.")
    _PRJ = prj
    cls = prj.classes.get(CLS)
    if cls is None:
        raise AnalysisBroken("TsFeatures not found")
    _FUNCS = {}
    for g in ADVERTISED:
        f = cls.find(f"get_{g}")
        if f is not None:
            _FUNCS[g] = f.qual
    ja = []
    for g, ns in ADVERTISED.items():
        if g not in _FUNCS:
            continue
        ja.append((g, (), True))
        for n in ns:
            ja.append((g, ((n, False),), True))
            ja.append((g, ((n, True),), False))
    with Pool(8) as pool:
        ra = pool.map(calc, ja, chunksize=1)
        jb = jobs_b()
        rb = pool.map(whole, jb, chunksize=2)
    for (g, extra, default), (v, names) in zip(ja, ra):
        f = prj.funcs[_FUNCS[g]]
        if v in ("budget", "unknown"):
            c.count("undecided calculator runs")
        adv = frozenset(ADVERTISED[g])
        ex = dict(extra)
        need = frozenset(n for n in adv if ex.get(n, default))
        for ks in names:
            ks = frozenset(ks)
            c.count("calculator results decided")
            if ks - adv:
                c.find("unadvertised-name", f"{g}:{','.join(sorted(ks - adv))}", f.where(), f"get_{g} may return the names {sorted(ks - adv)}, which its group does not advertise")
            if need - ks:
                c.find("missing-name", f"{g}:{','.join(sorted(need - ks))}", f.where(), f"get_{g} may leave out {sorted(need - ks)} although requested ({ex or 'all on'}, default {default})")
    tf = cls.find("transform")
    for (sel, kws, kind, variant), (v, names) in zip(jb, rb):
        what = f"selected_features={list(sel) if sel else None}{', ' + str(dict(kws)) if kws else ''} on a {kind}variate series"
        if v in ("budget", "unknown"):
            c.count("undecided selections")
            continue
        if v == "raises":
            c.find("selection-refused", f"{sel}{kws}", tf.where(), f"{what} is legal but always raises at {'; '.join(names)}")
            continue
        want = expected(sel, kws)
        c.count("selections decided")
        for ks in names:
            ks = frozenset(ks)
            if ks - want:
                c.find("unrequested-feature", f"{sel}{kws}", tf.where(), f"{what} also returns {sorted(ks - want)[:6]}")
            if want - ks:
                c.find("requested-feature-missing", f"{sel}{kws}", tf.where(), f"{what} does not return {sorted(want - ks)[:6]}")
    c.floor("calculator results decided", 120)
    c.floor("selections decided", 200)
