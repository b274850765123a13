"""S09: a backtest never shows a model the data it is scored on.

Every backtester, cross validation and data partition is followed with a series of unknown length N, unknown
percentages and a model whose forecast covers the periods after its training data. The training part, the test part
and the forecast of every fold come out as stretches [lo, hi) of the series with polynomials as bounds; their order
is decided from the facts the path collected, and refuted by sizes that satisfy all of them.
"""
from __future__ import annotations

import os
from multiprocessing import Pool
from typing import Any, Dict, List, Optional, Tuple

from ..absint import NN, NONE, TOP, Budget, Frame, St, const
from ..linint import TS, LinInterp, padd, show, showseq
from ..project import AnalysisBroken, Project
from ..report import Ctx

B = "kats.utils.backtesters."
P = "kats.utils.datapartition."
PCT = [10, 25, 37, 50, 60, 75, 90, 100]
FRAC = [0.1, 0.25, 0.37, 0.5, 0.6, 0.75]
SIZES = [1, 2, 3, 5, 8, 10, 17, 23, 40]

_prj: Optional[Project] = None


def scenarios(tier: str) -> List[Dict[str, Any]]:
    out: List[Dict[str, Any]] = []
    folds = (1, 2, 3) if tier == "quick" else (1, 2, 3, 4)

    def bt(cls, kw, run="run_backtest", **more):
        out.append({"kind": "results", "cls": B + cls, "kw": kw, "run": run, **more})
    bt("BackTesterSimple", {"train_percentage": "pct", "test_percentage": "pct"}, folds=1)
    bt("BackTesterFixedWindow", {"train_percentage": "pct", "test_percentage": "pct", "window_percentage": "pct"}, folds=1, gap="window_percentage")
    for k in folds:
        for const_ in (False, True):
            for multi in (False, True):
                if k == 4 and multi:
                    continue
                bt("BackTesterRollingOrigin", {"start_train_percentage": "pct", "test_percentage": "pct", "expanding_steps": k,
                                               "constant_train_size": const_, "multi": multi}, folds=k, constant=const_)
            bt("CrossValidation", {"train_percentage": "pct", "test_percentage": "pct", "num_folds": k, "constant_train_size": const_, "multi": k == 2},
               "run_cv", folds=k, constant=const_)
        if k <= 3:
            bt("BackTesterExpandingWindow", {"start_train_percentage": "pct", "end_train_percentage": "pct", "test_percentage": "pct", "expanding_steps": k,
                                             "multi": False}, folds=k, constant=False)
            bt("BackTesterRollingWindow", {"train_percentage": "pct", "test_percentage": "pct", "sliding_steps": k, "multi": False}, folds=k, constant=True)

    def dp(cls, kw, **more):
        for multi in (False, True):
            for many in ((False, True) if multi else (False,)):
                out.append({"kind": "split", "cls": P + cls, "kw": {**kw, "multi": multi}, "many": many, **more})
        out.append({"kind": "generic", "cls": P + cls, "kw": {**kw, "multi": False}, "multi": kw.get("expanding_steps", 1) == 2, **more})
    dp("SimpleDataPartition", {"train_frac": "frac"}, folds=1)
    dp("SimpleDataPartition", {"train_frac": "frac", "test_frac": "frac"}, folds=1)
    dp("SimpleDataPartition", {"train_size": "size", "test_size": "size"}, folds=1)
    dp("SimpleTimestampDataPartition", {"train_start": "date:train_start", "train_end": "date:train_end", "test_start": "date:test_start",
                                        "test_end": "date:test_end"}, folds=1, dates=True)
    for k in (1, 2, 3):
        for const_ in (False, True):
            dp("RollingOriginDataParition", {"start_train_frac": "frac", "test_frac": "frac", "expanding_steps": k, "constant_train_size": const_},
               folds=k, constant=const_)
            dp("RollingOriginDataParition", {"start_train_frac": "frac", "test_frac": "frac", "window_frac": "frac", "expanding_steps": k,
                                             "constant_train_size": const_}, folds=k, constant=const_, gap="window_frac")
    M = "kats.models."
    out.append({"kind": "meta", "cls": M + "metalearner.get_metadata.GetMetaData", "kw": {}})
    for e in ("weighted_avg_ensemble.WeightedAvgEnsemble", "kats_ensemble.KatsEnsemble"):
        out.append({"kind": "call", "cls": M + "ensemble." + e, "kw": {}, "run": "_backtester_single"})
    for given in ("block_size", "n_block", "block_size, n_block"):
        out.append({"kind": "interval", "cls": "kats.utils.ensemble_predict_interval.ensemble_predict_interval", "kw": {k: "size" for k in given.split(", ")}})
    for mode in ("train", "test"):
        out.append({"kind": "gm", "cls": M + "globalmodel.backtester.GMBackTester", "kw": {"mode": mode}})
    for k in (1, 2):
        out.append({"kind": "gmwindow", "cls": M + "globalmodel.backtester.GMBackTesterExpandingWindow",
                    "kw": {"start_train_percentage": "pct", "end_train_percentage": "pct", "test_percentage": "pct", "expanding_steps": k, "multi": False},
                    "folds": k, "constant": False, "run": "run_backtest"})
    return out


def label(sc: Dict[str, Any]) -> str:
    kw = ", ".join(f"{k}={v}" if not isinstance(v, str) else k for k, v in sc["kw"].items() if k != "multi")
    more = ", multi" if sc["kw"].get("multi") or sc.get("multi") else ""
    return f"{sc['cls'].split('.')[-1]}({kw}{more})" + {"generic": " in KatsSimpleBacktester", "split": ".split" + (" of a dict" if sc.get("many") else "")}.get(sc["kind"], "")


class Verdicts:
    def __init__(self, it: LinInterp) -> None:
        self.it = it
        self.asked: Dict[str, Any] = {}                 # sizes asked for, in observations
        self.rows: List[Tuple[str, str, str]] = []      # (verdict, what, text)

    def want(self, what: str, f, st: St, text: str) -> None:
        v, w = self.it.decide(f, st)
        if v == "fails":
            text += " when " + ", ".join(f"{a} = {b}" for a, b in w.items())
        self.rows.append((v, what, text))

    def same(self, what: str, a, b, st: St, text: str) -> None:
        d = padd(a, b, -1)
        if d is None:
            self.rows.append(("open", what, text))
            return
        v1, w1 = self.it.decide(d, st)
        v2, w2 = self.it.decide(padd(b, a, -1), st)
        v = "fails" if "fails" in (v1, v2) else "holds" if v1 == v2 == "holds" else "open"
        if v == "fails":
            text += " when " + ", ".join(f"{x} = {y}" for x, y in (w1 or w2).items())
        self.rows.append((v, what, text))


def part(v):
    """(lo, hi) of one stretch of the series"""
    if v[0] != "seq" or len(v[2]) != 1 or v[2][0][0] != "t":
        return None
    return v[2][0][1], v[2][0][2]


def fold(vd: Verdicts, i: int, train, test, pred, N, st: St) -> None:
    a, b = part(train), part(test)
    n = f"fold {i + 1}"
    if a is None or b is None:
        empty = [w for w, v in (("training", train), ("test", test)) if v[0] == "seq" and not v[2]]
        if empty:
            vd.rows.append(("holds", "empty part", f"{n}: the {empty[0]} part is empty"))
        else:
            vd.rows.append(("open", "parts", f"{n}: parts {showseq(train)}, {showseq(test)}"))
        return
    t = f"{n}: training part {showseq(train)}, test part {showseq(test)}"
    vd.want("training starts inside the data", a[0], st, t)
    vd.want("training ends before the test part starts", padd(b[0], a[1], -1), st, t)
    vd.want("test ends inside the data", padd(N, b[1], -1), st, t)
    if pred is not None:
        p = part(pred)
        if p is None:
            vd.rows.append(("open", "forecast", f"{n}: forecast {showseq(pred)}"))
        else:
            u = f"{n}: forecast of {showseq(pred)} scored against {showseq(test)}"
            vd.same("forecast and test part are the same periods", p[0], b[0], st, u)
            vd.same("forecast and test part are the same periods", p[1], b[1], st, u)


def across(vd: Verdicts, sc, folds: List[Tuple[Any, Any]], N, st: St, gap) -> None:
    if len(folds) != sc["folds"]:
        vd.rows.append(("fails", "number of folds", f"{len(folds)} folds where {sc['folds']} were asked for"))
        return
    ps = [(part(a), part(b)) for a, b in folds]
    if any(x is None for p in ps for x in p):
        return
    def size(p):
        return padd(p[1], p[0], -1)
    for i in range(len(ps)):
        (a, b) = ps[i]
        if gap is not None:
            vd.same("gap between training and test part", padd(b[0], a[1], -1), gap, st, f"fold {i + 1}: gap {show(padd(b[0], a[1], -1))}, asked for {show(gap)}")
        elif not sc.get("dates"):
            vd.same("test part follows the training part", b[0], a[1], st, f"fold {i + 1}: training ends at {show(a[1])}, test starts at {show(b[0])}")
        if sc.get("constant") is False or sc["folds"] == 1 and not sc.get("dates"):
            vd.same("training part starts at the first observation", a[0], const(0), st, f"fold {i + 1} starts at {show(a[0])}")
        if i and sc.get("constant"):
            vd.same("training parts have one size", size(a), size(ps[0][0]), st, f"fold {i + 1}: {show(size(a))}, fold 1: {show(size(ps[0][0]))}")
        if i:
            vd.want("folds move forward", padd(b[0], ps[i - 1][1][0], -1), st, f"fold {i + 1} tests from {show(b[0])}, the fold before from {show(ps[i - 1][1][0])}")
            if not (sc.get("frac_end")):
                vd.same("test parts have one size", size(b), size(ps[0][1]), st, f"fold {i + 1}: {show(size(b))}, fold 1: {show(size(ps[0][1]))}")
    for i, name in ((0, "training"), (1, "test")):
        k = next((k for k in sc["kw"] if k in (("start_train_percentage", "train_percentage", "start_train_frac", "train_frac", "train_size"),
                                               ("test_percentage", "test_frac", "test_size"))[i]), None)
        ask = (vd.asked or {}).get(k)
        if ask is None:
            continue
        lo, hi = ps[0][i]
        if vd.it.decide(padd(hi, N, -1), st)[0] == "holds":
            continue            # cut at the end of the data
        text = f"fold 1: {show(size(ps[0][i]))} observations, asked for {show(ask)}"
        d = padd(size(ps[0][i]), ask, -1)
        if k.endswith("size"):
            vd.same(f"{name} part has the size asked for", size(ps[0][i]), ask, st, text)
        else:
            vd.want(f"{name} part has the size asked for", padd(d, const(1)), st, text)
            vd.want(f"{name} part has the size asked for", padd(const(1), d, -1), st, text)
    if sc["folds"] > 1:
        vd.same("the last fold tests the last observations", ps[-1][1][1], N, st, f"last test part ends at {show(ps[-1][1][1])}")


def events(it: LinInterp, vd: Verdicts, frm: int) -> None:
    seen = set()
    for what, a, b, st, where in it.events[frm:]:
        p, q = part(a), part(b)
        if p is None or q is None:
            continue
        k = (what, p, q, where, it.facts(st))
        if k in seen:
            continue
        seen.add(k)
        text = f"{where}: values of {showseq(a)} against values of {showseq(b)}"
        vd.same("values compared are those of the same periods", p[0], q[0], st, text)
        vd.same("values compared are those of the same periods", p[1], q[1], st, text)


def play(sc: Dict[str, Any]) -> List[Tuple[str, str, str]]:
    prj = _prj
    if sc["cls"] not in prj.classes:
        return [("gone", "", "")]
    it = LinInterp(prj, budget=600000)
    it.opaque_ctors.add(TS)
    it.stubs["kats.metrics.metrics.core_metric"] = lambda i, a, k, s, f, n: [(("metric",), s)]
    N = it.symbol("N", 1)
    it.samples["N"] = SIZES
    st = St()
    data = ("seq", "ts", (("t", const(0), N),))
    kw: Dict[str, Any] = {}
    for k, v in sc["kw"].items():
        if v == "pct":
            kw[k] = it.symbol(k, float("-inf"), False)
            it.samples[k] = PCT if not k.startswith("window") else [0, 10, 25, 30]
        elif v == "frac":
            kw[k] = it.symbol(k, float("-inf"), False)
            it.samples[k] = FRAC if not k.startswith("window") else [0, 0.1, 0.25]
        elif v == "size":
            kw[k] = it.symbol(k, float("-inf"), True)
            it.samples[k] = [1, 2, 4, 9]
        elif isinstance(v, str) and v.startswith("date:"):
            # a timestamp is the position of an observation
            kw[k] = ("date", it.symbol(k, 0, True))
            it.samples[k] = [0, 1, 3, 6, 7, 12]
        else:
            kw[k] = const(v)
    m = prj.classes[sc["cls"]].module
    fr = Frame(None, m, 0, None, None)
    vd = Verdicts(it)
    for k, v in sc["kw"].items():
        if v in ("pct", "frac", "size"):
            vd.asked[k] = kw[k] if v == "size" else it.binop_lin_mul(N, kw[k], 100 if v == "pct" else 1)
    ran = 0

    def gapof(st: St):
        if not sc.get("gap"):
            return None, st
        g = it.binop_lin_mul(N, kw[sc["gap"]], 100 if sc["gap"].endswith("percentage") else 1)
        (v, s), = it.rounded("floor", g, st)
        return v, s
    try:
        if sc["kind"] in ("meta", "call", "interval", "gm"):
            OTHERS[sc["kind"]](it, vd, sc, kw, data, N, st, fr)
            if not vd.rows:
                vd.rows.append(("open", "parts", "no part of the data was seen"))
            return vd.rows
        if sc["kind"] == "gmwindow":
            par, st = it.alloc(st, "ext:params", {"freq": ("delta", const(1)), "seasonality": NN}, None, True)
            gmo, st = it.alloc(st, "ext:gmodel", {"params": par}, None, True)
            kw["error_methods"], st = it.alloc(st, "list", None, (const("mae"),))
            kw.update(data=data, gmobject=gmo)
        if sc["kind"] == "results":
            kw["error_methods"], st = it.alloc(st, "list", None, (const("mae"),))
            kw.update(data=data, params=NN, model_class=("modelcls",))
        if sc.get("dates"):
            for a, b in (("train_start", "train_end"), ("train_end", "test_start"), ("test_start", "test_end")):
                st = it.assume(st, padd(padd(kw[b][1], kw[a][1], -1), const(-1)))
            st = it.assume(st, padd(padd(N, kw["test_end"][1], -1), const(-1)))
        rets, _ = it.run(lambda: it.instantiate(sc["cls"], [], kw, st, fr, None))
        if not rets:
            return [("fails", "some sizes can be backtested", "every path of the construction ends in an error")]
        for v, s in rets:
            h = it.h(v, s)
            if sc["kind"] in ("results", "gmwindow"):
                g = prj.classes[h.cls].find(sc["run"])
                rs, _ = it.run(lambda: it.invoke(g, [v], {}, s, fr))
                ran += len(rs)
                for _, s2 in rs:
                    gp, s2 = gapof(s2)
                    els = it.elements(it.h(v, s2).attrs.get("results", TOP), s2)
                    if els is None:
                        vd.rows.append(("open", "results", "the results of a path are unknown"))
                        continue
                    fs = []
                    for i, x in enumerate(els):
                        t = it.elements(x, s2)
                        if t is None or len(t) != 4:
                            vd.rows.append(("open", "results", "a result is not a tuple of four"))
                            continue
                        fold(vd, i, t[0], t[1], t[3], N, s2)
                        hm = it.h(t[2], s2)
                        tr = hm.attrs.get("#train") if hm is not None and hm.cls == "ext:model" else None
                        if tr is not None and part(tr) is not None and part(t[0]) is not None:
                            text = f"fold {i + 1}: model trained on {showseq(tr)}, training part {showseq(t[0])}"
                            vd.same("model sees the training part only", part(tr)[0], part(t[0])[0], s2, text)
                            vd.same("model sees the training part only", part(tr)[1], part(t[0])[1], s2, text)
                        fs.append((t[0], t[1]))
                    across(vd, sc, fs, N, s2, gp)
            elif sc["kind"] == "split":
                g = prj.classes[h.cls].find("split")
                d, s1 = data, s
                if sc.get("many"):
                    d, s1 = it.alloc(s, "dict", None, ((const("a"), data), (const("b"), data)))
                rs, _ = it.run(lambda: it.invoke(g, [v, d], {}, s1, fr))
                ran += len(rs)
                for r, s2 in rs:
                    gp, s2 = gapof(s2)
                    els = it.elements(r, s2)
                    if els is None:
                        vd.rows.append(("open", "split", "the parts of a path are unknown"))
                        continue
                    fs = []
                    for i, x in enumerate(els):
                        for tr, te in pairs(it, x, s2, bool(sc.get("many"))):
                            fold(vd, i, tr, te, None, N, s2)
                            if len(fs) <= i:
                                fs.append((tr, te))
                    if not any(z[0] == "seq" and not z[2] for f in fs for z in f):
                        across(vd, {**sc, "constant": None if sc.get("dates") else sc.get("constant")}, fs, N, s2, gp)
                    if sc.get("dates") and fs and part(fs[0][0]) and part(fs[0][1]):
                        (a, b), (c_, d_) = part(fs[0][0]), part(fs[0][1])
                        for what, got, want in (("first training observation", a, kw["train_start"][1]), ("last training observation", b, padd(kw["train_end"][1], const(1))),
                                                ("first test observation", c_, kw["test_start"][1]), ("last test observation", d_, padd(kw["test_end"][1], const(1)))):
                            vd.same(what + " is the one asked for", got, want, s2, f"{show(got)} where {show(want)} was asked for")
            else:
                k0 = len(it.events)
                gq = B + "KatsSimpleBacktester"
                if gq not in prj.classes:
                    return [("gone", "", "")]
                lst, s1 = it.alloc(s, "list", None, (const("mae"),))
                gs, _ = it.run(lambda: it.instantiate(gq, [], {"datapartition": v, "scorer": lst, "model_params": NN, "model_class": ("modelcls",),
                                                               "multi": const(bool(sc.get("multi")))}, s1, Frame(None, prj.classes[gq].module, 0, None, None), None))
                for bv, s2 in gs:
                    g = prj.classes[gq].find("run_backtester")
                    ran += len(it.run(lambda: it.invoke(g, [bv, data], {}, s2, fr))[0])
                events(it, vd, k0)
        if not ran:
            vd.rows.append(("fails", "some sizes can be backtested", "every path ends in an error"))
        if sc["kind"] in ("results", "gmwindow"):
            events(it, vd, 0)
    except Budget:
        vd.rows.append(("open", "budget", "too many paths"))
    return vd.rows


def meta(it: LinInterp, vd: Verdicts, sc, kw, data, N, st: St, fr: Frame) -> None:
    """the split of a series into training and test part, and the evaluation of a candidate model"""
    q = sc["cls"]
    for n in ("_validate_data", "_validate_others", "_validate_models", "_scale"):
        it.stubs[f"{q}.{n}"] = lambda i, a, k, s, f, nd: [(NONE, s)]
    it.stubs["kats.utils.time_series_parameter_tuning.SearchMethodFactory.create_search_method"] = lambda i, a, k, s, f, nd: [i.alloc(s, "ext:search", None, None, True)]
    rets, _ = it.run(lambda: it.instantiate(q, [], {"data": data, "error_method": const("mae")}, st, fr, None))
    for v, s in rets:
        h = it.h(v, s)
        tr, te = h.attrs.get("train_series"), h.attrs.get("test_series")
        if tr is None or te is None:
            continue
        fold(vd, 0, tr, te, None, N, s)
        if part(tr) is not None and part(te) is not None:
            vd.same("test part follows the training part", part(te)[0], part(tr)[1], s, f"training part {showseq(tr)}, test part {showseq(te)}")
        g = it.prj.classes[q].find("_tune_single")
        k0 = len(it.events)

        def tuned(i, d, a, k, s1, f, nd):
            fn = k.get("evaluation_function", a[0] if a else None)
            p, s2 = i.alloc(s1, "dict", None, ())
            return [(NONE, s3) for _, s3 in i.apply(fn, [p], {}, s2, f, nd)] if fn is not None else [(NN, s1)]
        it.method_stubs["generate_evaluate_new_parameter_values"] = tuned
        it.run(lambda: it.invoke(g, [v, ("modelcls",), NN], {}, s, fr))
        events(it, vd, k0)


def call(it: LinInterp, vd: Verdicts, sc, kw, data, N, st: St, fr: Frame) -> None:
    v, s = it.alloc(st, sc["cls"], {"data": data}, None, True)
    g = it.prj.classes[sc["cls"]].find(sc["run"])
    if g is None:
        return
    rs, _ = it.run(lambda: it.invoke(g, [v, NN, ("modelcls",)], {}, s, fr))
    if not rs:
        vd.rows.append(("fails", "the data can be backtested", "every path ends in an error"))
    events(it, vd, 0)


def interval(it: LinInterp, vd: Verdicts, sc, kw, data, N, st: St, fr: Frame) -> None:
    """errors of a model trained on one block and scored on the next"""
    it.samples["N"] = [60, 61, 75, 90]
    for k in kw:
        it.lo[k] = 1
        it.samples[k] = [10, 12] if k == "block_size" else [5, 6]
    rets, _ = it.run(lambda: it.instantiate(sc["cls"], [], {"model": ("modelcls",), "model_params": NN, "ts": data, **kw}, st, fr, None))
    for v, s in rets:
        g = it.prj.classes[sc["cls"]].find("_get_error_matrix")
        k0 = len(it.events)
        it.run(lambda: it.invoke(g, [v], {}, s, fr))
        events(it, vd, k0)


def gm(it: LinInterp, vd: Verdicts, sc, kw, data, N, st: St, fr: Frame) -> None:
    """data before the backtest time trains, data from there on validates"""
    p, d = it.symbol("backtest_time", 0), it.symbol("horizon", 0)
    it.samples.update({"backtest_time": [0, 1, 3, 5, 9, 12], "horizon": [0, 1, 4, 20]})
    at = {"max_back_test_timedelta": ("delta", d)}
    for n, x in (("min_train_length", 1), ("min_valid_length", 1), ("min_test_length", 1)):
        at[n] = it.symbol(n, 0)
        it.samples[n] = [x]
    v, s = it.alloc(st, sc["cls"], at, None, True)
    dd, s = it.alloc(s, "dict", None, ((const("a"), data),))
    g = it.prj.classes[sc["cls"]].find("_filter")
    if g is None:
        return
    rs, _ = it.run(lambda: it.invoke(g, [v, dd, ("date", p)], {"mode": const(sc["kw"]["mode"])}, s, fr))
    for r, s2 in rs:
        x, s2 = it.alloc(s2, "tuple", None, tuple(it.elements(r, s2) or ()))
        for tr, te in pairs(it, x, s2, True):
            fold(vd, 0, tr, te, None, N, s2)
            if part(tr) is not None and part(te) is not None:
                t = f"training part {showseq(tr)}, validation part {showseq(te)}, backtest time {show(p)}"
                vd.want("training data are from before the backtest time", padd(p, part(tr)[1], -1), s2, t)
                vd.want("validation data are from the backtest time on", padd(part(te)[0], p, -1), s2, t)


OTHERS = {"meta": meta, "call": call, "interval": interval, "gm": gm}


def pairs(it: LinInterp, x, st: St, many: bool) -> List[Tuple[Any, Any]]:
    h = it.h(x, st)
    if h is None:
        return []
    tr, te = h.attrs.get("train"), h.attrs.get("test")
    if tr is None or te is None:
        els = it.elements(x, st)
        if els is None or len(els) != 2:
            return []
        tr, te = els
    if not many:
        return [(tr, te)]
    a, b = it.h(tr, st), it.h(te, st)
    if a is None or b is None or a.elts is None or b.elts is None:
        return []
    return [(v, dict(b.elts).get(k, TOP)) for k, v in a.elts]


def job(sc):
    try:
        return play(sc)
    except (AttributeError, TypeError, ValueError, KeyError, IndexError, RecursionError, ArithmeticError) as e:      # source this analysis does not read: nothing is claimed
        return [("open", "analysis", f"{type(e).__name__}: {e}")]


def run_all(prj: Project, scs: List[Dict[str, Any]]) -> List[List[Tuple[str, str, str]]]:
    global _prj
    _prj = prj
    with Pool(min(8, os.cpu_count() or 1)) as pool:
        return pool.map(job, scs, chunksize=1)


def run(c: Ctx) -> None:
    c.rules += [
        "S09: in every fold of every backtester, cross validation and data partition the training part ends at or before the start of the test part, both lie inside the data, "
        "the model is trained on exactly the training part, forecast values are compared with values of the same periods, and the number of folds and the gap are those asked for. "
        "Parts are stretches of a series of unknown length with polynomials as bounds; an obligation is violated when sizes exist that satisfy every condition on the path and break it."]
    c.assumptions += ["observations have no gaps in time", "a model is trained on at least three observations and predict(steps) covers the periods right after its training data"]
    _selftest(c)
    scs = scenarios(c.tier)
    for sc, rows in zip(scs, run_all(c.prj, scs)):
        n = label(sc)
        c.count("scenarios")
        c.sample({"scenario": n, "obligations": len(rows)}, 12)
        for v, what, text in rows:
            if v == "gone":
                c.count("classes gone")
                continue
            c.count({"holds": "obligations that hold", "open": "obligations left open", "fails": "obligations violated"}[v])
            if v == "fails":
                c.find("backtest fold", f"{n}: {what}", sc["cls"], text)
    c.floor("scenarios", 60)
    c.floor("obligations that hold", 300)


def _selftest(c: Ctx) -> None:
    global _prj
    src = '''
import numpy as np
import pandas as pd
from kats.consts import TimeSeriesData
class BackTesterSimple:
    def __init__(self, error_methods, data, params, train_percentage, test_percentage, model_class):
        if train_percentage <= 0 or test_percentage <= 0 or train_percentage + test_percentage > 100:
            raise ValueError("bad sizes")
        self.data, self.params, self.model_class = data, params, model_class
        self.a, self.b = train_percentage, test_percentage
    def run_backtest(self):
        n = len(self.data)
        k = int(np.floor(n * self.a / 100))
        m = int(np.floor(n * self.b / 100))
        train = TimeSeriesData(pd.DataFrame({"time": self.data.time[:k], "y": self.data.value[:k]}))
        test = TimeSeriesData(pd.DataFrame({"time": self.data.time[k:k + m], "y": self.data.value[k:k + m]}))
        model = self.model_class(data=train, params=self.params)
        fcst = model.predict(steps=m)
        self.results = [(np.array(train.value), np.array(test.value), model, np.array(fcst["fcst"]))]
'''
    sc = {"kind": "results", "cls": B + "BackTesterSimple", "kw": {"train_percentage": "pct", "test_percentage": "pct"}, "run": "run_backtest", "folds": 1}

    def got(old: str, new: str) -> List[Tuple[str, str, str]]:
        global _prj
        assert old in src
        _prj = Project(sources={"kats.utils.backtesters": src.replace(old, new), "kats.consts": "class TimeSeriesData:\n    pass\n"})
        return play(sc)

    def fails(rows, what: str) -> bool:
        return any(v == "fails" and w == what for v, w, _ in rows)
    good = got("n = len", "n = len")
    c.selftest("a proper split", not any(v == "fails" for v, _, _ in good) and sum(v == "holds" for v, _, _ in good) > 6)
    c.selftest("overlap", fails(got("self.data.time[:k], \"y\": self.data.value[:k]", "self.data.time[:k + 1], \"y\": self.data.value[:k + 1]"), "training ends before the test part starts"))
    c.selftest("the model sees everything", fails(got("model_class(data=train,", "model_class(data=self.data,"), "model sees the training part only"))
    c.selftest("other periods", fails(got("np.array(fcst[\"fcst\"])", "np.array(fcst[\"fcst\"])[1:]"), "forecast and test part are the same periods"))
    c.selftest("no fold at all", fails(got("> 100:", "> 0:"), "some sizes can be backtested"))
    _prj = None
