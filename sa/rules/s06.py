"""S06: a step called before the step it depends on is refused.

For every entry below the abstract interpreter constructs the object (all parameters abstract) and
calls the dependent method at once. Every path must end in an error raised on purpose; a path that
returns, or one that ends in an accidental error (an attribute of None), is a violation. Where the
earlier step can be followed as well, running it first must leave a path on which the dependent
method returns (otherwise the guard refuses everything)."""
from __future__ import annotations

import sys
from multiprocessing import Pool
from typing import Any, Dict, List, Optional, Tuple

from ..project import AnalysisBroken, Project
from ..report import Ctx
from ..scenario import play

M = "kats.models."
D = "kats.detectors."
U = "kats.utils."
# class, dependent methods, earlier step
TABLE: List[Tuple[str, List[str], Optional[str]]] = [
    (M + "arima.ARIMAModel", ["predict", "plot"], "fit"),
    (M + "bayesian_var.BayesianVAR", ["predict", "plot"], "fit"),
    (M + "harmonic_regression.HarmonicRegressionModel", ["predict", "plot"], "fit"),
    (M + "holtwinters.HoltWintersModel", ["predict", "plot"], "fit"),
    (M + "linear_model.LinearModel", ["predict", "plot"], "fit"),
    (M + "lstm.LSTMModel", ["predict", "plot"], "fit"),
    (M + "neuralprophet.NeuralProphetModel", ["predict", "plot"], "fit"),
    (M + "prophet.ProphetModel", ["predict", "plot"], "fit"),
    (M + "quadratic_model.QuadraticModel", ["predict", "plot"], "fit"),
    (M + "sarima.SARIMAModel", ["predict", "plot"], "fit"),
    (M + "simple_heuristic_model.SimpleHeuristicModel", ["predict", "plot"], "fit"),
    (M + "stlf.STLFModel", ["predict", "plot"], "fit"),
    (M + "theta.ThetaModel", ["predict", "plot"], "fit"),
    (M + "var.VARModel", ["predict", "plot"], "fit"),
    (M + "ensemble.kats_ensemble.KatsEnsemble", ["predict", "aggregate", "plot"], "fit"),
    (M + "ensemble.median_ensemble.MedianEnsembleModel", ["predict", "plot"], "fit"),
    (M + "ensemble.weighted_avg_ensemble.WeightedAvgEnsemble", ["predict", "plot"], "fit"),
    (M + "nowcasting.nowcasting.NowcastingModel", ["predict"], None),
    (M + "nowcasting.nowcastingplus.NowcastingPlusModel", ["predict"], None),
    (M + "nowcasting.dynamic_nowcasting.NowcastingModel", ["predict"], None),
    (M + "globalmodel.model.GMModel", ["predict", "evaluate", "save_model"], None),
    (M + "globalmodel.stdmodel.STDGlobalModel", ["predict"], None),
    (M + "reconciliation.thm.TemporalHierarchicalModel", ["predict", "median_validation"], "fit"),
    (M + "metalearner.metalearner_hpt.MetaLearnHPT", ["pred", "pred_by_feature", "save_model", "plot", "train"], None),
    (M + "metalearner.metalearner_modelselect.MetaLearnModelSelect", ["pred", "pred_by_feature", "save_model"], "train"),
    (M + "metalearner.metalearner_predictability.MetaLearnPredictability", ["pred", "pred_by_feature", "save_model"], "train"),
    (D + "bocpd.BOCPDetector", ["get_change_prob", "get_run_length_matrix"], None),
    (D + "hourly_ratio_detection.HourlyRatioDetector", ["plot"], None),
    (D + "interval_detector.OneSampleProportionIntervalDetectorModel", ["plot"], None),
    (D + "interval_detector.TwoSampleArrivalTimeIntervalDetectorModel", ["plot"], None),
    (D + "interval_detector.TwoSampleCountIntervalDetectorModel", ["plot"], None),
    (D + "interval_detector.TwoSampleProportionIntervalDetectorModel", ["plot"], None),
    (D + "interval_detector.TwoSampleRealValuedIntervalDetectorModel", ["plot"], None),
    (D + "outlier.MultivariateAnomalyDetector", ["get_anomalous_metrics", "get_anomaly_timepoints", "plot"], "detector"),
    (D + "meta_learning.hpt_tuning.MetaDetectHptSelect", ["get_hpt_from_features", "plot", "save_model"], None),
    (D + "meta_learning.metalearning_detection_model.MetaDetectModelSelect", ["fit_results", "pred_by_feature"], None),
    (U + "backtesters.GenericBacktester", ["get_errors"], None),
    (U + "backtesters.KatsSimpleBacktester", ["get_errors"], None),
    (U + "backtesters.CrossValidation", ["get_error_value"], None),
    (U + "backtesters.BackTesterSimple", ["calc_error", "get_error_value"], None),
    (U + "backtesters.BackTesterRollingOrigin", ["calc_error", "get_error_value"], None),
    (U + "backtesters.BackTesterFixedWindow", ["calc_error", "get_error_value"], None),
    (U + "decomposition.TimeSeriesDecomposition", ["plot"], "decomposer"),
    (U + "emp_confidence_int.EmpConfidenceInt", ["get_lr", "diagnose", "plot"], None),
    (U + "ensemble_predict_interval.ensemble_predict_interval", ["get_fcst_band_with_level", "pi_comparison_plot"], None),
]

# arguments that hand over the outcome the method depends on
SUPPLIES = {"model"}

_PRJ: Optional[Project] = None


def job(a: Tuple[str, str, Optional[str]]) -> Tuple[str, str, str, str, str, List[Any]]:
    cls, meth, first = a
    sys.setrecursionlimit(20000)
    for loose in (False, True):
        v0, _ = play(_PRJ, {"f": cls, "loose": loose})
        if v0 == "accept":
            break
    if v0 != "accept":
        return cls, meth, v0, "", "", []
    v, ex = play(_PRJ, {"f": cls, "loose": loose, "then": [[meth, {}]]})
    if v == "budget":
        w, ex2 = play(_PRJ, {"f": cls, "loose": loose, "then": [[meth, {}]], "shallow": True})
        if w in ("accept", "refuse"):
            v, ex = w, ex2
    if v == "refuse":
        wide = {"f": cls, "loose": loose, "then": [[meth, {}]], "wide": sorted(SUPPLIES)}
        w, _ = play(_PRJ, wide, 30000)
        if w == "budget":       # far past any refusal: other classes need not be followed to see that
            w, _ = play(_PRJ, {**wide, "shallow": True}, 60000)
        if w == "accept":
            v = "accept-some"
        elif w == "budget":
            v = "refuse-default"
    bad = sorted({(e.kind, e.where()) for e, _ in ex if e.kind != "explicit"}) if v != "refuse" else []
    after = ""
    if first:
        for lo in (loose, True):
            prep = [[first, {}]]
            if meth == "plot" and _PRJ.classes[cls].is_a("kats.models.model.Model"):
                prep.append(["predict", {}])
            after, _ = play(_PRJ, {"f": cls, "loose": lo, "then": prep + [[meth, {}]], "sample": True}, 250000)
            if after == "accept":
                break
    return cls, meth, v0, v, after, bad


def decide(prj: Project, table=TABLE, procs: int = 8):
    global _PRJ
    _PRJ = prj
    jobs = [(c, m, f) for c, ms, f in table for m in ms]
    if procs == 1:
        return [job(j) for j in jobs]
    with Pool(procs) as pool:
        return pool.map(job, jobs, chunksize=1)


SELF = '''
class Good:
    def __init__(self, a=1):
        self.model = None
    def fit(self):
        self.model = dict()
        self.model["a"] = 1
    def _need(self):
        if not self._ready():
            raise ValueError("fit first")
    def _ready(self):
        return self.model is not None
    def predict(self, steps: int):
        self._need()
        return self.model["a"] * steps
class NoGuard:
    def __init__(self):
        self.model = None
    def fit(self):
        self.model = object()
    def predict(self, steps: int):
        return self.model.predict(steps)
class Dead:
    def __init__(self):
        self.model = self._last
    def _last(self, x):
        return x
    def fit(self):
        self.model = self._last
    def predict(self, steps: int):
        if self.model is None:
            raise ValueError("fit first")
        return self.model(steps)
class Partly:
    def __init__(self):
        self.model = None
    def fit(self):
        self.model = dict()
    def predict(self, steps: int, **kwargs):
        if self.model is None and "alpha" not in kwargs:
            raise ValueError("fit first")
        return steps
class Inverted:
    def __init__(self):
        self.model = None
    def fit(self):
        self.model = 3
    def predict(self, steps: int):
        if self.model is not None or steps > 0 or steps <= 0:
            raise ValueError("fit first")
        return 1
'''


def run(c: Ctx) -> None:
    c.rules.append("S06: for each (class, dependent method) listed in the rule, abstract interpretation of construction followed at once by the method: "
                   "every path must end in an explicit raise, whatever the method's optional arguments; with the earlier step run first, a returning path must exist.")
    c.assumptions += ["optional packages are installed", "external calls may raise but their errors are not the library's refusal",
                      "constructor parameters are unconstrained values of their annotated types"]
    t = Project(sources={"kats.zz": SELF})
    r = {x[0].split(".")[-1]: x for x in decide(t, [("kats.zz." + k, ["predict"], "fit") for k in ("Good", "Partly", "NoGuard", "Dead", "Inverted")], 1)}
    c.selftest("guarded use before fit is refused and accepted after", r["Good"][3] == "refuse" and r["Good"][4] == "accept")
    c.selftest("missing guard", r["NoGuard"][3] == "obscure")
    c.selftest("guard lifted by an optional argument", r["Partly"][3] == "accept-some")
    c.selftest("guard that never fires", r["Dead"][3] == "accept")
    c.selftest("guard that always fires", r["Inverted"][4] == "refuse")
    prj = c.prj
    for cls, ms, first in TABLE:
        if cls not in prj.classes:
            raise AnalysisBroken(f"S06: class {cls} is gone")
        for m in ms + ([first] if first else []):
            if prj.classes[cls].find(m) is None:
                raise AnalysisBroken(f"S06: {cls} has no method {m}")
    for cls, meth, v0, v, after, bad in decide(prj):
        g = prj.classes[cls].find(meth)
        where = f"{g.module.rel}:{g.node.lineno} in {g.qual}"
        short = cls.split(".")[-1]
        if v0 != "accept" or v in ("budget", "none"):
            c.count("undecided (state space too large)")
            c.sample(["undecided", cls, meth, v0, v])
            continue
        c.count("dependent methods decided")
        c.sample([cls, meth, v, after])
        if v == "accept":
            c.find("use before the earlier step is not refused", f"{cls}.{meth}", where,
                   f"a fresh {short} may run {meth}() to the end although the step it depends on was never run")
        elif v == "accept-some":
            c.find("use before the earlier step is not refused", f"{cls}.{meth}", where,
                   f"a fresh {short} may run {meth}() to the end, given some of its optional arguments, although the step it depends on was never run")
        elif v == "obscure":
            c.find("use before the earlier step is not refused", f"{cls}.{meth}", where,
                   f"{meth}() on a fresh {short} ends in an accidental error instead of a refusal: {'; '.join(w for _, w in bad)[:200]}")
        if after == "refuse":
            c.find("the guard refuses also after the earlier step", f"{cls}.{meth}", where, f"{meth}() is refused even after the earlier step was run")
        elif after == "accept":
            c.count("acceptable after the earlier step")
    c.floor("dependent methods decided", 70)
    c.floor("acceptable after the earlier step", 20)
