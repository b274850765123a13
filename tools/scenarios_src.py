"""Hand-written scenarios (combinations of options, nested values, data that does not fit the options):
python3 tools/scenarios_src.py [--check] writes sa/data/scenarios.json; --check prints the verdicts."""
import json
import os
import sys

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, HERE)
S = []
M, D, U, GM = "kats.models.", "kats.detectors.", "kats.utils.", "kats.models.globalmodel."


def sc(want, f, args=None, then=None, data=False, **kw):
    e = {"want": want, "f": f, "args": args or {}}
    if then:
        e["then"] = then
    if data:
        e["data"] = True
    e.update(kw)
    S.append(e)


def R(f, args=None, then=None, **kw):
    sc("refuse", f, args, then, **kw)


def A(f, args=None, then=None, **kw):
    sc("accept", f, args, then, **kw)


def num(f, p, bad, good, base=None, **kw):
    for b in bad:
        R(f, {**(base or {}), p: b}, **kw)
    for g in good:
        A(f, {**(base or {}), p: g}, **kw)


# ---- parameter dataclasses
B = M + "bayesian_var.BayesianVARParams"
num(B, "p", ["0", "int(-inf,0)"], ["1", "int(1,inf)"])
for q in ("phi_0", "phi_2", "phi_3"):
    num(B, q, ["0", "(-inf,0)"], ["(0,1)", "(1,inf)"])
num(B, "phi_1", ["0", "(-inf,0)", "(1,inf)"], ["1", "(0,1)"])
H = M + "harmonic_regression.HarmonicRegressionParams"
num(H, "period", ["0", "(-inf,0)"], ["(0,1)", "(1,inf)"], {"fourier_order": "1"})
num(H, "fourier_order", ["0", "int(-inf,0)"], ["1", "int(1,inf)"], {"period": "7"})
P = M + "prophet.ProphetParams.__init__"
R(P, {"growth": "'logistic'"})
A(P, {"growth": "'logistic'", "cap": "(0,inf)"})
A(P, {"growth": "'linear'"})
R(P, {"extra_regressors": "[{}]"})
A(P, {"extra_regressors": "[{'name': 'x'}]"})
NP_ = M + "neuralprophet.NeuralProphetParams.__init__"
R(NP_, {"extra_future_regressors": "[{}]"})
A(NP_, {"extra_future_regressors": "[{'name': 'x'}]"})
R(NP_, {"extra_lagged_regressors": "[{}]"})
A(NP_, {"extra_lagged_regressors": "[{'names': 'x'}]"})
ML = M + "ml_ar.MLARParams.__init__"
num(ML, "horizon", ["0", "int(-inf,0)", "'a'", "[0]", "[1, -2]"], ["1", "int(1,inf)", "[1, 2]"])
num(ML, "cov_history_input_windows", ["{'a': -1}"], ["{'a': 0}", "{'a': 3}"])
num(ML, "cov_future_input_windows", ["{'a': -1}", "{'a': 4}"], ["{'a': 0}", "{'a': 3}"], {"horizon": "3"})
num(ML, "calendar_features", ["unknown-string"], ["'auto'"])
R(M + "ml_ar.MLARModel.__init__", {"params": "3"})
A(M + "ml_ar.MLARModel.__init__", {"params": "object:" + M + "ml_ar.MLARParams"})
K = M + "ensemble.kats_ensemble.KatsEnsemble.__init__"

# ---- backtesters
for c, a, b in (("BackTesterSimple", "train_percentage", "test_percentage"),):
    f = U + "backtesters." + c + ".__init__"
    A(f, {a: "60", b: "40"})
    A(f, {a: "(0,60)", b: "(0,40)"})
for c in ("BackTesterRollingOrigin", "BackTesterExpandingWindow"):
    f = U + "backtesters." + c + ".__init__"
    R(f, {"start_train_percentage": "(60,100)", "test_percentage": "(40,100)"})
    R(f, {"start_train_percentage": "60", "test_percentage": "40", "expanding_steps": "2"})
    A(f, {"start_train_percentage": "60", "test_percentage": "40", "expanding_steps": "1"})
    A(f, {"start_train_percentage": "(0,60)", "test_percentage": "(0,40)", "expanding_steps": "3"})
f = U + "backtesters.BackTesterRollingWindow.__init__"
R(f, {"train_percentage": "(60,100)", "test_percentage": "(40,100)"})
A(f, {"train_percentage": "(0,60)", "test_percentage": "(0,40)", "sliding_steps": "3"})
for c in ("BackTesterSimple", "BackTesterFixedWindow", "BackTesterRollingOrigin"):
    R(U + "backtesters." + c + ".__init__", {"data": "series:empty"}, data=True)
    A(U + "backtesters." + c + ".__init__", {"data": "series:uni:100"}, data=True)
R(U + "backtesters.CrossValidation.__init__", {"data": "series:empty"}, data=True)
A(U + "backtesters.CrossValidation.__init__", {"data": "series:uni:100"}, data=True)
# ---- data partitions
f = U + "datapartition.SimpleDataPartition.__init__"
R(f, {})
R(f, {"train_frac": "0.5", "train_size": "5"})
R(f, {"train_frac": "0.5", "test_frac": "0.5", "test_size": "5"})
num(f, "train_frac", ["(-inf,0)", "0", "1", "(1,inf)"], ["(0,1)"])
num(f, "test_frac", ["(-inf,0)", "0", "1", "(1,inf)"], ["(0,1)"], {"train_frac": "0.5"})
num(f, "train_size", ["int(-inf,0)", "0"], ["1", "int(1,inf)"])
num(f, "test_size", ["int(-inf,0)", "0"], ["1", "int(1,inf)"], {"train_frac": "0.5"})
num(f, "max_core", ["int(-inf,0)", "0", "'a'"], ["1", "int(1,inf)", "None"], {"train_frac": "0.5", "multi": "True"})
A(f, {"train_frac": "0.5", "multi": "False"})
f = U + "datapartition.RollingOriginDataParition.__init__"
ok = {"start_train_frac": "0.5", "test_frac": "0.25", "expanding_steps": "2"}
A(f, ok)
R(f, {**ok, "start_train_frac": "(0.76,1)"})
R(f, {**ok, "test_frac": "0.5"})
R(f, {**ok, "window_frac": "(0.26,1)"})
A(f, {**ok, "window_frac": "(0.1,0.2)"})
num(f, "expanding_steps", ["0", "int(-inf,0)"], ["1", "int(1,inf)"], {"start_train_frac": "0.5", "test_frac": "0.25"})
for c in ("SimpleDataPartition", "RollingOriginDataParition"):
    base = {"train_frac": "0.5", "multi": "False"} if c[0] == "S" else {**ok, "multi": "False"}
    R(U + "datapartition." + c + ".__init__", base, [["split", {"data": "3"}]], data=True)
    R(U + "datapartition." + c + ".__init__", base, [["split", {"data": "[3]"}]], data=True)
    R(U + "datapartition." + c + ".__init__", base, [["split", {"data": "{'a': 3}"}]], data=True)
    A(U + "datapartition." + c + ".__init__", base, [["split", {"data": "series:uni:100"}]], data=True)
# ---- prediction interval
f = U + "ensemble_predict_interval.ensemble_predict_interval.__init__"
R(f, {"block_size": "None", "n_block": "None", "ts": "series:uni:1000"}, loose=True)
R(f, {"block_size": "None", "n_block": "int(-inf,5)", "ts": "series:uni:1000"}, loose=True)
R(f, {"block_size": "int(-inf,10)", "n_block": "None", "ts": "series:uni:1000"}, loose=True)
R(f, {"block_size": "None", "n_block": "20", "ts": "series:uni:100"}, loose=True, data=True)
R(f, {"block_size": "50", "n_block": "None", "ts": "series:uni:100"}, loose=True, data=True)
A(f, {"block_size": "None", "n_block": "20", "ts": "series:uni:1000"}, loose=True)
A(f, {"block_size": "50", "n_block": "None", "ts": "series:uni:1000"}, loose=True)
# ---- simulator
SI = U + "simulator.Simulator.__init__"
n = {"n": "100"}
for m, arr in (("level_shift_sim", "level_arr"), ("trend_shift_sim", "trend_arr")):
    R(SI, n, [[m, {"cp_arr": "[10, 20]", arr: "[1, 2]"}]])
    R(SI, n, [[m, {"cp_arr": "[10]", arr: "[1, 2]", "anomaly_arr": "[3]", "z_score_arr": "[]"}]])
    if m[0] == "t":
        R(SI, n, [[m, {"cp_arr": "[10]", arr: "[1, 2]", "anomaly_arr": "[200]", "z_score_arr": "[1]"}]])
    R(SI, n, [[m, {"cp_arr": "[10]", arr: "[1, 2]", "anomaly_arr": "[-1]", "z_score_arr": "[1]"}]])
    A(SI, n, [[m, {"cp_arr": "[10]", arr: "[1, 2]"}]])
    A(SI, n, [[m, {"cp_arr": "[10]", arr: "[1, 2]", "anomaly_arr": "[3]", "z_score_arr": "[1]"}]])
for m, p, good, bad in (("inject_level_shift", "level_arr", "[1]", "[1, 2]"), ("inject_trend_shift", "trend_arr", "[1]", "[1, 2]")):
    t = {"ts_input": "series:uni:100"}
    R(U + "simulator.Simulator." + m, {**t, "cp_arr": "[10, 20]", p: bad})
    R(U + "simulator.Simulator." + m, {**t, "cp_arr": "[20, 10]", p: "[1]"})
    R(U + "simulator.Simulator." + m, {**t, "cp_arr": "[10, 100]", p: good})
    R(U + "simulator.Simulator." + m, {**t, "cp_arr": "[]", p: good})
    R(U + "simulator.Simulator." + m, {**t, "cp_arr": "[10]", p: "[]"})
    A(U + "simulator.Simulator." + m, {**t, "cp_arr": "[10, 20]", p: good})
m = U + "simulator.Simulator.inject_spikes"
t = {"ts_input": "series:uni:100"}
R(m, {**t, "anomaly_arr": "[10]", "z_score_arr": "[1, 2]"})
R(m, {**t, "anomaly_arr": "[20, 10]", "z_score_arr": "[1, 2]"})
R(m, {**t, "anomaly_arr": "[100]", "z_score_arr": "[1]"})
A(m, {**t, "anomaly_arr": "[10]", "z_score_arr": "[1]"})
# ---- detectors
f = D + "cusum_detection.CUSUMDetector.__init__"
cs = {"data": "series:uni:100"}
R(f, cs, [["detector", {"change_directions": "['sideways']"}]])
R(f, cs, [["detector", {"change_directions": "'sideways'"}]])
A(f, cs, [["detector", {"change_directions": "['increase']"}]])
A(f, cs, [["detector", {"change_directions": "None"}]])
R(D + "cusum_model.CUSUMDetectorModel.__init__", {})
R(D + "cusum_model.CUSUMDetectorModel.__init__", {"scan_window": "100"})
A(D + "cusum_model.CUSUMDetectorModel.__init__", {"scan_window": "100", "historical_window": "200"})
cw = {"scan_window": "100", "historical_window": "200"}
R(D + "cusum_model.CUSUMDetectorModel.__init__", cw, [["_check_window_sizes", {"frequency_sec": "int(50,inf)"}]])
for w in ("100", "int(100,inf)"):
    R(D + "cusum_model.CUSUMDetectorModel.__init__", {**cw, "step_window": w}, [["_check_window_sizes", {"frequency_sec": "20"}]])
R(D + "cusum_model.CUSUMDetectorModel.__init__", {**cw, "step_window": "10"}, [["_check_window_sizes", {"frequency_sec": "20"}]])
A(D + "cusum_model.CUSUMDetectorModel.__init__", {**cw, "step_window": "60"}, [["_check_window_sizes", {"frequency_sec": "20"}]])
A(D + "cusum_model.CUSUMDetectorModel.__init__", cw, [["_check_window_sizes", {"frequency_sec": "int(0,51)"}]])
R(D + "cusum_model.VectorizedCUSUMDetectorModel.__init__", {})
R(D + "stat_sig_detector.StatSigDetectorModel.__init__", {})
R(D + "stat_sig_detector.StatSigDetectorModel.__init__", {"n_control": "5"})
R(D + "stat_sig_detector.StatSigDetectorModel.__init__", {"n_test": "5"})
A(D + "stat_sig_detector.StatSigDetectorModel.__init__", {"n_control": "5", "n_test": "5"})
A(D + "stat_sig_detector.StatSigDetectorModel.__init__", {"n_control": "5", "n_test": "5", "time_unit": "'D'"})
f = D + "dtwcpd.DTWCPDDetector.__init__"
R(f, {"data": "series:multi:10", "sliding_window_size": "int(10,inf)", "skip_size": "1"}, data=True)
A(f, {"data": "series:multi:10", "sliding_window_size": "int(0,11)", "skip_size": "1"}, data=True)
f = D + "prophet_detector.ProphetDetectorModel.__init__"
for b in ("[1]", "[1, 2, 3]", "[2, 1]", "[1, 1]", "['a', 'b']"):
    R(f, {"saturation_range": b})
A(f, {"saturation_range": "[1, 2]"})
A(f, {"saturation_range": "None"})
f = D + "residual_translation.KDEResidualTranslator.__init__"
y = "series:uni"
for bad in ({}, {"yhat": y}, {"y": y, "yhat": y, "residual": y}, {"y": y, "yhat": y, "yhat_lower": y}, {"y": y, "yhat": y, "yhat_upper": y},
            {"residual": y, "y": y}, {"residual": y, "yhat_lower": y}, {"y": y}):
    R(f, {}, [["fit", bad]])
for good in ({"y": y, "yhat": y}, {"residual": y}, {"y": y, "yhat": y, "yhat_lower": y, "yhat_upper": y}):
    A(f, {}, [["fit", good]])
for c in ("bocpd_model.BocpdDetectorModel", "bocpd_model.BocpdTrendDetectorModel", "cusum_model.CUSUMDetectorModel", "distribution_distance_model.DistributionDistanceModel",
          "rolling_stats_model.RollingStatsModel", "stat_sig_detector.StatSigDetectorModel", "prophet_detector.ProphetTrendDetectorModel", "threshold_detector.StaticThresholdModel"):
    R(D + c + ".predict", {"data": "series:uni"})
for c in ("bocpd_model.BocpdTrendDetectorModel", "distribution_distance_model.DistributionDistanceModel", "rolling_stats_model.RollingStatsModel", "prophet_detector.ProphetTrendDetectorModel"):
    R(D + c + ".fit", {"data": "series:uni"})
R(D + "rolling_stats_model.RollingStatsModel.fit_predict", {"data": "series:multi"}, data=True)
R(D + "stat_sig_detector.StatSigDetectorModel.fit_predict", {"data": "series:multi"}, data=True)
R(D + "distribution_distance_model.DistributionDistanceModel.fit_predict", {"data": "series:uni"}, data=True)
R(D + "distribution_distance_model.DistributionDistanceModel.fit_predict", {"data": "series:multi", "historical_data": "series:uni"}, data=True)
R(D + "detector.DetectorModelRegistry.get_detector_model_by_name", {"class_name": "unknown-string"})
AR = D + "detector_consts.AnomalyResponse.extend"
R(AR, {"other": "3"})
# ---- evaluation
E = "kats.evaluation.ttes.TTESEvaluator"
# ---- global models
f = GM + "utils.GMParam.__init__"
num(f, "quantile", ["[0.4, 0.5]", "[0.5, 1]", "[0.5, 0]", "[0.5, 1.5]"], ["[0.5]", "[0.5, 0.05]"])
num(f, "training_quantile", ["[0.5, 1]", "[0, 0.5]"], ["[0.4, 0.6]"])
num(f, "quantile_weight", ["[1]", "[1, 1, 1]", "[1, 0]", "[1, -1]"], ["[1, 1]"], {"quantile": "[0.5, 0.1]"})
num(f, "validation_metric", ["['nonsense']", "'smape'"], ["['smape']", "None"])
num(f, "init_seasonality", ["[0, 1]", "[-1, 1]"], ["[0.1, 1]"])
num(f, "batch_size", ["0", "int(-inf,0)", "{1: 5}", "{0: 0}", "{0: 5, 3: -1}", "{0: 'a'}"], ["1", "int(1,inf)", "{0: 5}", "{0: 5, 3: 7}"])
num(f, "learning_rate", ["0", "(-inf,0)", "{1: 0.5}", "{0: 0}", "{0: 0.5, 3: -1}"], ["(0,1)", "{0: 0.5}", "{0: 0.5, 3: 0.1}"])
f = GM + "backtester.GMBackTester.__init__"
G = "object:" + GM + "utils.GMParam"
R(f, {"gmparam": "3"})
R(GM + "model.GMModel.__init__", {"params": "3"})
A(GM + "model.GMModel.__init__", {"params": G})
R(GM + "ensemble.GMEnsemble.__init__", {"gmparam": "3"})
f = GM + "utils.split"
R(f, {"splits": "5", "overlap": "False", "train_TSs": "[1, 2]", "valid_TSs": "None"})
A(f, {"splits": "2", "overlap": "False", "train_TSs": "[1, 2]", "valid_TSs": "None"})
# ---- meta learning
f = M + "metalearner.get_metadata.GetMetaData.__init__"
R(f, {"data": "3"}, data=True)
R(M + "metalearner.metalearner_modelselect.MetaLearnModelSelect.__init__", {"metadata": "None", "load_model": "False"})
A(M + "metalearner.metalearner_modelselect.MetaLearnModelSelect.__init__", {"metadata": "None", "load_model": "True"})
# ---- parameter tuning
T = U + "time_series_parameter_tuning."
f = T + "TimeSeriesParameterTuning.validate_parameters_format"
for b in ("[]", "{}", "[3]", "[{}]", "'a'", "[{'name': 'x'}, {}]"):
    R(f, {"parameters": b})
A(f, {"parameters": "[{'name': 'x'}]"})
SE = "enum:kats.consts.SearchMethodEnum."
R(T + "SearchMethodFactory.create_search_method", {"parameters": "[{'name': 'x'}]", "selected_search_method": "unknown-string"})
for m in ("GRID_SEARCH", "RANDOM_SEARCH_UNIFORM", "RANDOM_SEARCH_SOBOL", "BAYES_OPT", "NEVERGRAD"):
    A(T + "SearchMethodFactory.create_search_method", {"parameters": "[{'name': 'x', 'type': 'choice', 'values': [1, 2], 'value_type': 'int'}]", "selected_search_method": SE + m, "evaluation_function": "not-None"})
R(T + "RandomSearch.__init__", {"parameters": "[{'name': 'x'}]", "random_strategy": SE + "GRID_SEARCH"})
A(T + "RandomSearch.__init__", {"parameters": "[{'name': 'x'}]", "random_strategy": SE + "RANDOM_SEARCH_SOBOL"})
R(T + "BayesianOptSearch.__init__", {"parameters": "[{'name': 'x'}]", "random_strategy": SE + "GRID_SEARCH"})
A(T + "BayesianOptSearch.__init__", {"parameters": "[{'name': 'x'}]", "random_strategy": SE + "RANDOM_SEARCH_SOBOL"})
R(T + "get_nevergrad_param_from_ax", {"ax_params": "[{'name': 'x', 'type': 'odd', 'value_type': 'int'}]"})
A(T + "get_nevergrad_param_from_ax", {"ax_params": "[{'name': 'x', 'type': 'choice', 'values': [1, 2], 'value_type': 'int'}]"})
# ---- reconciliation
f = M + "reconciliation.base_models.BaseTHModel.__init__"
R(f, {"level": "1", "model_name": "None", "model_params": "None", "residuals": "None", "fcsts": "None"})
R(f, {"level": "1", "model_name": "'nonsense'", "model_params": "not-None", "residuals": "None", "fcsts": "None"})
R(f, {"level": "1", "model_name": "'prophet'", "model_params": "None", "residuals": "None", "fcsts": "None"})
for b in ("arima", "holtwinters", "prophet", "theta"):
    A(f, {"level": "1", "model_name": repr(b), "model_params": "not-None", "residuals": "None", "fcsts": "None"})
# ---- series
TS = "kats.consts.TimeSeriesData."
R(TS + "extend", {"other": "3"})
# ---- dataframe utils, features
R("kats.tsfeatures.tsfeatures.TsFourierFeatures.__init__", {"offset": "(-inf,0)"})
R("kats.tsfeatures.tsfeatures.TsCalenderFeatures.__init__", {"features": "['nonsense']"}, [["get_features", {}]])

# ---- second batch: nested values, receivers in a given state
KP = "'decomposition_method': 'additive', 'models': None"
for n_, good in ((20, True), (3, True), (21, False), (39, False), (41, False)):
    sc("accept" if good else "refuse", K, {"data": "series:uni:40", "params": "{'aggregation': 'median', 'seasonality_length': %d, %s}" % (n_, KP)})
A(K, {"data": "series:uni:40", "params": "{'aggregation': 'weightedavg', 'seasonality_length': None, %s}" % KP})
A(K, {"data": "series:uni:40", "params": "{'aggregation': 'median', 'seasonality_length': None, 'decomposition_method': 'multiplicative', 'models': None}"})
R(K, {"data": "series:uni:40", "params": "{'aggregation': 'mean', 'seasonality_length': None, %s}" % KP})
TSI = "kats.consts.TimeSeriesData.__init__"
R(TSI, {"df": "3"})
R(TSI, {"df": "[1, 2]"})
R(TSI, {"df": "series:uni:10"})
for a, b in (("time", "value"), ("value", "time")):
    R(TSI, {a: {"obj": "ext:pandas.Series", "attrs": {"#len": "int(0,10)"}}, b: "None"})
R(TSI, {"time": "[1, 2]", "value": {"obj": "ext:pandas.Series", "attrs": {"#len": "2"}}})
R(TSI, {"time": {"obj": "ext:pandas.Series", "attrs": {"#len": "2"}}, "value": "[1, 2]"})
A(TSI, {"time": {"obj": "ext:pandas.Series", "attrs": {"#len": "2"}}, "value": {"obj": "ext:pandas.Series", "attrs": {"#len": "2"}}})
A(TSI, {"df": {"obj": "ext:pandas.DataFrame", "attrs": {}}})
A(TSI, {})
for o in ("'a'", "None", "[1, 2]"):
    for m in ("_get_binary_op_other_arg",):
        R(TS + m, {"other": o})
#R(TS + "plot", {}, cls="kats.consts.TimeSeriesData", self={"_time": {"obj": "ext:pandas.Series", "attrs": {"#len": "0", "empty": "True"}}, "_value": {"obj": "ext:pandas.Series", "attrs": {"#len": "0", "empty": "True"}}}, data=True)
# metrics and evaluation
R("kats.metrics.metrics.metric", {"name": "unknown-string"})
R("kats.metrics.metrics.core_metric", {"name": "unknown-string"})
for m_ in ("smape", "mape", "mae", "mse", "rmse", "mase"):
    A("kats.metrics.metrics.metric", {"name": repr(m_)})
    A("kats.metrics.metrics.core_metric", {"name": repr(m_)})
A("kats.metrics.metrics.metric", {"name": "'ape'"})
R("kats.metrics.metadata.inspect", {"name": "unknown-string"})
EV = "kats.evaluation.evaluator.Evaluator."
EO = "kats.evaluation.evaluator.EvaluationObject"
for m_ in ("get_evaluation_run", "delete_evaluation_run", "create_evaluation_run"):
    R(EV + m_, {"run_name": "3"})
R(EV + "get_evaluation_run", {"run_name": "'a'"}, self={"runs": "{}"})
R(EV + "delete_evaluation_run", {"run_name": "'a'"}, self={"runs": "{}"})
R(EV + "create_evaluation_run", {"run_name": "'a'"}, self={"runs": {"dict": {"a": "object:" + EO}}})
A(EV + "get_evaluation_run", {"run_name": "'a'"}, self={"runs": {"dict": {"a": "object:" + EO}}})
A(EV + "delete_evaluation_run", {"run_name": "'a'"}, self={"runs": {"dict": {"a": "object:" + EO}}})
A(EV + "create_evaluation_run", {"run_name": "'b'"}, self={"runs": {"dict": {"a": "object:" + EO}}})
# detectors
AO = "kats.detectors.detector_consts.AnomalyResponse"
for x_ in ("confidence_band", "predicted_ts", "stat_sig_ts"):
    both = {k_: "None" for k_ in ("confidence_band", "predicted_ts", "stat_sig_ts")}
    one = {**both, x_: "not-None"}
    R(AR, {"other": {"obj": AO, "attrs": both}}, self=one)
    R(AR, {"other": {"obj": AO, "attrs": one}}, self=both)
    A(AR, {"other": {"obj": AO, "attrs": one}}, self=one)
V = D + "cusum_detection.VectorizedCUSUMDetector."
R(V + "detector_", {"change_directions": "['sideways']"})
R(V + "detector_", {"change_directions": "['increase', 'sideways']"}, sample=True)
A(V + "detector_", {"change_directions": "['increase']"})
I_ = D + "interval_detector."
for s_ in ("start_idx", "end_idx"):
    R(I_ + "ABInterval." + s_ + "@setter", {"idx": "'a'"})
    R(I_ + "ABInterval." + s_ + "@setter", {"idx": "1.5"})
    R(I_ + "ABInterval." + s_ + "@setter", {"idx": "None"})
    A(I_ + "ABInterval." + s_ + "@setter", {"idx": "3"})
LP = I_ + "IntervalDetectorModel._get_lowest_p"
R(LP, {"m": "int(5,inf)", "n": "5", "p_goal": "0.05"})
A(LP, {"m": "5", "n": "5", "p_goal": "0.05"})
R(LP, {"m": "3", "n": "5", "p_goal": "0.05", "r_tol": "(0,1e-9)"})
R(LP, {"m": "3", "n": "5", "p_goal": "0.05", "r_tol": "(-inf,0)"})
RI = I_ + "IntervalDetectorModel._get_rejection_intervals_and_duration"
R(RI, {}, self={"reject_intervals": "None", "duration": "3"})
R(RI, {}, self={"reject_intervals": "[]", "duration": "None"})
A(RI, {}, self={"reject_intervals": "[]", "duration": "3"})
PD = D + "prophet_detector."
for b in ("unknown-string", "3", "None"):
    R(PD + "to_seasonality", {"seasonality": b})
A(PD + "to_seasonality", {"seasonality": "enum:" + PD + "SeasonalityTypes.DAY"})
ER = PD + "ProphetDetectorModel._exclude_ranges"
for b in ("[[1]]", "[[1, 2, 3]]", "[[None, 2]]", "[[1, None]]"):
    R(ER, {"ts": "series:uni:50", "exclude_ranges": b})
A(ER, {"ts": "series:uni:50", "exclude_ranges": "[[1, 2]]"})
CH = PD + "ProphetDetectorModel._get_custom_holidays"
for b in ("[3]", "[['2020-01-01']]", "3", "(1, 2)"):
    R(CH, {}, self={"holidays_list": b})
for b in ("None", "[]"):
    A(CH, {}, self={"holidays_list": b})
SG = D + "stat_sig_detector.StatSigDetectorModel."
R(SG + "_set_time_unit", {"data": "series:uni:2", "historical_data": "None"}, self={"_infer_time_unit": "True"}, data=True)
R(SG + "_set_time_unit", {"data": "series:uni:2", "historical_data": "series:uni:2"}, self={"_infer_time_unit": "True"}, data=True)
A(SG + "_set_time_unit", {"data": "series:uni:3", "historical_data": "None"}, self={"_infer_time_unit": "True"}, data=True)
A(SG + "_set_time_unit", {"data": "series:uni:2", "historical_data": "series:uni:3"}, self={"_infer_time_unit": "True"}, data=True)
BO = D + "bocpd.BOCPDetector."
R(BO + "_choose_priors", {"params": {"obj": D + "bocpd.NormalKnownParameters", "attrs": {"search_method": "unknown-string"}}})
for m_ in ("random", "gridsearch"):
    A(BO + "_choose_priors", {"params": {"obj": D + "bocpd.NormalKnownParameters", "attrs": {"search_method": repr(m_)}}})
MKQ = D + "trend_mk.MKDetector."
R(MKQ + "_metrics_analysis", {}, self={"multivariate": "False"})
# global models
for c_ in ("PinballLoss", "AdjustedPinballLoss"):
    R(GM + "utils." + c_ + ".__init__", {"quantile": "[]"})
DS = GM + "utils.DilatedRNNStack._validate"
R(DS, {"cell_name": "unknown-string", "state_size": "50", "h_size": "20"})
for c_ in ("LSTM2Cell", "S2Cell"):
    R(DS, {"cell_name": repr(c_), "state_size": "50", "h_size": "None"})
    R(DS, {"cell_name": repr(c_), "state_size": "50", "h_size": "50"})
    R(DS, {"cell_name": repr(c_), "state_size": "50", "h_size": "int(50,inf)"})
    A(DS, {"cell_name": repr(c_), "state_size": "50", "h_size": "int(0,50)"})
A(DS, {"cell_name": "'LSTM'", "state_size": "50", "h_size": "None"})
GMM = GM + "model.GMModel"
for m_, c_ in (("predict", GM + "ensemble.GMEnsemble"),):
    R(c_ + "." + m_, {"test_TSs": "3", "steps": "5"})
    R(c_ + "." + m_, {"test_TSs": "series:uni:100", "steps": "0"})
    R(c_ + "." + m_, {"test_TSs": "series:uni:100", "steps": "int(-inf,0)"})
for c_ in (GMM, GM + "ensemble.GMEnsemble"):
    R(c_ + ".evaluate", {"test_train_TSs": "[1]", "test_valid_TSs": "{'a': 1}"})
    R(c_ + ".evaluate", {"test_train_TSs": "[1]", "test_valid_TSs": "[1, 2]"})
    R(c_ + ".evaluate", {"test_train_TSs": "[]", "test_valid_TSs": "[]"})
GN = {"rnn": "not-None", "encoder": "not-None", "decoder": "not-None", "params": "object:" + GM + "utils.GMParam"}
R(GMM + ".predict", {"test_TSs": "3", "steps": "5"}, self=GN)
R(GM + "data_processor.GMBatch.__init__", {"params": "3", "batch_ids": "[1]", "train_TSs": "[1]"})
R(GM + "backtester.GMBackTester._filter", {"data": "(1, 2)", "backtest_ts": "'2020-01-01'", "mode": "'train'"})
A(GM + "data_processor.GMDataLoader.__init__", {"dataset": {"list": ["series:uni:50"]}, "test_dataset": {"list": ["series:uni:50"]}})
A(GM + "data_processor.GMDataLoader.__init__", {"dataset": {"list": ["series:uni:50"]}})
# meta learning
HP = M + "metalearner.metalearner_hpt.MetaLearnHPT."
PR = "__default_model"
for h_ in ("n_hidden_shared", "n_hidden_cat_combo", "n_hidden_num"):
    full = {"n_hidden_shared": "[20]", "n_hidden_cat_combo": "[[5]]", "n_hidden_num": "[10]"}
    R(HP + "build_network", {**full, h_: "None"}, self={PR: "None"})
    R(HP + "build_network", {h_: full[h_]}, self={PR: "'arima'"})
R(HP + "build_network", {}, self={PR: "'nonsense'"})
A(HP + "build_network", {}, self={PR: "'arima'"})
for b in ("0", "1", "(-inf,0)", "(1,inf)"):
    R(HP + "train", {"val_size": b}, self={"model": "not-None"})
R(HP + "train", {"method": "unknown-string"}, self={"model": "not-None"})
A(HP + "train", {"method": "'SGD'"}, self={"model": "not-None"})
VM = M + "metalearner.get_metadata.GetMetaData._validate_models"
R(VM, {}, self={"all_models": "{'a': 1}", "all_params": "{'a': 1, 'b': 2}"})
R(VM, {}, self={"all_models": "{'a': 1, 'c': 1}", "all_params": "{'a': 1, 'b': 2}"})
A(VM, {}, self={"all_models": "{'a': 1, 'b': 1}", "all_params": "{'a': 1, 'b': 2}"})
# forecasting
R(M + "sarima.SARIMAModel.predict", {"steps": "5", "exog": "None"}, self={"model": "not-None", "params": {"obj": M + "sarima.SARIMAParams", "attrs": {"exog": "not-None"}}})
A(M + "sarima.SARIMAModel.predict", {"steps": "5", "exog": "None"}, self={"model": "not-None", "data": "series:uni:50", "params": {"obj": M + "sarima.SARIMAParams", "attrs": {"exog": "None"}}})
AG = M + "reconciliation.base_models.GetAggregateTS."
for b in ("3", "'a'", "(1, 2)", "[0]", "[-1]", "[1, 1.5]", "['a']"):
    R(AG + "aggregate", {"levels": b}, self={"data": "series:uni:50"})
R(AG + "aggregate", {"levels": "[51]"}, self={"data": "series:uni:50"})
R(AG + "aggregate", {"levels": "[7]"}, self={"data": "series:uni:6"}, data=True)
R(AG + "aggregate", {"levels": "[1, 2, 50]"}, self={"data": "series:uni:30"}, data=True)
A(AG + "aggregate", {"levels": "[7]"}, self={"data": "series:uni:7"}, data=True)
A(AG + "aggregate", {"levels": "[1, 5, 50]"}, self={"data": "series:uni:50"})
MA = M + "ml_ar.MLARModel."
R(MA + "_check_single_ts", {"data": "3"})
ENS = M + "ensemble.ensemble."
for b_ in ("MedianEnsemble", "WeightedAvgEnsemble"):
    pass
R(ENS + "BaseEnsemble.__init__", {"data": "series:uni:50", "params": {"obj": ENS + "EnsembleParams", "attrs": {"models": {"list": [{"obj": ENS + "BaseModelParams", "attrs": {"model_name": "'nonsense'"}}]}}}})
R(ENS + "BaseEnsemble.__init__", {"data": "series:uni:50", "params": {"obj": ENS + "EnsembleParams", "attrs": {"models": {"list": [{"obj": ENS + "BaseModelParams", "attrs": {"model_name": "'arima'"}}, {"obj": ENS + "BaseModelParams", "attrs": {"model_name": "'nonsense'"}}]}}}})
A(ENS + "BaseEnsemble.__init__", {"data": "series:uni:50", "params": {"obj": ENS + "EnsembleParams", "attrs": {"models": {"list": [{"obj": ENS + "BaseModelParams", "attrs": {"model_name": "'arima'"}}]}}}})
# backtesters: nothing to evaluate
CE = U + "backtesters.BackTesterParent.calc_error"

DD=D+"distribution_distance_model.DistributionDistanceModel."
R(DD+"_validate_ts_input_data",{"data":"series:uni:50"},data=True)
R(DD+"_validate_ts_input_data",{"data":"series:multi:50","historical_data":"series:uni:50"},data=True)
A(DD+"_validate_ts_input_data",{"data":"series:multi:50"},data=True)
R(DD+"fit_predict",{"data":"series:uni:50"},data=True,self={"validate_monotonic":"False"})
RS=D+"rolling_stats_model.RollingStatsModel"
R(RS+".fit_predict",{"data":"series:multi:50"},data=True)
R(RS+".fit_predict",{"data":"series:uni:50","historical_data":"series:multi:50"},data=True)
R(RS+"._check_window_sizes",{"frequency_sec":"100"},self={"rolling_window":"299"})
A(RS+"._check_window_sizes",{"frequency_sec":"100"},self={"rolling_window":"300"})
A(RS+"._check_window_sizes",{"frequency_sec":"100"},self={"rolling_window":"1000"})
SS=D+"stat_sig_detector.StatSigDetectorModel"
R(SS+".fit_predict",{"data":"series:multi:50"},data=True)
R(D+"stat_sig_detector.MultiStatSigDetectorModel.fit_predict",{"data":"series:uni:50"},data=True)
C=D+"cusum_detection.CUSUMDetector"
R(C+".detector",{"change_directions":"['sideways']"},self={"data":"series:uni:50"},loose=True)
R(C+".detector",{"change_directions":"['sideways']"},self={"data":"series:multi:50"},loose=True)
C=D+"cusum_detection.VectorizedCUSUMDetector"
R(C+".detector_",{"change_directions":"['sideways']"},self={"data":"series:multi:50"},loose=True)
HR=D+"hourly_ratio_detection.HourlyRatioDetector"
R(HR+".plot",{},self={"anomaly_dates":"None"})
PD=D+"prophet_detector.ProphetDetectorModel"
R(PD+".fit_predict",{"data":"series:uni:50"},data=True)
R(D+"bocpd.check_data",{"data":"series:uni:9"},data=True)
A(D+"bocpd.check_data",{"data":"series:uni:10"},data=True)

K_="kats.consts."
R(K_+"IntervalAnomaly.__init__",{"start":"5","end":"5"})
R(K_+"IntervalAnomaly.__init__",{"start":"6","end":"5"})
A(K_+"IntervalAnomaly.__init__",{"start":"4","end":"5"})
R(K_+"IntervalAnomaly.__init__",{"start":"4","end":"5","confidence":"1.5"})
R(K_+"IntervalAnomaly.__init__",{"start":"4","end":"5","confidence":"-0.1"})
A(K_+"IntervalAnomaly.__init__",{"start":"4","end":"5","confidence":"1.0"})
A(K_+"IntervalAnomaly.__init__",{"start":"4","end":"5","confidence":"0.0"})


def main():
    with open(os.path.join(HERE, "sa", "data", "scenarios.json"), "w", encoding="utf-8") as fh:
        json.dump(S, fh, indent=0)
    print(len(S), "scenarios")
    if "--check" in sys.argv:
        pat = sys.argv[sys.argv.index("--check") + 1:]
        sys.setrecursionlimit(20000)
        from sa.project import Project
        from sa.rules import s11
        S[:] = [e for e in S if not pat or any(x in e["f"] for x in pat)]
        jobs = [{"sc": {k: e[k] for k in ("f", "args", "then", "loose", "self", "cls") if k in e}} for e in S]
        for e, (v, w) in zip(S, s11.decide(Project(), jobs)):
            if v != e["want"]:
                print(f"{v:8} want {e['want']:7} {e['f']} {e.get('self','')} {e['args']} {e.get('then', '')} {w}")


if __name__ == "__main__":
    main()
