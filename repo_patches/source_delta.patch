From 2adf94e33fd1e4555e7a5d8ada5f14cb8b9c3e84 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:18:37 +0000
Subject: [PATCH 01/74] fix: do not extend the caller's historical_data in
 place in detector models

---
 kats/detectors/bocpd_model.py           | 1 +
 kats/detectors/interval_detector.py     | 1 +
 kats/detectors/multivariate_detector.py | 1 +
 kats/detectors/outlier_detector.py      | 1 +
 kats/detectors/prophet_detector.py      | 1 +
 kats/detectors/rolling_stats_model.py   | 1 +
 kats/detectors/stat_sig_detector.py     | 2 ++
 7 files changed, 8 insertions(+)

diff --git a/kats/detectors/bocpd_model.py b/kats/detectors/bocpd_model.py
index 88e3e3b..25e9387 100644
--- a/kats/detectors/bocpd_model.py
+++ b/kats/detectors/bocpd_model.py
@@ -104,6 +104,7 @@ class BocpdDetectorModel(DetectorModel):
         # we prepend it to data, and run
         # the detector as if we only saw data
         if historical_data is not None:
+            historical_data = historical_data[:]
             historical_data.extend(data, validate=False)
             data = TimeSeriesData(
                 pd.DataFrame(
diff --git a/kats/detectors/interval_detector.py b/kats/detectors/interval_detector.py
index ad048b9..f82e412 100644
--- a/kats/detectors/interval_detector.py
+++ b/kats/detectors/interval_detector.py
@@ -610,6 +610,7 @@ class IntervalDetectorModel(DetectorModel, ABC):
         if historical_data is None:
             self.data = data
         else:
+            historical_data = historical_data[:]
             historical_data.extend(data, validate=False)
             self.data = historical_data
         assert self.data is not None
diff --git a/kats/detectors/multivariate_detector.py b/kats/detectors/multivariate_detector.py
index c1eb5ba..57ecf6f 100644
--- a/kats/detectors/multivariate_detector.py
+++ b/kats/detectors/multivariate_detector.py
@@ -97,6 +97,7 @@ class MultivariateAnomalyDetectorModel(DetectorModel):
         if historical_data is None:
             total_data = data
         else:
+            historical_data = historical_data[:]
             historical_data.extend(data)
             total_data = historical_data
 
diff --git a/kats/detectors/outlier_detector.py b/kats/detectors/outlier_detector.py
index a06deb2..f5f3aee 100644
--- a/kats/detectors/outlier_detector.py
+++ b/kats/detectors/outlier_detector.py
@@ -84,6 +84,7 @@ class OutlierDetectorModel(DetectorModel):
         if historical_data is None:
             total_data = data
         else:
+            historical_data = historical_data[:]
             historical_data.extend(data, validate=False)
             total_data = historical_data
 
diff --git a/kats/detectors/prophet_detector.py b/kats/detectors/prophet_detector.py
index 51b1c7b..195d6db 100644
--- a/kats/detectors/prophet_detector.py
+++ b/kats/detectors/prophet_detector.py
@@ -520,6 +520,7 @@ class ProphetDetectorModel(DetectorModel):
         if historical_data is None:
             total_data = data
         else:
+            historical_data = historical_data[:]
             historical_data.extend(data)
             total_data = historical_data
 
diff --git a/kats/detectors/rolling_stats_model.py b/kats/detectors/rolling_stats_model.py
index 11a35e3..3524288 100644
--- a/kats/detectors/rolling_stats_model.py
+++ b/kats/detectors/rolling_stats_model.py
@@ -398,6 +398,7 @@ class RollingStatsModel(DetectorModel):
         # pull all the data in historical data
         if historical_data is not None:
             n_points_hist_data = len(historical_data)
+            historical_data = historical_data[:]
             historical_data.extend(data, validate=False)
         else:
             # When historical_data is not provided, will use part of data as
diff --git a/kats/detectors/stat_sig_detector.py b/kats/detectors/stat_sig_detector.py
index 342d4ff..9d336c5 100644
--- a/kats/detectors/stat_sig_detector.py
+++ b/kats/detectors/stat_sig_detector.py
@@ -402,6 +402,7 @@ class StatSigDetectorModel(DetectorModel):
         if historical_data is None:
             total_data = data
         else:
+            historical_data = historical_data[:]
             historical_data.extend(data, validate=False)
             total_data = historical_data
 
@@ -756,6 +757,7 @@ class StatSigDetectorModel(DetectorModel):
         if historical_data is None:
             total_data = data
         else:
+            historical_data = historical_data[:]
             historical_data.extend(data, validate=False)
             total_data = historical_data
 
-- 
2.43.0


From 309e105372691456fdc53f4455a9a52facb2d2c1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:19:52 +0000
Subject: [PATCH 02/74] fix: Detector must not rebind the time of the caller's
 series

---
 kats/detectors/detector.py | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/kats/detectors/detector.py b/kats/detectors/detector.py
index 0d7da4e..1455b46 100644
--- a/kats/detectors/detector.py
+++ b/kats/detectors/detector.py
@@ -9,6 +9,7 @@
 Defines the base class for detectors.
 """
 
+import copy
 import inspect
 from abc import ABC, ABCMeta, abstractmethod
 from typing import Any, Dict, Generic, Optional, Sequence, Tuple, Type, TypeVar, Union
@@ -89,10 +90,12 @@ class Detector(ABC):
     outliers: Optional[Sequence[TimeSeriesChangePoint]] = None
 
     def __init__(self, data: TimeSeriesData) -> None:
-        self.data = data
         self.__type__ = "detector"
         if data is not None:
-            self.data.time = pd.to_datetime(self.data.time)
+            # shallow copy: never rebind attributes of the caller's object
+            data = copy.copy(data)
+            data.time = pd.to_datetime(data.time)
+        self.data = data
 
     @abstractmethod
     def detector(self, method: Optional[str] = None) -> Sequence[TimeSeriesChangePoint]:
-- 
2.43.0


From edb8e1e9e2850d5396d976ea02248b78624ede87 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:19:52 +0000
Subject: [PATCH 03/74] fix: KDEResidualTranslator must not drop points from
 the caller's residual

---
 kats/detectors/residual_translation.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/kats/detectors/residual_translation.py b/kats/detectors/residual_translation.py
index 4fa521d..f60dbfb 100644
--- a/kats/detectors/residual_translation.py
+++ b/kats/detectors/residual_translation.py
@@ -17,6 +17,7 @@ density estimation), and outputs a false-alarm probability based on it.
 
 from __future__ import annotations
 
+import copy
 from typing import Optional
 
 import numpy as np
@@ -221,6 +222,8 @@ class KDEResidualTranslator:
         else:
             raise ValueError("Must supply y and yhat or residual")
 
+        # shallow copy: never rebind attributes of the caller's residual
+        residual = copy.copy(residual)
         nulls = residual.value.isnull()
         residual.value = residual.value[~nulls]
         residual.time = residual.time[~nulls]
-- 
2.43.0


From 2d690020ed4bd69f8cdea6270383bb67ae28cb7e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:19:52 +0000
Subject: [PATCH 04/74] fix: MetaLearnHPT must not fill NaNs in the caller's
 data_x

---
 kats/models/metalearner/metalearner_hpt.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/kats/models/metalearner/metalearner_hpt.py b/kats/models/metalearner/metalearner_hpt.py
index 5e020c0..5acb05c 100644
--- a/kats/models/metalearner/metalearner_hpt.py
+++ b/kats/models/metalearner/metalearner_hpt.py
@@ -205,7 +205,7 @@ class MetaLearnHPT:
             if data_y is None:
                 raise _log_error("data_y is necessary to initialize a new model!")
 
-            data_x.fillna(0, inplace=True)
+            data_x = data_x.fillna(0)
             # pyre-fixme[4]: Attribute must be annotated.
             self.dataX = np.asarray(data_x)
             # pyre-fixme[4]: Attribute must be annotated.
-- 
2.43.0


From 2b16b88c2572d3db4a653bf471bb07d4cd43c0e7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:19:52 +0000
Subject: [PATCH 05/74] fix: ProphetModel must not add columns to the caller's
 future frame

---
 kats/models/prophet.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/kats/models/prophet.py b/kats/models/prophet.py
index 24d7b8c..858fb14 100644
--- a/kats/models/prophet.py
+++ b/kats/models/prophet.py
@@ -339,9 +339,9 @@ class ProphetModel(Model[ProphetParams]):
             msg = "`future` should be specified and `future` should contain a column named 'floor' representing future floor."
             _error_msg(msg)
         if not isinstance(self.params.floor, bool):
-            future["floor"] = self.params.floor
+            future = future.assign(floor=self.params.floor)
         if not isinstance(self.params.cap, bool):
-            future["cap"] = self.params.cap
+            future = future.assign(cap=self.params.cap)
         if non_future:  # when `future` not generated by helper functions
             if self.include_history:
                 future = future.merge(
-- 
2.43.0


From 4b2a76e8e2b5fb6b117277024aa51d369529ff2a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:19:52 +0000
Subject: [PATCH 06/74] fix: NeuralProphetModel must not modify the caller's
 future and fcst frames

---
 kats/models/neuralprophet.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/kats/models/neuralprophet.py b/kats/models/neuralprophet.py
index 904dd6b..62132c9 100644
--- a/kats/models/neuralprophet.py
+++ b/kats/models/neuralprophet.py
@@ -492,7 +492,7 @@ class NeuralProphetModel(Model[NeuralProphetParams]):
         if len(future) < steps:
             msg = f"Input `future` is not long enough to generate forecasts of {steps} steps."
             _error_msg(msg)
-        future.sort_values("ds", inplace=True)
+        future = future.sort_values("ds")
 
         future["y"] = 0.0
         fcst = model.predict(future)
@@ -514,7 +514,7 @@ class NeuralProphetModel(Model[NeuralProphetParams]):
     def plot(
         self, fcst: pd.DataFrame, figsize: Optional[Tuple[int, int]] = None
     ) -> plt.Axes:
-        fcst["y"] = None
+        fcst = fcst.assign(y=None)
         # pyre-fixme[16]: `Optional` has no attribute `plot`.
         return self.model.plot(fcst, figsize=figsize)
 
-- 
2.43.0


From 88ca94261bfaa2ce1c54f9fd91354fc47b394ed8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:19:52 +0000
Subject: [PATCH 07/74] fix: BOCPDetector must not write into the caller's
 model_parameters

---
 kats/detectors/bocpd.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/kats/detectors/bocpd.py b/kats/detectors/bocpd.py
index 5a81c34..611b40c 100644
--- a/kats/detectors/bocpd.py
+++ b/kats/detectors/bocpd.py
@@ -11,6 +11,7 @@ This module contains classes and functions used for implementing
 the Bayesian Online Changepoint Detection algorithm.
 """
 
+import copy
 import logging
 import math
 from abc import ABC, abstractmethod
@@ -380,6 +381,9 @@ class BOCPDetector(Detector):
 
         if model_parameters is None:
             model_parameters = self.parameter_type[model]()
+        else:
+            # the priors chosen and the data set below are per run
+            model_parameters = copy.copy(model_parameters)
 
         assert isinstance(model_parameters, self.parameter_type[model]), (
             f"Expected parameter type {self.parameter_type[model]}, but got {model_parameters}"
-- 
2.43.0


From 6bea132c1dd102c48c7d676e75ea5174cbee33e5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:19:52 +0000
Subject: [PATCH 08/74] fix: parameter search must not write into the caller's
 method_options

---
 kats/utils/time_series_parameter_tuning.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/kats/utils/time_series_parameter_tuning.py b/kats/utils/time_series_parameter_tuning.py
index 3c3aab7..8490c37 100644
--- a/kats/utils/time_series_parameter_tuning.py
+++ b/kats/utils/time_series_parameter_tuning.py
@@ -741,6 +741,8 @@ class SearchMethodFactory(metaclass=Final):
         elif selected_search_method == SearchMethodEnum.NEVERGRAD:
             if method_options is None:
                 method_options = NevergradOptions()
+            else:
+                method_options = copy.copy(method_options)
             if objective_name is not None:
                 method_options.objective_name = objective_name
             if multiprocessing is not None:
@@ -1086,7 +1088,8 @@ class BayesianOptSearch(TimeSeriesParameterTuning):
             method_options.multiprocessing,
             method_options.experiment,
         )
-        self.options = method_options
+        # private copy: the seed chosen below is not the caller's option
+        self.options = copy.copy(method_options)
         if self.options.seed is None:
             self.options.seed = int(time.time())  # type: ignore
             self.logger.info(
-- 
2.43.0


From b88e79c00230e210c07128352d8e8719d07a2b5a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:19:52 +0000
Subject: [PATCH 09/74] fix: detector metadata preprocessing must not rewrite
 and rescale the caller's frame

---
 .../meta_learning/metalearning_detection_model.py | 15 +++++++--------
 1 file changed, 7 insertions(+), 8 deletions(-)

diff --git a/kats/detectors/meta_learning/metalearning_detection_model.py b/kats/detectors/meta_learning/metalearning_detection_model.py
index 0bddc71..aed4098 100644
--- a/kats/detectors/meta_learning/metalearning_detection_model.py
+++ b/kats/detectors/meta_learning/metalearning_detection_model.py
@@ -6,6 +6,7 @@
 # pyre-strict
 
 import ast
+import copy
 import logging
 import math
 from typing import Any, Dict, List, Optional, Set, Union
@@ -42,9 +43,7 @@ def get_ts_features(ts: TimeSeriesData) -> Dict[str, float]:
 
 
 def change_dtype(d: Dict[str, Any]) -> Dict[str, float]:
-    for elm in d:
-        d[elm] = float(d[elm])
-    return d
+    return {elm: float(val) for elm, val in d.items()}
 
 
 def change_str_to_dict(x: Union[str, Dict[str, Any]]) -> Optional[Dict[str, Any]]:
@@ -64,14 +63,14 @@ def metadata_detect_preprocessor(
     rawdata: pd.DataFrame,
     params_to_scale_down: Set[str] = PARAMS_TO_SCALE_DOWN,
 ) -> List[Dict[str, Any]]:
-    rawdata["features"] = rawdata["features"].map(change_str_to_dict)
-    rawdata["features"] = rawdata["features"].map(change_dtype)
-    rawdata["hpt_res"] = rawdata["hpt_res"].map(change_str_to_dict)
+    features = rawdata["features"].map(change_str_to_dict).map(change_dtype)
+    # the hyper-parameters are scaled in place below: work on a private copy
+    hpt_res = rawdata["hpt_res"].map(change_str_to_dict).map(copy.deepcopy)
 
     table = [
         {
-            "hpt_res": rawdata["hpt_res"].iloc[i],
-            "features": rawdata["features"].iloc[i],
+            "hpt_res": hpt_res.iloc[i],
+            "features": features.iloc[i],
             "best_model": rawdata["best_model"].iloc[i],
         }
         for i in range(len(rawdata))
-- 
2.43.0


From 717a43ebe45970e8f5372f64a7b3d98dc72a3dde Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:19:52 +0000
Subject: [PATCH 10/74] fix: KatsEnsemble helpers must not modify the forecasts
 they are given

---
 kats/models/ensemble/kats_ensemble.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/kats/models/ensemble/kats_ensemble.py b/kats/models/ensemble/kats_ensemble.py
index 7ccfb0b..c8007ed 100644
--- a/kats/models/ensemble/kats_ensemble.py
+++ b/kats/models/ensemble/kats_ensemble.py
@@ -227,7 +227,7 @@ class KatsEnsemble(Model):
                     if "time" in desea_pred.columns:
                         msg = "Setting time column as index"
                         logging.info(msg)
-                        desea_pred.set_index("time", inplace=True)
+                        desea_pred = desea_pred.set_index("time")
 
                     # native C.I calculated from individual model
                     predicted[model_name] = (
@@ -259,7 +259,7 @@ class KatsEnsemble(Model):
                     if "time" in desea_pred.columns:
                         msg = "Setting time column as index"
                         logging.info(msg)
-                        desea_pred.set_index("time", inplace=True)
+                        desea_pred = desea_pred.set_index("time")
 
                     # native C.I calculated from individual model
                     predicted[model_name] = (
@@ -727,6 +727,7 @@ class KatsEnsemble(Model):
             the cleaned results in a dict
         """
 
+        fcsts = fcsts.copy()
         if use_zero:
             # pyre-fixme[6]: For 2nd argument expected `DataFrame` but got
             #  `Optional[DataFrame]`.
-- 
2.43.0


From 9a9896bb2ee4cbce2e964343c76c30ef1db970ac Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:19:52 +0000
Subject: [PATCH 11/74] fix: VARModel must not write the inferred lag order
 into the caller's params

---
 kats/models/var.py | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/kats/models/var.py b/kats/models/var.py
index 4586bea..0061f9d 100644
--- a/kats/models/var.py
+++ b/kats/models/var.py
@@ -104,9 +104,10 @@ class VARModel(Model[VARParams]):
         """Fit VAR model"""
 
         logging.debug("Call fit()")
-        if self.params.maxlags is None:
+        maxlags = self.params.maxlags
+        if maxlags is None:
             # pyre-fixme[16]: `Optional` has no attribute `time`.
-            self.params.maxlags = int(12 * (len(self.data.time) / 100.0) ** (1.0 / 4))
+            maxlags = int(12 * (len(self.data.time) / 100.0) ** (1.0 / 4))
 
         # create VAR model
         # pyre-fixme[16]: `Optional` has no attribute `value`.
@@ -115,7 +116,7 @@ class VARModel(Model[VARParams]):
 
         # fit VAR model
         self.model = model = var.fit(
-            maxlags=self.params.maxlags,
+            maxlags=maxlags,
             method=self.params.method,
             ic=self.params.ic,
             verbose=self.params.verbose,
-- 
2.43.0


From 49a128edc4a1d366935ecd406eb21eb34ab4f6fd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:20:04 +0000
Subject: [PATCH 12/74] fix: MLARModel must not write inferred settings into
 the caller's params

---
 kats/models/ml_ar.py | 35 +++++++++++++++++++++--------------
 1 file changed, 21 insertions(+), 14 deletions(-)

diff --git a/kats/models/ml_ar.py b/kats/models/ml_ar.py
index ea46094..df37754 100644
--- a/kats/models/ml_ar.py
+++ b/kats/models/ml_ar.py
@@ -395,6 +395,14 @@ class MLARModel:
             logging.error(msg)
             raise ValueError(msg)
         self.params = params
+        # frequency of the data seen last, inferred when `params.freq` is None
+        self.freq: Optional[str] = params.freq
+        # z-score normalization always subtracts and divides
+        self.sub_div: str = (
+            params.sub_div
+            if params.norm_sum_stat in ("mean", "median", "max", "std")
+            else "sub_div"
+        )
         self.debug = False
         # pyre-fixme
         self.model = None
@@ -449,7 +457,7 @@ class MLARModel:
         idx = pd.date_range(
             min(curr_series_data.index),
             max(curr_series_data.index),
-            freq=self.params.freq,
+            freq=self.freq,
         )
         curr_series_data = curr_series_data.reindex(idx, fill_value=np.nan)
 
@@ -487,12 +495,12 @@ class MLARModel:
 
         # infer freq
         # pyrefly: ignore [bad-index]
-        self.params.freq = self._infer_freq(data[keys[0]].time, self.params.freq)
+        self.freq = self._infer_freq(data[keys[0]].time, self.params.freq)
 
         data_dict = {}
         timestamps = set()
         # pyre-fixme[6]: For 1st argument expected `None` but got `Optional[str]`.
-        offset = pd.tseries.frequencies.to_offset(self.params.freq)
+        offset = pd.tseries.frequencies.to_offset(self.freq)
 
         for k in keys:
             # pyrefly: ignore [bad-index]
@@ -531,14 +539,13 @@ class MLARModel:
         else:  # self.params.norm_sum_stat == "z-score"
             normalizer = in_data.iloc[:, -norm_window_size:].mean(axis=1)
             normalizer2 = in_data.iloc[:, -norm_window_size:].std(axis=1)
-            self.params.sub_div = "sub_div"
         norm_emb_ts = normalize(
             emb_ts,
             normalizer,
             normalizer2,
             use_default_min=self.params.use_default_min,
             default_min=self.params.default_min,
-            sub_div=self.params.sub_div,
+            sub_div=self.sub_div,
         )
 
         normalizer = pd.DataFrame(normalizer)
@@ -782,7 +789,7 @@ class MLARModel:
         if calendar_features is None:
             calendar_features = []
         elif self.params.calendar_features == "auto":
-            calendar_features = self._generate_auto_calendar_feature(self.params.freq)
+            calendar_features = self._generate_auto_calendar_feature(self.freq)
         else:
             calendar_features = cast(List[str], self.params.calendar_features)
 
@@ -797,7 +804,7 @@ class MLARModel:
         # compute Fourier features
         if self.params.fourier_features_order == "auto":
             fperiod, forder, foffset = self._generate_auto_fourier_features(
-                self.params.freq
+                self.freq
             )
         else:
             fperiod, forder, foffset = (
@@ -869,7 +876,7 @@ class MLARModel:
         gen_meta_data: bool = True,
     ) -> Tuple[npt.NDArray, pd.DataFrame, List[str]]:
         # pyre-fixme[6]: For 1st argument expected `None` but got `Optional[str]`.
-        offset = pd.tseries.frequencies.to_offset(self.params.freq)
+        offset = pd.tseries.frequencies.to_offset(self.freq)
         num_cols = self.num_hist_reg + cal_feat.shape[1] + emb_fut_cov.shape[1] + 1
         tv_idx = 0
         num_rows_full_mat = int(
@@ -1115,7 +1122,7 @@ class MLARModel:
                 normalizer2,
                 use_default_min=self.params.use_default_min,
                 default_min=self.params.default_min,
-                sub_div=self.params.sub_div,
+                sub_div=self.sub_div,
             )
 
             if self.params.transform_data == "log":
@@ -1133,7 +1140,7 @@ class MLARModel:
                             normalizer2,
                             use_default_min=self.params.use_default_min,
                             default_min=self.params.default_min,
-                            sub_div=self.params.sub_div,
+                            sub_div=self.sub_div,
                         ).values,
                         self.train_data["forecast"].values,
                     )
@@ -1152,7 +1159,7 @@ class MLARModel:
     ) -> None:
         new_data_dict = {}
         # pyre-fixme[6]: For 1st argument expected `None` but got `Optional[str]`.
-        offset = pd.tseries.frequencies.to_offset(self.params.freq)
+        offset = pd.tseries.frequencies.to_offset(self.freq)
 
         for curr_series in self.all_series.keys():
             in_data = self.all_series[curr_series]
@@ -1173,7 +1180,7 @@ class MLARModel:
                         all_missing = pd.date_range(
                             min_ts,
                             fc_origin,
-                            freq=self.params.freq,
+                            freq=self.freq,
                         ).difference(fc_wide.index)
 
                         if len(all_missing) != 0:
@@ -1198,7 +1205,7 @@ class MLARModel:
                     # pyre-ignore
                     fc_origin - offset * (self.params.max_lags - 1),
                     max_ts,
-                    freq=self.params.freq,
+                    freq=self.freq,
                 )
             )
 
@@ -1266,7 +1273,7 @@ class MLARModel:
             normalizer2,
             use_default_min=self.params.use_default_min,
             default_min=self.params.default_min,
-            sub_div=self.params.sub_div,
+            sub_div=self.sub_div,
         )
 
         if self.params.transform_data == "log":
-- 
2.43.0


From 1c46d77306d6e0b37ce95ce39c66bc571be6bcec Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:28:30 +0000
Subject: [PATCH 13/74] fix: Pipeline.fit must not modify the caller's list,
 series and params

---
 kats/utils/cupik.py | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/kats/utils/cupik.py b/kats/utils/cupik.py
index fd2dc8f..38a2b05 100644
--- a/kats/utils/cupik.py
+++ b/kats/utils/cupik.py
@@ -5,6 +5,7 @@
 
 # pyre-strict
 
+import copy
 import logging
 import sys
 from typing import Any, Callable, Dict, List, Optional, Tuple, Union
@@ -110,7 +111,7 @@ class Pipeline:
         """
         metadata = []
         for i, (s, d) in enumerate(zip(steps, data)):
-            s.data = d
+            s.data = copy.copy(d)
             if not s.data.is_univariate():
                 msg = "Only support univariate time series, but get {type}.".format(
                     type=type(s.data.value)
@@ -259,7 +260,7 @@ class Pipeline:
         _steps_ = [s for _ in range(len(data))]
         method = s.__type__
 
-        extra_params = (self.extra_fitting_params or {}).get(n, {})
+        extra_params = dict((self.extra_fitting_params or {}).get(n, {}))
         data, metadata = self.functions[method](_steps_, data, extra_params)
         if metadata is not None:
             self.metadata[n] = metadata  # saving the metadata of the current step into
@@ -314,6 +315,8 @@ class Pipeline:
 
         if isinstance(data, list):
             univariate = False
+            # the steps below replace entries of the list
+            data = list(data)
         else:
             # Put univariate data into a list
             univariate = self.univariate = True
-- 
2.43.0


From 43ea2547d131d45d4844a75abfa7044bb38767fd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:34:42 +0000
Subject: [PATCH 14/74] fix: GenericBacktester must raise the errors it
 composes

---
 kats/utils/backtesters.py | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/kats/utils/backtesters.py b/kats/utils/backtesters.py
index 470c165..15ba604 100644
--- a/kats/utils/backtesters.py
+++ b/kats/utils/backtesters.py
@@ -124,7 +124,7 @@ def _get_scorer(
                 methods.append((error, core_metric(error)))
             except Exception as e:
                 msg = f"Unsupported error function {error} with error message {e}."
-                _log_error(msg)
+                raise _log_error(msg)
 
         # define scorer function
         # pyre-fixme Incompatible return type [7]: Expected `Optional[typing.Callable[[DataFrame], Dict[str, float]]]` but got `Union[Metric, MultiOutputMetric, WeightedMetric]`.
@@ -141,7 +141,7 @@ def _get_scorer(
         return scorer
 
     msg = "Input `scorer` is invalid."
-    _log_error(msg)
+    raise _log_error(msg)
 
 
 def kats_units_forecaster(
@@ -258,7 +258,7 @@ class GenericBacktester(ABC):
         # get error metric names
         if not valid_fold_errors:
             msg = "No valid evaluation available, i.e., every evaluation failed."
-            _log_error(msg)
+            raise _log_error(msg)
 
         error_metrics = list(valid_fold_errors[0].keys())
         base_error_score = {em: self.error_score for em in error_metrics}
@@ -274,7 +274,7 @@ class GenericBacktester(ABC):
         self, results: List[Tuple[pd.DataFrame, Dict[str, float]]]
     ) -> BacktesterResult:
         if not results:
-            _log_error("Fail to get evaluation results!")
+            raise _log_error("Fail to get evaluation results!")
 
         raw_errors = [res[0] for res in results]
         raw_fold_errors = [res[1] for res in results]
@@ -307,7 +307,7 @@ class GenericBacktester(ABC):
         if self.backtest_result is not None:
             return self.backtest_result
         msg = "Please execute function `run_backtester()` first."
-        _log_error(msg)
+        raise _log_error(msg)
 
 
 class KatsSimpleBacktester(GenericBacktester):
-- 
2.43.0


From 988f86928be069ae9b14fb02173a716ee350ab1c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:34:42 +0000
Subject: [PATCH 15/74] fix: data partitions must reject the fractions, sizes
 and steps they find invalid

---
 kats/utils/datapartition.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/kats/utils/datapartition.py b/kats/utils/datapartition.py
index 2515fce..5f22cd4 100644
--- a/kats/utils/datapartition.py
+++ b/kats/utils/datapartition.py
@@ -210,8 +210,10 @@ class SimpleDataPartition(DataPartitionBase):
             _raise_error(info)
         if (frac is not None) and (frac <= 0 or frac >= 1):
             info = f"`{frac_name}` should be a float in (0, 1), but receives {frac}."
+            _raise_error(info)
         if (size is not None) and (size <= 0):
             info = f"`{size_name}` should be a positive integer, but receives {size}."
+            _raise_error(info)
         return
 
     def _single_train_test_split(
@@ -403,6 +405,7 @@ class RollingOriginDataParition(DataPartitionBase):
             _raise_error(msg)
         if expanding_steps < 1:
             msg = f"`expanding_steps` should be a positive integer but receives {expanding_steps}."
+            _raise_error(msg)
         return start_train_frac, test_frac, window_frac, expanding_steps
 
     def _single_train_test_split(
-- 
2.43.0


From 0137b1561adf24da747698ad883da3ed35fbbc8a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:34:42 +0000
Subject: [PATCH 16/74] fix: global model predict must reject unsupported
 test_TSs

---
 kats/models/globalmodel/ensemble.py | 2 ++
 kats/models/globalmodel/model.py    | 2 ++
 2 files changed, 4 insertions(+)

diff --git a/kats/models/globalmodel/ensemble.py b/kats/models/globalmodel/ensemble.py
index 77fe785..56b8e4f 100644
--- a/kats/models/globalmodel/ensemble.py
+++ b/kats/models/globalmodel/ensemble.py
@@ -317,6 +317,8 @@ class GMEnsemble:
             pass
         else:
             msg = f"predict function only accepts a TimeSeriesData object, a dictionary or a list of TimeSeriesData objects, but receives {type(test_TSs)}"
+            logging.error(msg)
+            raise ValueError(msg)
 
         if steps <= 0:
             msg = f"step should be a positive integer but receives {steps}."
diff --git a/kats/models/globalmodel/model.py b/kats/models/globalmodel/model.py
index 49fae6b..91421fc 100644
--- a/kats/models/globalmodel/model.py
+++ b/kats/models/globalmodel/model.py
@@ -597,6 +597,8 @@ class GMModel:
             pass
         else:
             msg = f"predict function only accepts a TimeSeriesData object, a dictionary or a list of TimeSeriesData objects, but receives {type(test_TSs)}"
+            logging.error(msg)
+            raise ValueError(msg)
 
         # calculate fcst step num.
         fcst_step_num = steps // self.params.fcst_window + int(
-- 
2.43.0


From 4d4aeb0625bede6837e3fbca79ae26fd74307bb0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:34:42 +0000
Subject: [PATCH 17/74] fix: CUSUM must raise when the frequency cannot be
 inferred

---
 kats/detectors/cusum_model.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/kats/detectors/cusum_model.py b/kats/detectors/cusum_model.py
index a9941ff..3cab103 100644
--- a/kats/detectors/cusum_model.py
+++ b/kats/detectors/cusum_model.py
@@ -1013,7 +1013,7 @@ class CUSUMDetectorModel(DetectorModel):
             if len(scores.time) > 1:
                 freq = scores.time[1] - scores.time[0]
             elif freq == None:
-                assert ValueError(
+                raise ValueError(
                     "CUSUM prediction error, get not enough data to infer frequency"
                 )
             time_need = pd.date_range(
-- 
2.43.0


From 8753ab69cdceff003a33fb5e91c85839d649ac38 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:34:42 +0000
Subject: [PATCH 18/74] fix: ABDetectorModel.fit must raise NotImplementedError

---
 kats/detectors/interval_detector.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/kats/detectors/interval_detector.py b/kats/detectors/interval_detector.py
index f82e412..62aab6f 100644
--- a/kats/detectors/interval_detector.py
+++ b/kats/detectors/interval_detector.py
@@ -1267,7 +1267,7 @@ class IntervalDetectorModel(DetectorModel, ABC):
         **kwargs: Any,
     ) -> None:
         """Not implemented for this class."""
-        NotImplementedError("fit() not implemented. See fit_predict for usage.")
+        raise NotImplementedError("fit() not implemented. See fit_predict for usage.")
 
     def plot(
         self,
-- 
2.43.0


From c5d33f3ee46f7738f8a4af051040af1b1f6c3f23 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:46:08 +0000
Subject: [PATCH 19/74] fix: RollingStatsModel must not shrink its
 rolling_window on every fit_predict

---
 kats/detectors/rolling_stats_model.py | 30 ++++++++++++++++-----------
 1 file changed, 18 insertions(+), 12 deletions(-)

diff --git a/kats/detectors/rolling_stats_model.py b/kats/detectors/rolling_stats_model.py
index 3524288..606f7db 100644
--- a/kats/detectors/rolling_stats_model.py
+++ b/kats/detectors/rolling_stats_model.py
@@ -287,24 +287,26 @@ class RollingStatsModel(DetectorModel):
         """
         return str.encode(json.dumps(self.__dict__))
 
-    def _point_based_vectorized_data(self, data: npt.NDArray) -> npt.NDArray:
+    def _point_based_vectorized_data(
+        self, data: npt.NDArray, n_points: int
+    ) -> npt.NDArray:
         """
         For Z-scores and its variants,
-        reshape the input data to shape (-1, self.rolling_window + 1)
+        reshape the input data to shape (-1, n_points + 1)
         Each row consists of [history window | one datapoint to evaluate]
 
         For IQR and MAD,
-        reshape the input data to shape (-1, self.rolling_window)
+        reshape the input data to shape (-1, n_points)
         """
         if self.extend_rolling_window:
             shape = data.shape[:-1] + (
-                data.shape[-1] - self.rolling_window,
-                self.rolling_window + 1,
+                data.shape[-1] - n_points,
+                n_points + 1,
             )
         else:
             shape = data.shape[:-1] + (
-                data.shape[-1] - self.rolling_window + 1,
-                self.rolling_window,
+                data.shape[-1] - n_points + 1,
+                n_points,
             )
         strides = data.strides + (data.strides[-1],)
         # pyre-fixme[16]: Module `numpy.lib.stride_tricks` has no attribute `as_strided`.
@@ -316,6 +318,7 @@ class RollingStatsModel(DetectorModel):
         self,
         data_interp: TimeSeriesData,
         n_points_hist_data: int,
+        n_points: int,
     ) -> AnomalyResponse:
         """
         Params:
@@ -323,11 +326,12 @@ class RollingStatsModel(DetectorModel):
             n_point_hist_data: How many points from the original data were historical
                 data. Used to keep track of how many points need to be scored since
                 historical_data and data are merged in fit_predict().
+            n_points: The length of the rolling window in number of points.
         """
         if self.extend_rolling_window:
-            rolling_window = self.rolling_window
+            rolling_window = n_points
         else:
-            rolling_window = self.rolling_window - 1
+            rolling_window = n_points - 1
 
         if n_points_hist_data < rolling_window:
             if not self.allow_expanding_window:
@@ -344,13 +348,14 @@ class RollingStatsModel(DetectorModel):
                         data_value,
                     ],
                     axis=0,
-                )
+                ),
+                n_points,
             )
         else:
             data_value = data_interp.value.values[
                 (n_points_hist_data - rolling_window) :
             ]
-            reorg_data = self._point_based_vectorized_data(data_value)
+            reorg_data = self._point_based_vectorized_data(data_value, n_points)
 
         scores_array = (
             SCORE_FUNC_DICT[self.statistics.value](reorg_data, iqr_base=self.iqr_base)
@@ -416,6 +421,7 @@ class RollingStatsModel(DetectorModel):
             return self._fit_predict_point_based(
                 data_interp=historical_data,
                 n_points_hist_data=n_points_hist_data,
+                n_points=self.rolling_window,
             )
 
         # pd.timedelta
@@ -427,10 +433,10 @@ class RollingStatsModel(DetectorModel):
             self.rolling_window % frequency_sec == 0
             and not historical_data.is_data_missing()
         ):
-            self.rolling_window = self.rolling_window // frequency_sec
             return self._fit_predict_point_based(
                 data_interp=historical_data,
                 n_points_hist_data=n_points_hist_data,
+                n_points=self.rolling_window // frequency_sec,
             )
 
         else:
-- 
2.43.0


From 6d2e5ad7819e6a389bc7606ff414b6b284a256d4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:46:08 +0000
Subject: [PATCH 20/74] fix: STL decomposition must not overwrite the
 configured period

---
 kats/utils/decomposition.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/kats/utils/decomposition.py b/kats/utils/decomposition.py
index f3d3082..034ee29 100644
--- a/kats/utils/decomposition.py
+++ b/kats/utils/decomposition.py
@@ -173,7 +173,7 @@ class TimeSeriesDecomposition:
 
         The arguments to STL can be passed in the class via kwargs
         """
-        self.period = period = self._get_period()
+        period = self._get_period()
 
         if self.decomposition == "additive":
             data = original
-- 
2.43.0


From 63e562af0488649ec932e3c68a43e1aa32fe919c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:46:08 +0000
Subject: [PATCH 21/74] fix: STDGlobalModel must not overwrite its
 decomposition_params

---
 kats/models/globalmodel/stdmodel.py | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/kats/models/globalmodel/stdmodel.py b/kats/models/globalmodel/stdmodel.py
index 15dd7f4..e2880b1 100644
--- a/kats/models/globalmodel/stdmodel.py
+++ b/kats/models/globalmodel/stdmodel.py
@@ -138,15 +138,16 @@ class STDGlobalModel:
     ) -> Tuple[Union[ProphetModel, npt.NDArray], Dict[str, TimeSeriesData]]:
         """Decompose time series into trend, seasonality."""
         if self.decomposition_model == "prophet":
-            if self.decomposition_params is None:
-                self.decomposition_params = ProphetParams(
+            decomposition_params = self.decomposition_params
+            if decomposition_params is None:
+                decomposition_params = ProphetParams(
                     seasonality_mode=self.decomposition
                 )
 
             time_col_name = ts.time_col_name
 
-            assert isinstance(self.decomposition_params, ProphetParams)
-            decomp_prophet = ProphetModel(data=ts, params=self.decomposition_params)
+            assert isinstance(decomposition_params, ProphetParams)
+            decomp_prophet = ProphetModel(data=ts, params=decomposition_params)
             decomp_prophet.fit()
             decomp_res = decomp_prophet.predict(steps=0, include_history=True, raw=True)
 
-- 
2.43.0


From c0af0a81ff5f296e5d713e17e133591c6fe31405 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:46:08 +0000
Subject: [PATCH 22/74] fix: ProphetDetectorModel must not rewrite its
 holidays_list while fitting

---
 kats/detectors/prophet_detector.py | 43 ++++++++++++++++--------------
 1 file changed, 23 insertions(+), 20 deletions(-)

diff --git a/kats/detectors/prophet_detector.py b/kats/detectors/prophet_detector.py
index 195d6db..7d16b5d 100644
--- a/kats/detectors/prophet_detector.py
+++ b/kats/detectors/prophet_detector.py
@@ -459,6 +459,27 @@ class ProphetDetectorModel(DetectorModel):
             growth_type = GrowthType.logistic
         self.growth_type = growth_type
 
+    def _get_custom_holidays(self) -> Optional[pd.DataFrame]:
+        """Returns the holidays of `holidays_list` as a dataframe."""
+        holidays_list = self.holidays_list
+        if not holidays_list:
+            return None
+        if isinstance(holidays_list, List):
+            if isinstance(holidays_list[0], str):
+                holidays_list = {
+                    HOLIDAY_DATES_COLUMN_NAME: holidays_list,
+                    HOLIDAY_NAMES_COLUMN_NAME: ["holiday"] * len(holidays_list),
+                }
+            else:
+                raise ValueError(
+                    "holidays_list should be a list of str or dict of list of str"
+                )
+        if not isinstance(holidays_list, Dict):
+            raise ValueError(
+                "holidays_list should be a list of str or dict of list of str"
+            )
+        return pd.DataFrame(holidays_list)
+
     def serialize(self) -> bytes:
         """Serialize the model into a json.
 
@@ -549,24 +570,8 @@ class ProphetDetectorModel(DetectorModel):
         if self.seasonalities_to_fit[SeasonalityTypes.WEEKEND]:
             additional_seasonalities = prophet_weekend_masks(data_df)
         if self.holidays_list is not None and len(self.holidays_list) > 0:
-            if isinstance(self.holidays_list, List):
-                if isinstance(self.holidays_list[0], str):
-                    self.holidays_list = {
-                        HOLIDAY_DATES_COLUMN_NAME: self.holidays_list,
-                        HOLIDAY_NAMES_COLUMN_NAME: ["holiday"]
-                        * len(self.holidays_list),
-                    }
-                else:
-                    raise ValueError(
-                        "holidays_list should be a list of str or dict of list of str"
-                    )
-            if not isinstance(self.holidays_list, Dict):
-                raise ValueError(
-                    "holidays_list should be a list of str or dict of list of str"
-                )
             # we use default lower and upper bound for holidays
-
-            self.holidays = pd.DataFrame(self.holidays_list)
+            self.holidays = self._get_custom_holidays()
 
         model = Prophet(
             # pyre-fixme[16]: Item `str` of `GrowthType | str` has no attribute `value`.
@@ -660,9 +665,7 @@ class ProphetDetectorModel(DetectorModel):
             and round(self.holiday_multiplier, 10) != 1.0
         ):
             # convert the list of custom holidays into a df
-            custom_holidays = (
-                pd.DataFrame(self.holidays_list) if self.holidays_list else None
-            )
+            custom_holidays = self._get_custom_holidays()
             holidays_df: Optional[pd.Series] = get_holiday_dates(
                 custom_holidays, self.country_holidays, data.time
             )
-- 
2.43.0


From 692142c6f569fea344adff8326b58ee70dc9c576 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:46:08 +0000
Subject: [PATCH 23/74] fix: StatSigDetectorModel must infer the time unit anew
 for every series

---
 kats/detectors/stat_sig_detector.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/kats/detectors/stat_sig_detector.py b/kats/detectors/stat_sig_detector.py
index 9d336c5..34652b9 100644
--- a/kats/detectors/stat_sig_detector.py
+++ b/kats/detectors/stat_sig_detector.py
@@ -163,6 +163,9 @@ class StatSigDetectorModel(DetectorModel):
         self.bigdata_trans_flag: Optional[bool] = None
         self.remaining: Optional[int] = None
 
+        # without an explicit time unit, it is inferred from each series
+        self._infer_time_unit: bool = not self.time_unit
+
         # validate time_unit
         if self.time_unit is not None:
             try:
@@ -675,7 +678,7 @@ class StatSigDetectorModel(DetectorModel):
         """
         if the time unit is not set, this function tries to set it.
         """
-        if not self.time_unit:
+        if self._infer_time_unit:
             if len(data) >= 3:
                 # frequency is pd.TimeDelta
                 frequency = data.infer_freq_robust()
-- 
2.43.0


From e4ebb00a349d0f30b3dc68fc7d7f50412765b23e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:27:12 +0000
Subject: [PATCH 24/74] fix: SimpleHeuristicModel must refuse to predict before
 fit and plot before predict

---
 kats/models/simple_heuristic_model.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/kats/models/simple_heuristic_model.py b/kats/models/simple_heuristic_model.py
index 6b97d2c..e6b3456 100644
--- a/kats/models/simple_heuristic_model.py
+++ b/kats/models/simple_heuristic_model.py
@@ -72,14 +72,14 @@ class SimpleHeuristicModel(Model[SimpleHeuristicModelParams]):
         params: the parameter class defined with `SimpleHeuristicModelParams`
     """
 
-    model: Callable[[npt.NDArray], npt.NDArray]
+    model: Optional[Callable[[npt.NDArray], npt.NDArray]] = None
     include_history: bool = False
     dates: Optional[pd.DatetimeIndex] = None
     y_fcst: Optional[npt.NDArray] = None
     y_fcst_lower: Optional[npt.NDArray] = None
     y_fcst_upper: Optional[npt.NDArray] = None
     # pyrefly: ignore [bad-override]
-    fcst_df: pd.DataFrame = pd.DataFrame(data=None)
+    fcst_df: Optional[pd.DataFrame] = None
     freq: Optional[str] = None
 
     def __init__(
@@ -95,14 +95,14 @@ class SimpleHeuristicModel(Model[SimpleHeuristicModelParams]):
             raise ValueError(msg)
 
         # pyre-fixme[4]: Attribute annotation cannot contain `Any`.
-        self.model = self._calc_last
+        self.model = None
         # pyre-fixme[4]: Attribute annotation cannot contain `Any`.
         self.y_fcst = None
         # pyre-fixme[4]: Attribute annotation cannot contain `Any`.
         self.y_fcst_lower = None
         # pyre-fixme[4]: Attribute annotation cannot contain `Any`.
         self.y_fcst_upper = None
-        self.fcst_df = pd.DataFrame(data=None)
+        self.fcst_df = None
 
     def _calc_last(self, fitted_values: npt.NDArray) -> npt.NDArray:
         """subtracts last 'steps' data points from self.data.value
-- 
2.43.0


From 153bfd97e7c81b920d1145381645390273b6484e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:27:12 +0000
Subject: [PATCH 25/74] fix: LinearModel.plot must refuse to plot before
 predict

---
 kats/models/linear_model.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/kats/models/linear_model.py b/kats/models/linear_model.py
index 93b3123..d2871bb 100644
--- a/kats/models/linear_model.py
+++ b/kats/models/linear_model.py
@@ -70,7 +70,7 @@ class LinearModel(Model[LinearModelParams]):
             logging.error(msg)
             raise ValueError(msg)
         self.model: Optional[sm.OLS] = None
-        self.fcst_df = pd.DataFrame(data=None)
+        self.fcst_df: Optional[pd.DataFrame] = None
         self.freq: Optional[str] = None
         self._X_future: Optional[List[int]] = None
         self.past_length: int = len(data.time)
-- 
2.43.0


From 6fe1af404ad669bf2ea8ad7f9e4b44888ceb09c4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:27:12 +0000
Subject: [PATCH 26/74] fix: nowcasting models must refuse to predict before
 fit

---
 kats/models/nowcasting/dynamic_nowcasting.py | 3 +++
 kats/models/nowcasting/nowcasting.py         | 2 ++
 kats/models/nowcasting/nowcastingplus.py     | 3 +++
 3 files changed, 8 insertions(+)

diff --git a/kats/models/nowcasting/dynamic_nowcasting.py b/kats/models/nowcasting/dynamic_nowcasting.py
index 3592bd7..20f512b 100644
--- a/kats/models/nowcasting/dynamic_nowcasting.py
+++ b/kats/models/nowcasting/dynamic_nowcasting.py
@@ -293,6 +293,9 @@ class NowcastingModel(m.Model):
             "Call predict() with parameters. "
             "Forecast 1 step only, kwargs:{kwargs}".format(kwargs=kwargs)
         )
+        if self.model is None:
+            raise ValueError("Call fit() before predict().")
+
         if np.sum(self.df["y"].isin([0.0])) == 0:
             X_test = self.df[-self.step :][self.feature_names]
             X_test = self.scaler.transform(X_test)
diff --git a/kats/models/nowcasting/nowcasting.py b/kats/models/nowcasting/nowcasting.py
index 5227731..277c63d 100644
--- a/kats/models/nowcasting/nowcasting.py
+++ b/kats/models/nowcasting/nowcasting.py
@@ -185,6 +185,8 @@ class NowcastingModel(m.Model):
         )
         if model:
             self.model = model
+        if self.model is None:
+            raise ValueError("Call fit() before predict().")
         if df is not None:
             if "y" in self.df.columns:
                 prediction = self.model.predict(df[self.feature_names])
diff --git a/kats/models/nowcasting/nowcastingplus.py b/kats/models/nowcasting/nowcastingplus.py
index 1da6beb..fc54044 100644
--- a/kats/models/nowcasting/nowcastingplus.py
+++ b/kats/models/nowcasting/nowcastingplus.py
@@ -238,6 +238,9 @@ class NowcastingPlusModel(m.Model):
             "Forecast 1 step only, kwargs:{kwargs}".format(kwargs=kwargs)
         )
 
+        if self.model is None:
+            raise ValueError("Call fit() before predict().")
+
         X_test = self.df[-self.step :][self.feature_names]
         X_test = self.scaler.transform(X_test)
         y_predict = self.model.predict(X_test)
-- 
2.43.0


From 3e15ed04dce9d980f367489e1d8b2352e8e16038 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:29:49 +0000
Subject: [PATCH 27/74] fix: NeuralProphetModel.plot must refuse to plot before
 fit

---
 kats/models/neuralprophet.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/kats/models/neuralprophet.py b/kats/models/neuralprophet.py
index 62132c9..22d0639 100644
--- a/kats/models/neuralprophet.py
+++ b/kats/models/neuralprophet.py
@@ -514,6 +514,8 @@ class NeuralProphetModel(Model[NeuralProphetParams]):
     def plot(
         self, fcst: pd.DataFrame, figsize: Optional[Tuple[int, int]] = None
     ) -> plt.Axes:
+        if self.model is None:
+            raise ValueError("Call fit() before plot().")
         fcst = fcst.assign(y=None)
         # pyre-fixme[16]: `Optional` has no attribute `plot`.
         return self.model.plot(fcst, figsize=figsize)
-- 
2.43.0


From 84fb9aa7821b8f0ad2d6cbbb2d16d7f4fe980f93 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:31:13 +0000
Subject: [PATCH 28/74] fix: BackTester.get_error_value must refuse before
 run_backtest

---
 kats/utils/backtesters.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/kats/utils/backtesters.py b/kats/utils/backtesters.py
index 15ba604..c6cd5a6 100644
--- a/kats/utils/backtesters.py
+++ b/kats/utils/backtesters.py
@@ -653,6 +653,8 @@ class BackTesterParent(ABC):
         """
 
         if error_name in self.errors:
+            if not self.results:
+                raise ValueError("Call run_backtest() before get_error_value().")
             return self.errors[error_name]
         else:
             logging.error("Invalid error name: {0}".format(error_name))
-- 
2.43.0


From e5912ba47c5995f536c56d5101c79d3da1d0ea4a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:31:48 +0000
Subject: [PATCH 29/74] fix: running a backtest again must not accumulate
 errors and results

---
 kats/utils/backtesters.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/kats/utils/backtesters.py b/kats/utils/backtesters.py
index c6cd5a6..5d67e63 100644
--- a/kats/utils/backtesters.py
+++ b/kats/utils/backtesters.py
@@ -480,6 +480,9 @@ class BackTesterParent(ABC):
             logging.error("Empty forecast")
             raise ValueError("No results from forecast")
 
+        self.raw_errors = []
+        self.errors = {name: 0.0 for name, _ in self.error_methods}
+
         # Storing total length of predictions for weighting fold errors
         total_fold_length = sum(result[1].size for result in self.results)
 
@@ -610,12 +613,13 @@ class BackTesterParent(ABC):
         training_splits, testing_splits = splits
 
         num_splits = len(training_splits)
+        self.results = []
         if not self.multi:
             for train_split, test_split in zip(training_splits, testing_splits):
                 self._create_model(train_split, test_split)
         else:
             pool = mp.Pool(processes=num_splits)
-            self.results = results = []
+            results = self.results
             try:
                 futures = [
                     pool.apply_async(self._create_model, args=(train_split, test_split))
-- 
2.43.0


From 36cc551b2865be0389c8bb9ce18a3103c341702f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:33:17 +0000
Subject: [PATCH 30/74] fix: GMModel must refuse to predict, evaluate or save
 before it is trained

---
 kats/models/globalmodel/model.py | 10 +++++++++-
 1 file changed, 9 insertions(+), 1 deletion(-)

diff --git a/kats/models/globalmodel/model.py b/kats/models/globalmodel/model.py
index 91421fc..3009a69 100644
--- a/kats/models/globalmodel/model.py
+++ b/kats/models/globalmodel/model.py
@@ -83,6 +83,12 @@ class GMModel:
             msg = "Not implemented."
             raise ValueError(msg)
 
+    def _check_trained(self) -> None:
+        if self.rnn is None and (self.encoder is None or self.decoder is None):
+            msg = "Haven't trained a model. Please train or load a model first."
+            logging.error(msg)
+            raise ValueError(msg)
+
     def _initiate_nn(self) -> None:
         if self.params.model_type == "rnn":
             if self.rnn is None:
@@ -590,6 +596,7 @@ class GMModel:
         Returns:
             A dictionary of forecasts, whose keys are the ids for time series, and the values are the corresponding forecasts.
         """
+        self._check_trained()
         self._set_nn_status("test")
         if isinstance(test_TSs, TimeSeriesData):
             test_TSs = [test_TSs]
@@ -659,6 +666,7 @@ class GMModel:
         Args:
             file_name: A string representing the file address and file name.
         """
+        self._check_trained()
         self._reset_nn_states()
         info = {
             "gmparam_string": self.params.to_string(),
@@ -898,7 +906,7 @@ class GMModel:
         Returns:
             A `pandas.DataFrame` object representing the evaluation results.
         """
-
+        self._check_trained()
         if not (
             (
                 isinstance(test_train_TSs, TimeSeriesData)
-- 
2.43.0


From 077f2163a07e7573e80c9847dcbbbf5c3692f153 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:39:33 +0000
Subject: [PATCH 31/74] fix: backtesters must reject zero folds and steps

---
 kats/utils/backtesters.py        | 4 ++--
 kats/utils/emp_confidence_int.py | 2 +-
 2 files changed, 3 insertions(+), 3 deletions(-)

diff --git a/kats/utils/backtesters.py b/kats/utils/backtesters.py
index 5d67e63..d0ddb06 100644
--- a/kats/utils/backtesters.py
+++ b/kats/utils/backtesters.py
@@ -889,7 +889,7 @@ class BackTesterRollingOrigin(BackTesterParent):
                     "Invalid training and testing percentage combination "
                     f"given for {expanding_steps} expanding steps"
                 )
-        if expanding_steps < 0:
+        if expanding_steps <= 0:
             logging.error("Non positive expanding steps")
             raise ValueError("Invalid expanding steps")
         self.expanding_steps = expanding_steps
@@ -1266,7 +1266,7 @@ class CrossValidation:
             logging.error("Too large test percentage")
             raise ValueError("Invalid test percentage")
         self.test_percentage = test_percentage
-        if num_folds < 0:
+        if num_folds <= 0:
             logging.error("Non positive number of folds")
             raise ValueError("Invalid number of folds")
         self.num_folds = num_folds
diff --git a/kats/utils/emp_confidence_int.py b/kats/utils/emp_confidence_int.py
index 2b315d2..682860a 100644
--- a/kats/utils/emp_confidence_int.py
+++ b/kats/utils/emp_confidence_int.py
@@ -90,7 +90,7 @@ class EmpConfidenceInt:
             logging.error("Too large test percentage")
             raise ValueError("Invalid test percentage")
         self.test_percentage = test_percentage
-        if sliding_steps < 0:
+        if sliding_steps <= 0:
             logging.error("Non positive sliding steps")
             raise ValueError("Invalid sliding steps")
         self.sliding_steps = sliding_steps
-- 
2.43.0


From 9cfacfc9d6ddc364b23262be1bbae08cee7a7a93 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:39:33 +0000
Subject: [PATCH 32/74] fix: data partitions must accept max_core up to, and
 cap it at, the available cores

---
 kats/utils/datapartition.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/kats/utils/datapartition.py b/kats/utils/datapartition.py
index 5f22cd4..739323b 100644
--- a/kats/utils/datapartition.py
+++ b/kats/utils/datapartition.py
@@ -65,12 +65,13 @@ class DataPartitionBase(ABC):
             total_cores = cpu_count()
             if max_core is None:
                 self.max_core: int = max((total_cores - 1) // 2, 1)
-            elif isinstance(max_core, int) and max_core > 0 and max_core < total_cores:
+            elif isinstance(max_core, int) and max_core > 0 and max_core <= total_cores:
                 self.max_core = max_core
             elif isinstance(max_core, int) and max_core > total_cores:
                 logging.warning(
                     f"`max_core` is larger than maximum available cores ({total_cores}) and sets `max_core = {total_cores}`."
                 )
+                self.max_core = total_cores
             else:
                 msg = f"max_core should be a positive integer in [1, {total_cores}] but receives {max_core}."
                 logging.error(msg)
-- 
2.43.0


From 9e3b3246e91f7329850c4f7b3e764b2d8054cd0f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:39:33 +0000
Subject: [PATCH 33/74] fix: SimpleHeuristicModelParams must validate its
 options

---
 kats/models/simple_heuristic_model.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/kats/models/simple_heuristic_model.py b/kats/models/simple_heuristic_model.py
index e6b3456..415e748 100644
--- a/kats/models/simple_heuristic_model.py
+++ b/kats/models/simple_heuristic_model.py
@@ -42,6 +42,7 @@ class SimpleHeuristicModelParams(Params):
         logging.debug(
             f"Initialized SimpleHeuristicModel parameters with method: {self.method}"
         )
+        self.validate_params()
 
     def validate_params(self) -> None:
         "Validate SimpleHeuristicModel Model Parameters"
-- 
2.43.0


From 3beba1a16d494c34c2d7e798a56c13829fc00f8a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:39:33 +0000
Subject: [PATCH 34/74] fix: BayesianVARParams must validate its options

---
 kats/models/bayesian_var.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/kats/models/bayesian_var.py b/kats/models/bayesian_var.py
index 145eadf..b4da287 100644
--- a/kats/models/bayesian_var.py
+++ b/kats/models/bayesian_var.py
@@ -52,6 +52,9 @@ class BayesianVARParams(Params):
     phi_2: float = 20
     phi_3: float = 3
 
+    def __post_init__(self) -> None:
+        self.validate_params()
+
     def validate_params(self) -> None:
         if self.p <= 0:
             raise ValueError(f"Lag order must be positive, but got {self.p}")
-- 
2.43.0


From 4d1285aef36853e69b0b202e625d9a84a0f1c753 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:39:46 +0000
Subject: [PATCH 35/74] fix: GMBackTester must accept max_core equal to the
 available cores

---
 kats/models/globalmodel/backtester.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/kats/models/globalmodel/backtester.py b/kats/models/globalmodel/backtester.py
index 12ffc5d..8e89ba5 100644
--- a/kats/models/globalmodel/backtester.py
+++ b/kats/models/globalmodel/backtester.py
@@ -146,7 +146,7 @@ class GMBackTester:
         if max_core is None:
             # pyre-fixme[4]: Attribute must be annotated.
             self.max_core = max((total_cores - 1) // 2, 1)
-        elif isinstance(max_core, int) and max_core > 0 and max_core < total_cores:
+        elif isinstance(max_core, int) and max_core > 0 and max_core <= total_cores:
             self.max_core = max_core
         else:
             msg = f"max_core should be a positive integer in [1, {total_cores}] but receives {max_core}."
-- 
2.43.0


From 76ec960b4386b74c32bfb3e4098729ca9def3637 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:01:36 +0000
Subject: [PATCH 36/74] fix: MetaLearnModelSelect must refuse missing metadata

---
 kats/models/metalearner/metalearner_modelselect.py | 10 ++++------
 1 file changed, 4 insertions(+), 6 deletions(-)

diff --git a/kats/models/metalearner/metalearner_modelselect.py b/kats/models/metalearner/metalearner_modelselect.py
index edc8deb..76fe847 100644
--- a/kats/models/metalearner/metalearner_modelselect.py
+++ b/kats/models/metalearner/metalearner_modelselect.py
@@ -63,15 +63,13 @@ class MetaLearnModelSelect:
         self, metadata: Optional[List[Dict[str, Any]]] = None, load_model: bool = False
     ) -> None:
         if not load_model:
-            # pyre-fixme[6]: Expected `Sized` for 1st param but got
-            #  `Optional[List[typing.Any]]`.
-            if len(metadata) <= 30:
-                msg = "Dataset is too small to train a meta learner!"
+            if metadata is None:
+                msg = "Missing metadata!"
                 logging.error(msg)
                 raise ValueError(msg)
 
-            if metadata is None:
-                msg = "Missing metadata!"
+            if len(metadata) <= 30:
+                msg = "Dataset is too small to train a meta learner!"
                 logging.error(msg)
                 raise ValueError(msg)
 
-- 
2.43.0


From e7ad9e7be0322bc86f2613fafaa112a8c2599c18 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:32:15 +0000
Subject: [PATCH 37/74] fix: TsFeatures instances must not share their
 calculators

---
 kats/tsfeatures/tsfeatures.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/kats/tsfeatures/tsfeatures.py b/kats/tsfeatures/tsfeatures.py
index 82789b1..cf19783 100644
--- a/kats/tsfeatures/tsfeatures.py
+++ b/kats/tsfeatures/tsfeatures.py
@@ -466,6 +466,9 @@ class TsFeatures:
 
     def _compile_methods(self) -> None:
         """Map method names to method instances for _transform_1d."""
+        # own dictionaries: the methods are bound to the options of this instance
+        self._ts_methods = {}
+        self._x_methods = {}
         for method, _ in _ALL_TS_FEATURES:
             method_name = f"get_{method}"
             func = vars(TsFeatures).get(method_name, None)
-- 
2.43.0


From fe4bb1158abc1354fcb73c26dfaccdece46c0352 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:04:14 +0000
Subject: [PATCH 38/74] fix: TimeSeriesData must report that only one of time
 and value was given

---
 kats/consts.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/kats/consts.py b/kats/consts.py
index 1cc18b5..f77f9e4 100644
--- a/kats/consts.py
+++ b/kats/consts.py
@@ -382,7 +382,7 @@ class TimeSeriesData:
             self._extract_from_df(df=df)
 
         # If None is passed
-        elif not time and not value:
+        elif time is None and value is None:
             self._time = pd.Series([], name=time_col_name, dtype="datetime64[ns]")
             self._value = pd.Series([], name=DEFAULT_VALUE_NAME, dtype=float)
             logging.info("Initializing empty TimeSeriesData object")
-- 
2.43.0


From cc9ab022f0dba68dc0554cc3808006dbf2441ea2 Mon Sep 17 00:00:00 2001
From: verif <a@b>
Date: Thu, 19 Nov 2026 19:40:18 +0000
Subject: [PATCH 39/74] fix: worker pools must be shut down when a worker fails

---
 kats/models/globalmodel/backtester.py | 16 ++++++----------
 kats/models/globalmodel/ensemble.py   | 24 +++++++++---------------
 kats/models/globalmodel/stdmodel.py   | 26 +++++++++++---------------
 kats/utils/backtesters.py             |  6 ++----
 kats/utils/datapartition.py           |  6 ++----
 5 files changed, 30 insertions(+), 48 deletions(-)

diff --git a/kats/models/globalmodel/backtester.py b/kats/models/globalmodel/backtester.py
index 8e89ba5..2a01b29 100644
--- a/kats/models/globalmodel/backtester.py
+++ b/kats/models/globalmodel/backtester.py
@@ -380,10 +380,8 @@ class GMBackTester:
                     for i in range(m)
                 ]
 
-                pool = Pool(num_core)
-                results = pool.starmap(self._fit_single_gm, model_params)
-                pool.close()
-                pool.join()
+                with Pool(num_core) as pool:
+                    results = pool.starmap(self._fit_single_gm, model_params)
                 self.gm_info_collects[bt] = results
 
                 logging.info(f"fit {m} gm time {time.time() - t0}")
@@ -593,12 +591,10 @@ class GMBackTesterExpandingWindow(BackTesterExpandingWindow):
         num_splits = len(training_splits)
 
         if self.multi:
-            pool = Pool(max(1, min(cpu_count() - 1, num_splits)))
-            TSs = pool.starmap(
-                self._create_ts, list(zip(training_splits, testing_splits))
-            )
-            pool.close()
-            pool.join()
+            with Pool(max(1, min(cpu_count() - 1, num_splits))) as pool:
+                TSs = pool.starmap(
+                    self._create_ts, list(zip(training_splits, testing_splits))
+                )
 
         else:
             TSs = [
diff --git a/kats/models/globalmodel/ensemble.py b/kats/models/globalmodel/ensemble.py
index 56b8e4f..9ab9220 100644
--- a/kats/models/globalmodel/ensemble.py
+++ b/kats/models/globalmodel/ensemble.py
@@ -223,10 +223,8 @@ class GMEnsemble:
                 )
                 for i in range(self.model_num)
             ]
-            pool = Pool(self.max_core)
-            results = pool.starmap(self._fit_single_gm, model_params)
-            pool.close()
-            pool.join()
+            with Pool(self.max_core) as pool:
+                results = pool.starmap(self._fit_single_gm, model_params)
             # return results
             self.gm_info = results
             logging.info(
@@ -331,13 +329,11 @@ class GMEnsemble:
             raise ValueError(msg)
         t0 = time.time()
         if self.multi:
-            pool = Pool(self.max_core)
-            all_fcsts = pool.starmap(
-                self._predict_single_gm,
-                [(t, test_TSs, steps, test_batch_size) for t in self.gm_models],
-            )
-            pool.close()
-            pool.join()
+            with Pool(self.max_core) as pool:
+                all_fcsts = pool.starmap(
+                    self._predict_single_gm,
+                    [(t, test_TSs, steps, test_batch_size) for t in self.gm_models],
+                )
         else:
             all_fcsts = [
                 m.predict(test_TSs, steps, raw=True, test_batch_size=test_batch_size)
@@ -366,10 +362,8 @@ class GMEnsemble:
                 )
                 for k in keys
             ]
-            pool = Pool(self.max_core)
-            results = pool.starmap(self._combine_fcst, cf_params)
-            pool.close()
-            pool.join()
+            with Pool(self.max_core) as pool:
+                results = pool.starmap(self._combine_fcst, cf_params)
             return {t[0]: t[1] for t in results}
         else:
             ans = {}
diff --git a/kats/models/globalmodel/stdmodel.py b/kats/models/globalmodel/stdmodel.py
index e2880b1..1aa3894 100644
--- a/kats/models/globalmodel/stdmodel.py
+++ b/kats/models/globalmodel/stdmodel.py
@@ -265,15 +265,13 @@ class STDGlobalModel:
         keys = list(test_TSs.keys()) if isinstance(test_TSs, dict) else np.arange(n)
         t0 = time.time()
         if self.multi:
-            pool = Pool(self.max_core)
-            prepared_TSs = pool.starmap(
-                # pyrefly: ignore [bad-index]
-                self._prepare_ts,
-                # pyrefly: ignore [bad-index]
-                [(key, test_TSs[key], steps) for key in keys],
-            )
-            pool.close()
-            pool.join()
+            with Pool(self.max_core) as pool:
+                prepared_TSs = pool.starmap(
+                    # pyrefly: ignore [bad-index]
+                    self._prepare_ts,
+                    # pyrefly: ignore [bad-index]
+                    [(key, test_TSs[key], steps) for key in keys],
+                )
         else:
             # pyrefly: ignore [bad-index]
             prepared_TSs = [self._prepare_ts(key, test_TSs[key], steps) for key in keys]
@@ -286,12 +284,10 @@ class STDGlobalModel:
         gm_fcsts = self.gm.predict({t[0]: t[1] for t in prepared_TSs}, steps=steps)
 
         if self.multi:
-            pool = Pool(self.max_core)
-            fcsts = pool.starmap(
-                self._reseasonal, [(t[0], gm_fcsts[t[0]], t[2]) for t in prepared_TSs]
-            )
-            pool.close()
-            pool.join()
+            with Pool(self.max_core) as pool:
+                fcsts = pool.starmap(
+                    self._reseasonal, [(t[0], gm_fcsts[t[0]], t[2]) for t in prepared_TSs]
+                )
         else:
             fcsts = [
                 self._reseasonal(t[0], cast(pd.DataFrame, gm_fcsts[t[0]]), t[2])
diff --git a/kats/utils/backtesters.py b/kats/utils/backtesters.py
index d0ddb06..0ba0ba9 100644
--- a/kats/utils/backtesters.py
+++ b/kats/utils/backtesters.py
@@ -224,10 +224,8 @@ class GenericBacktester(ABC):
         logging.info("Successfully finish data partitioning!")
 
         if self.multi:
-            pool = Pool(self.max_core)
-            all_res = pool.starmap(self._fit_and_scorer, train_test_data)
-            pool.close()
-            pool.join()
+            with Pool(self.max_core) as pool:
+                all_res = pool.starmap(self._fit_and_scorer, train_test_data)
         else:
             all_res = []
             for train, test in train_test_data:
diff --git a/kats/utils/datapartition.py b/kats/utils/datapartition.py
index 739323b..cebebb9 100644
--- a/kats/utils/datapartition.py
+++ b/kats/utils/datapartition.py
@@ -143,10 +143,8 @@ class DataPartitionBase(ABC):
             # multi-processing
             # pyre-fixme
             params = [(k, data[k]) for k in keys]
-            pool = Pool(self.max_core)
-            raw_res = pool.starmap(self._single_train_test_split, params)
-            pool.close()
-            pool.join()
+            with Pool(self.max_core) as pool:
+                raw_res = pool.starmap(self._single_train_test_split, params)
         else:
             # pyre-fixme
             raw_res = [self._single_train_test_split(k, data[k]) for k in keys]
-- 
2.43.0


From a77ffcc8a4913008754fd2ebfa86584cd8d0c2ca Mon Sep 17 00:00:00 2001
From: verif <a@b>
Date: Thu, 19 Nov 2026 19:40:19 +0000
Subject: [PATCH 40/74] fix: load_gmensemble_from_file must close the file it
 reads

---
 kats/models/globalmodel/ensemble.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/kats/models/globalmodel/ensemble.py b/kats/models/globalmodel/ensemble.py
index 9ab9220..deb7301 100644
--- a/kats/models/globalmodel/ensemble.py
+++ b/kats/models/globalmodel/ensemble.py
@@ -534,7 +534,8 @@ def load_gmensemble_from_file(file_name: str) -> GMEnsemble:
     """
 
     try:
-        info = joblib.load(open(file_name, "rb"))
+        with open(file_name, "rb") as f:
+            info = joblib.load(f)
         gmparam = gmparam_from_string(info["gmparam_string"])
         n = (
             len(info["state_dict"])
-- 
2.43.0


From 17137e62b0eea7309864764e8f112864c60ee571 Mon Sep 17 00:00:00 2001
From: verif <a@b>
Date: Thu, 19 Nov 2026 19:40:19 +0000
Subject: [PATCH 41/74] fix: importing metalearner_hpt must not configure the
 root logger

---
 kats/models/metalearner/metalearner_hpt.py | 1 -
 1 file changed, 1 deletion(-)

diff --git a/kats/models/metalearner/metalearner_hpt.py b/kats/models/metalearner/metalearner_hpt.py
index 5acb05c..17ea02d 100644
--- a/kats/models/metalearner/metalearner_hpt.py
+++ b/kats/models/metalearner/metalearner_hpt.py
@@ -39,7 +39,6 @@ _MODELS = {
     "statsig",
 }
 
-logging.basicConfig()
 LOGGER: logging.Logger = logging.getLogger(__name__)
 
 
-- 
2.43.0


From ef74b2bb2fcb698fe13569d2573066aacc46a64d Mon Sep 17 00:00:00 2001
From: verif <a@b>
Date: Thu, 19 Nov 2026 19:40:19 +0000
Subject: [PATCH 42/74] fix: BOCPD must not reseed the global random generator

---
 kats/detectors/bocpd.py | 7 +++----
 1 file changed, 3 insertions(+), 4 deletions(-)

diff --git a/kats/detectors/bocpd.py b/kats/detectors/bocpd.py
index 611b40c..aa77cb4 100644
--- a/kats/detectors/bocpd.py
+++ b/kats/detectors/bocpd.py
@@ -1602,18 +1602,17 @@ class _BayesianLinReg(_PredictiveModel):
         # this is to make sure the results are consistent
         # and tests don't break randomly
         seed_value = 100
-        # pyrefly: ignore [bad-argument-type]
-        np.random.seed(seed_value)
+        rng = np.random.RandomState(seed_value)
 
         # pyre-fixme[24]: Generic type `np.ndarray` expects 2 type parameters.
-        sample_sigma_squared = cast(np.ndarray, invgamma.rvs(a_n, scale=b_n, size=1))
+        sample_sigma_squared = cast(np.ndarray, invgamma.rvs(a_n, scale=b_n, size=1, random_state=rng))
 
         # Sample a beta value from Normal(mu_n, sigma^2 * inv(lambda_n))
         assert len(mu_n.shape) == 1, (
             f"Expected 1 dimensional mu_n, but got {mu_n.shape}"
         )
 
-        all_beta_samples = np.random.multivariate_normal(
+        all_beta_samples = rng.multivariate_normal(
             mu_n, sample_sigma_squared * np.linalg.inv(lambda_n), size=num_samples
         )
 
-- 
2.43.0


From b189264b37c51572e142b7a9e74a375e22b2d597 Mon Sep 17 00:00:00 2001
From: verif <a@b>
Date: Thu, 19 Nov 2026 19:40:32 +0000
Subject: [PATCH 43/74] fix: importing the CUSUM detector must not change
 pandas options

---
 kats/detectors/cusum_detection.py | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/kats/detectors/cusum_detection.py b/kats/detectors/cusum_detection.py
index 8949bf0..652ddca 100644
--- a/kats/detectors/cusum_detection.py
+++ b/kats/detectors/cusum_detection.py
@@ -55,8 +55,6 @@ from kats.detectors.detector import Detector
 # pyrefly: ignore [missing-module-attribute]
 from scipy.stats import chi2  # @manual
 
-pd.options.plotting.matplotlib.register_converters = True
-
 _log: logging.Logger = logging.getLogger("cusum_detection")
 
 
@@ -715,7 +713,8 @@ class CUSUMDetector(Detector):
         data_df = self.data.to_dataframe()
 
         _, ax = plt.subplots(**kwargs)
-        ax.plot(data_df[time_col_name], data_df[val_col_name])
+        with pd.option_context("plotting.matplotlib.register_converters", True):
+            ax.plot(data_df[time_col_name], data_df[val_col_name])
 
         changepoint_annotated = False
         for change in change_points:
-- 
2.43.0


From 32413facabfafa849fe3063697456b691001e0b0 Mon Sep 17 00:00:00 2001
From: verif <a@b>
Date: Thu, 19 Nov 2026 19:40:32 +0000
Subject: [PATCH 44/74] fix: training global models must not leave torch on one
 thread

---
 kats/models/globalmodel/backtester.py | 10 +++++++---
 kats/models/globalmodel/ensemble.py   | 20 ++++++++++++--------
 2 files changed, 19 insertions(+), 11 deletions(-)

diff --git a/kats/models/globalmodel/backtester.py b/kats/models/globalmodel/backtester.py
index 2a01b29..1f9463b 100644
--- a/kats/models/globalmodel/backtester.py
+++ b/kats/models/globalmodel/backtester.py
@@ -307,15 +307,19 @@ class GMBackTester:
         random_seed: Optional[int] = None
             Random seed.
         """
+        num_threads = torch.get_num_threads()
         if random_seed is not None:
             # pyrefly: ignore [bad-argument-type]
             np.random.seed(random_seed)
             torch.manual_seed(random_seed)
             # to ensure performance
             torch.set_num_threads(1)
-        training_info = gmmodel.train(
-            train_TSs, valid_TSs, fcst_monitor=False, debug=False
-        )
+        try:
+            training_info = gmmodel.train(
+                train_TSs, valid_TSs, fcst_monitor=False, debug=False
+            )
+        finally:
+            torch.set_num_threads(num_threads)
         return training_info
 
     def run_backtest(self) -> pd.DataFrame:
diff --git a/kats/models/globalmodel/ensemble.py b/kats/models/globalmodel/ensemble.py
index deb7301..0c5877d 100644
--- a/kats/models/globalmodel/ensemble.py
+++ b/kats/models/globalmodel/ensemble.py
@@ -140,20 +140,24 @@ class GMEnsemble:
             info: A dictionary representing the training information of the global model.
         """
 
+        num_threads = torch.get_num_threads()
         if random_seed is not None:
             # pyrefly: ignore [bad-argument-type]
             np.random.seed(random_seed)
             torch.manual_seed(random_seed)
             # to ensure performance
             torch.set_num_threads(1)
-        training_info = gm.train(
-            train_TSs,
-            valid_TSs,
-            test_train_TSs,
-            test_valid_TSs,
-            fcst_monitor=False,
-            debug=False,
-        )
+        try:
+            training_info = gm.train(
+                train_TSs,
+                valid_TSs,
+                test_train_TSs,
+                test_valid_TSs,
+                fcst_monitor=False,
+                debug=False,
+            )
+        finally:
+            torch.set_num_threads(num_threads)
         return training_info
 
     # pyre-fixme[3]: Return type must be annotated.
-- 
2.43.0


From fbd3b1cb1268c379715761022f40ff7f3906a429 Mon Sep 17 00:00:00 2001
From: verif <a@b>
Date: Thu, 19 Nov 2026 20:07:17 +0000
Subject: [PATCH 45/74] fix: GMDataLoader must keep a magnitude of zero

---
 kats/models/globalmodel/data_processor.py | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/kats/models/globalmodel/data_processor.py b/kats/models/globalmodel/data_processor.py
index 22842b2..ef4b1be 100644
--- a/kats/models/globalmodel/data_processor.py
+++ b/kats/models/globalmodel/data_processor.py
@@ -73,9 +73,8 @@ class GMDataLoader:
         self._idx = -1
         # pyre-fixme[4]: Attribute must be annotated.
         self.num = len(dataset)
-        if magnitude > 0:
-            # pyre-fixme[4]: Attribute must be annotated.
-            self.magnitude = magnitude
+        # pyre-fixme[4]: Attribute must be annotated.
+        self.magnitude = max(magnitude, 0.0)
 
     def _valid_dataset(
         self,
-- 
2.43.0


From a267b329a5037de613a4be1fbfb5cee89e19cb8b Mon Sep 17 00:00:00 2001
From: verif <a@b>
Date: Thu, 19 Nov 2026 20:42:09 +0000
Subject: [PATCH 46/74] fix: a saved BocpdDetectorModel must keep its threshold

---
 kats/detectors/bocpd_model.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/kats/detectors/bocpd_model.py b/kats/detectors/bocpd_model.py
index 25e9387..2da5a76 100644
--- a/kats/detectors/bocpd_model.py
+++ b/kats/detectors/bocpd_model.py
@@ -72,7 +72,7 @@ class BocpdDetectorModel(DetectorModel):
             json containing information about serialized model.
         """
 
-        model_dict = {"slow_drift": self.slow_drift}
+        model_dict = {"slow_drift": self.slow_drift, "threshold": self.threshold}
         return json.dumps(model_dict).encode("utf-8")
 
     def fit_predict(
-- 
2.43.0


From 6fcec80096c0c596855a45555c868bb91a4dabb2 Mon Sep 17 00:00:00 2001
From: verif <a@b>
Date: Thu, 19 Nov 2026 20:42:09 +0000
Subject: [PATCH 47/74] fix: a saved RollingStatsModel must be restorable

---
 kats/detectors/rolling_stats_model.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/kats/detectors/rolling_stats_model.py b/kats/detectors/rolling_stats_model.py
index 606f7db..d090eaf 100644
--- a/kats/detectors/rolling_stats_model.py
+++ b/kats/detectors/rolling_stats_model.py
@@ -230,7 +230,9 @@ class RollingStatsModel(DetectorModel):
         if serialized_model:
             previous_model = json.loads(serialized_model)
             self.rolling_window: int = previous_model["rolling_window"]
-            self.statistics: RollStatsFunction = previous_model["statistics"]
+            self.statistics: RollStatsFunction = RollStatsFunction(
+                previous_model["statistics"]
+            )
             self.remove_seasonality: bool = previous_model["remove_seasonality"]
             self.point_based: bool = previous_model["point_based"]
             self.seasonality_period: str = previous_model["seasonality_period"]
-- 
2.43.0


From 9d06d520ae579403322cd41d533beeb2528a32d4 Mon Sep 17 00:00:00 2001
From: verif <a@b>
Date: Thu, 19 Nov 2026 20:42:09 +0000
Subject: [PATCH 48/74] fix: a saved MultiStatSigDetectorModel must keep its
 own options

---
 kats/detectors/stat_sig_detector.py | 16 ++++++++++++++++
 1 file changed, 16 insertions(+)

diff --git a/kats/detectors/stat_sig_detector.py b/kats/detectors/stat_sig_detector.py
index 34652b9..777c0ac 100644
--- a/kats/detectors/stat_sig_detector.py
+++ b/kats/detectors/stat_sig_detector.py
@@ -1024,10 +1024,26 @@ class MultiStatSigDetectorModel(StatSigDetectorModel):
             seasonal_period=seasonal_period,
             min_perc_change=min_perc_change,
         )
+        if serialized_model:
+            model_dict = json.loads(serialized_model)
+            method = model_dict.get("method", method)
+            skip_rescaling = model_dict.get("skip_rescaling", skip_rescaling)
+            use_corrected_scores = model_dict.get(
+                "use_corrected_scores", use_corrected_scores
+            )
         self.method = method
         self.skip_rescaling = skip_rescaling
         self.use_corrected_scores = use_corrected_scores
 
+    def serialize(self) -> bytes:
+        """
+        Serializes by putting model parameters in a json
+        """
+        model_dict = json.loads(super().serialize())
+        model_dict["method"] = self.method
+        model_dict["skip_rescaling"] = self.skip_rescaling
+        return json.dumps(model_dict).encode("utf-8")
+
     def fit_predict(
         self,
         data: TimeSeriesData,
-- 
2.43.0


From c4d97345af2a75a4a9cbac8468b9b1df27531f0a Mon Sep 17 00:00:00 2001
From: verif <a@b>
Date: Thu, 19 Nov 2026 20:46:09 +0000
Subject: [PATCH 49/74] fix: a GMEnsemble loaded from a file must keep its test
 ids

---
 kats/models/globalmodel/ensemble.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/kats/models/globalmodel/ensemble.py b/kats/models/globalmodel/ensemble.py
index 0c5877d..f8afa27 100644
--- a/kats/models/globalmodel/ensemble.py
+++ b/kats/models/globalmodel/ensemble.py
@@ -568,6 +568,7 @@ def load_gmensemble_from_file(file_name: str) -> GMEnsemble:
         gmensemble = GMEnsemble(**info["gmensemble_params"])
         gmensemble.gm_models = gm_models
         gmensemble.gm_info = info["gm_info"]
+        gmensemble.test_ids = info["test_ids"]
     except Exception as e:
         msg = f"Fail to load GMEnsemble from {file_name} with Exception {e}."
         logging.error(msg)
-- 
2.43.0


From aa724891e00c87d4093fb63ddd2080a0db5edc8d Mon Sep 17 00:00:00 2001
From: verif <a@b>
Date: Thu, 19 Nov 2026 20:58:16 +0000
Subject: [PATCH 50/74] fix: linear and quadratic models must be able to
 forecast a single step

---
 kats/models/linear_model.py    | 2 +-
 kats/models/quadratic_model.py | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/kats/models/linear_model.py b/kats/models/linear_model.py
index d2871bb..844bbf5 100644
--- a/kats/models/linear_model.py
+++ b/kats/models/linear_model.py
@@ -124,7 +124,7 @@ class LinearModel(Model[LinearModelParams]):
         else:
             self._X_future = list(range(self.past_length, self.past_length + steps))
 
-        X_fcst = sm.add_constant(self._X_future)
+        X_fcst = sm.add_constant(self._X_future, has_constant="add")
         if self.model is None:
             raise ValueError("Call fit() before predict()")
         else:
diff --git a/kats/models/quadratic_model.py b/kats/models/quadratic_model.py
index c7227ad..fe49193 100644
--- a/kats/models/quadratic_model.py
+++ b/kats/models/quadratic_model.py
@@ -134,7 +134,7 @@ class QuadraticModel(Model[QuadraticModelParams]):
             _X_future = list(range(past_length, past_length + steps))
         self._X_future = _X_future
         _X_fcst = np.column_stack([_X_future, np.power(_X_future, 2)])
-        X_fcst = sm.add_constant(_X_fcst)
+        X_fcst = sm.add_constant(_X_fcst, has_constant="add")
         y_fcst = model.predict(X_fcst)
         sdev, y_fcst_lower, y_fcst_upper = wls_prediction_std(
             self.model, exog=X_fcst, alpha=self.params.alpha
-- 
2.43.0


From 6185c31a64cf430960febe0bf0d4326a0d36b9f2 Mon Sep 17 00:00:00 2001
From: verif <a@b>
Date: Thu, 19 Nov 2026 20:58:16 +0000
Subject: [PATCH 51/74] fix: ARIMA and SARIMA intervals must use the alpha
 asked for

---
 kats/models/arima.py  | 2 +-
 kats/models/sarima.py | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/kats/models/arima.py b/kats/models/arima.py
index 8353cbd..94ede1a 100644
--- a/kats/models/arima.py
+++ b/kats/models/arima.py
@@ -264,7 +264,7 @@ class ARIMAModel(Model[ARIMAParams]):
             steps,
             exog=self.fcst_exog,
             signal_only=False,
-        ).summary_frame()
+        ).summary_frame(alpha=self.alpha)
         logging.info("Generated forecast data from arima model.")
 
         self.y_fcst = fcst["mean"].ravel()
diff --git a/kats/models/sarima.py b/kats/models/sarima.py
index 53ba538..aa81d15 100644
--- a/kats/models/sarima.py
+++ b/kats/models/sarima.py
@@ -366,7 +366,7 @@ class SARIMAModel(Model[SARIMAParams]):
         if include_history:
             # generate historical fit
             history_fcst = model.get_prediction(0)
-            history_ci = history_fcst.conf_int()
+            history_ci = history_fcst.conf_int(alpha=self.alpha)
             if ("lower" in history_ci.columns[0]) and (
                 "upper" in history_ci.columns[1]
             ):
-- 
2.43.0


From 0930f4ae139981d54909bb62e81b89dd84bca6bc Mon Sep 17 00:00:00 2001
From: verif <a@b>
Date: Thu, 19 Nov 2026 20:58:16 +0000
Subject: [PATCH 52/74] fix: MKDetector must test at the alpha it was given

---
 kats/detectors/trend_mk.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/kats/detectors/trend_mk.py b/kats/detectors/trend_mk.py
index 7c47fea..f5a5555 100644
--- a/kats/detectors/trend_mk.py
+++ b/kats/detectors/trend_mk.py
@@ -287,7 +287,7 @@ class MKDetector(Detector):
 
         anchor_date = ts.index[-1]
 
-        mk_result = mk.original_test(x)
+        mk_result = mk.original_test(x, alpha=self.alpha)
         trend, p, Tau = mk_result.trend, mk_result.p, mk_result.Tau
         trend = self._apply_threshold(trend, Tau)
 
@@ -324,7 +324,7 @@ class MKDetector(Detector):
 
         x, c = self._preprocessing(ts)
 
-        multi_mk_result = mk.multivariate_test(x)
+        multi_mk_result = mk.multivariate_test(x, alpha=self.alpha)
         trend, p, Tau = multi_mk_result.trend, multi_mk_result.p, multi_mk_result.Tau
         trend = self._apply_threshold(trend, Tau)
 
@@ -335,7 +335,7 @@ class MKDetector(Detector):
             x_i, n = self._drop_missing_values(x[:, i])
             # individual Tau score and trend
             try:
-                mk_result = mk.original_test(x_i)
+                mk_result = mk.original_test(x_i, alpha=self.alpha)
                 trend_i, Tau_i = mk_result.trend, mk_result.Tau
                 trend_i = self._apply_threshold(trend_i, Tau_i)
                 Tau_dict[ts.columns[i]] = Tau_i
-- 
2.43.0


From 88e0a196a4f037e6c28b1a0e72eab9f18051cfb3 Mon Sep 17 00:00:00 2001
From: verif <a@b>
Date: Thu, 19 Nov 2026 20:58:16 +0000
Subject: [PATCH 53/74] fix: MLARModel must pass all its LightGBM options on

---
 kats/models/ml_ar.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/kats/models/ml_ar.py b/kats/models/ml_ar.py
index df37754..ce65266 100644
--- a/kats/models/ml_ar.py
+++ b/kats/models/ml_ar.py
@@ -209,7 +209,7 @@ class MLARParams:
         reg_alpha: float = 0.0,
         num_leaves: int = 31,
         boosting_type: str = "gbdt",
-        subsample_for_bin: float = 200000,
+        subsample_for_bin: int = 200000,
         objective: str = "quantile",
         alpha: float = 0.9,
         verbose: int = -1,
@@ -234,6 +234,7 @@ class MLARParams:
         self.colsample_bytree = colsample_bytree
         self.min_split_gain = min_split_gain
         self.reg_alpha = reg_alpha
+        self.subsample_for_bin = subsample_for_bin
         self.num_leaves = num_leaves
         self.boosting_type = boosting_type
         self.objective = objective
@@ -1093,6 +1094,9 @@ class MLARModel:
             n_estimators=self.params.n_estimators,
             learning_rate=self.params.learning_rate,
             colsample_bytree=self.params.colsample_bytree,
+            min_split_gain=self.params.min_split_gain,
+            reg_alpha=self.params.reg_alpha,
+            subsample_for_bin=self.params.subsample_for_bin,
             boosting_type=self.params.boosting_type,
             alpha=self.params.alpha,
             random_state=self.params.random_state,
-- 
2.43.0


From 5a86845eac40f7808e05b86aeace835c007682bf Mon Sep 17 00:00:00 2001
From: verif <a@b>
Date: Thu, 19 Nov 2026 20:58:16 +0000
Subject: [PATCH 54/74] fix: MetaLearnPredictability must use the number of
 neighbors it was given

---
 kats/models/metalearner/metalearner_predictability.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/kats/models/metalearner/metalearner_predictability.py b/kats/models/metalearner/metalearner_predictability.py
index d73ba1e..f2be4cc 100644
--- a/kats/models/metalearner/metalearner_predictability.py
+++ b/kats/models/metalearner/metalearner_predictability.py
@@ -239,7 +239,7 @@ class MetaLearnPredictability:
         elif method == "GBDT":
             clf = GradientBoostingClassifier(**kwargs)
         elif method == "KNN":
-            kwargs["n_neighbors"] = kwargs.get("n_neighbors", 5)
+            kwargs["n_neighbors"] = n_neighbors
             clf = KNeighborsClassifier(**kwargs)
         else:
             kwargs["n_estimators"] = n_estimators
-- 
2.43.0


From bcb8c449d8dc0e6d95736f9afd6395b4e30e037c Mon Sep 17 00:00:00 2001
From: verif <a@b>
Date: Thu, 19 Nov 2026 20:58:16 +0000
Subject: [PATCH 55/74] fix: BocpdTrendDetectorModel must smooth with its own
 alpha and beta

---
 kats/detectors/bocpd_model.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/kats/detectors/bocpd_model.py b/kats/detectors/bocpd_model.py
index 2da5a76..b871d61 100644
--- a/kats/detectors/bocpd_model.py
+++ b/kats/detectors/bocpd_model.py
@@ -244,7 +244,7 @@ class BocpdTrendDetectorModel(DetectorModel):
         historical_data: Optional[TimeSeriesData] = None,
         **kwargs: Any,
     ) -> AnomalyResponse:
-        trend_ts = self._holt_winter_fit(data)
+        trend_ts = self._holt_winter_fit(data, alpha=self.alpha, beta=self.beta)
         detector = BocpdDetectorModel()
         anom_obj = detector.fit_predict(trend_ts)
         return anom_obj
-- 
2.43.0


From a2a87bca967b69961e532448631fc0c3c2872681 Mon Sep 17 00:00:00 2001
From: verif <a@b>
Date: Thu, 19 Nov 2026 20:58:16 +0000
Subject: [PATCH 56/74] fix: trend_shift_sim must use its random seed

---
 kats/utils/simulator.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/kats/utils/simulator.py b/kats/utils/simulator.py
index 94e516d..c2d384a 100644
--- a/kats/utils/simulator.py
+++ b/kats/utils/simulator.py
@@ -608,6 +608,8 @@ class Simulator:
         )
         """
 
+        np.random.seed(seed=random_seed)
+
         # initializing the lists inside the function since
         # mutable lists as defaults is bad practice that linter flags
         if cp_arr is None:
-- 
2.43.0


From 50eaf848f718569d4045f9182de180a808a5e4e1 Mon Sep 17 00:00:00 2001
From: verif <a@b>
Date: Thu, 19 Nov 2026 20:58:16 +0000
Subject: [PATCH 57/74] fix: VectorizedCUSUMDetectorModel must pass all its
 options on for a single series

---
 kats/detectors/cusum_model.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/kats/detectors/cusum_model.py b/kats/detectors/cusum_model.py
index 3cab103..cc04ab5 100644
--- a/kats/detectors/cusum_model.py
+++ b/kats/detectors/cusum_model.py
@@ -1484,6 +1484,8 @@ class VectorizedCUSUMDetectorModel(CUSUMDetectorModel):
             change_directions=self.change_directions,
             score_func=self.score_func,
             remove_seasonality=self.remove_seasonality,
+            season_period_freq=self.season_period_freq,
+            adapted_pre_mean=self.adapted_pre_mean,
         )
         return d.fit_predict(data, historical_data)
 
-- 
2.43.0


From 67e387d63df348cd31e6d42a7abffc9785ab805c Mon Sep 17 00:00:00 2001
From: verif <a@b>
Date: Thu, 19 Nov 2026 20:58:25 +0000
Subject: [PATCH 58/74] fix: BocpdDetectorModel must keep looking for slow
 drifts when a threshold is given

---
 kats/detectors/bocpd_model.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/kats/detectors/bocpd_model.py b/kats/detectors/bocpd_model.py
index b871d61..5a3bc98 100644
--- a/kats/detectors/bocpd_model.py
+++ b/kats/detectors/bocpd_model.py
@@ -134,8 +134,8 @@ class BocpdDetectorModel(DetectorModel):
         else:
             if self.threshold is not None:
                 _ = bocpd_model.detector(
-                    model=BOCPDModelType.NORMAL_KNOWN_MODEL,
-                    choose_priors=True,
+                    model=BOCPDModelType.TREND_CHANGE_MODEL,
+                    choose_priors=False,
                     agg_cp=True,
                     threshold=self.threshold,
                 )
-- 
2.43.0


From 9002690f2ba89b28629447d27b9cf8cf0cbfec0b Mon Sep 17 00:00:00 2001
From: verif <a@b>
Date: Thu, 19 Nov 2026 20:59:04 +0000
Subject: [PATCH 59/74] fix: HoltWintersModel must honour the multi option of
 predict

---
 kats/models/holtwinters.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/kats/models/holtwinters.py b/kats/models/holtwinters.py
index 36b5ece..dfafb44 100644
--- a/kats/models/holtwinters.py
+++ b/kats/models/holtwinters.py
@@ -185,7 +185,7 @@ class HoltWintersModel(Model[HoltWintersParams]):
             # pyre-fixme[6]: For 1st param expected `Sized` but got
             #  `Optional[TimeSeriesData]`.
             sliding_steps = kwargs.get("sliding_steps", len(self.data) // 5)
-            multi = kwargs.get("multi", True)
+            multi = kwargs.get("multi", False)
             eci = EmpConfidenceInt(
                 error_methods=error_methods,
                 # pyre-fixme[6]: For 2nd param expected `TimeSeriesData` but got
@@ -197,7 +197,7 @@ class HoltWintersModel(Model[HoltWintersParams]):
                 sliding_steps=sliding_steps,
                 model_class=HoltWintersModel,
                 confidence_level=1 - alpha,
-                multi=False,
+                multi=multi,
             )
             logging.debug(
                 "Use EmpConfidenceInt for CI with parameters: error_methods = "
-- 
2.43.0


From b05d2d5b379efc4045b8676646d399bb74874536 Mon Sep 17 00:00:00 2001
From: verif <a@b>
Date: Thu, 19 Nov 2026 21:02:23 +0000
Subject: [PATCH 60/74] fix: StatSigDetectorModel must keep min_perc_change for
 long series

---
 kats/detectors/stat_sig_detector.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/kats/detectors/stat_sig_detector.py b/kats/detectors/stat_sig_detector.py
index 777c0ac..0851695 100644
--- a/kats/detectors/stat_sig_detector.py
+++ b/kats/detectors/stat_sig_detector.py
@@ -297,6 +297,7 @@ class StatSigDetectorModel(DetectorModel):
                 seasonal_period=self.seasonal_period,
                 skip_rescaling=True,
                 use_corrected_scores=self.use_corrected_scores,
+                min_perc_change=self.min_perc_change,
             )
             anom = ss_detect.fit_predict(data=new_data_ts)
             self._reorganize_back(anom)
-- 
2.43.0


From d1f7708a6264c0f0ec2546f2e3aefae4c8cfdab9 Mon Sep 17 00:00:00 2001
From: verif <a@b>
Date: Thu, 19 Nov 2026 21:06:51 +0000
Subject: [PATCH 61/74] fix: STDGlobalModel must decompose with its own period

---
 kats/models/globalmodel/stdmodel.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/kats/models/globalmodel/stdmodel.py b/kats/models/globalmodel/stdmodel.py
index 1aa3894..07d3ecd 100644
--- a/kats/models/globalmodel/stdmodel.py
+++ b/kats/models/globalmodel/stdmodel.py
@@ -175,7 +175,10 @@ class STDGlobalModel:
             )
         else:
             tsd = TimeSeriesDecomposition(
-                ts, decomposition=self.decomposition, method=self.decomposition_model
+                ts,
+                decomposition=self.decomposition,
+                method=self.decomposition_model,
+                period=self.period,
             )
             decomp = tsd.decomposer()
             return (decomp["seasonal"].value.values, decomp)
-- 
2.43.0


From 0905bc92b0f8fce7cfc32982008c5e3d6ab2422f Mon Sep 17 00:00:00 2001
From: verif <a@b>
Date: Thu, 19 Nov 2026 21:06:51 +0000
Subject: [PATCH 62/74] fix: KatsEnsemble.fit must use its error method for
 seasonal data too

---
 kats/models/ensemble/kats_ensemble.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/kats/models/ensemble/kats_ensemble.py b/kats/models/ensemble/kats_ensemble.py
index c8007ed..a52160b 100644
--- a/kats/models/ensemble/kats_ensemble.py
+++ b/kats/models/ensemble/kats_ensemble.py
@@ -381,6 +381,7 @@ class KatsEnsemble(Model):
                 data=desea_data,
                 models=model_params,
                 should_auto_backtest=auto_backtesting,
+                err_method=err_method,
             )
         else:
             # fit models on the original data
-- 
2.43.0


From de8593daa06a5ec3ed252b748528399187305c84 Mon Sep 17 00:00:00 2001
From: verif <a@b>
Date: Thu, 19 Nov 2026 21:14:45 +0000
Subject: [PATCH 63/74] fix: GMModel.predict must use the batch size it was
 given

---
 kats/models/globalmodel/model.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/kats/models/globalmodel/model.py b/kats/models/globalmodel/model.py
index 3009a69..0a05129 100644
--- a/kats/models/globalmodel/model.py
+++ b/kats/models/globalmodel/model.py
@@ -620,7 +620,7 @@ class GMModel:
             raise ValueError(msg)
 
         n = len(test_TSs)
-        batch_size = 500  # here we set the maximum batch_size for prediction is 1000.
+        batch_size = test_batch_size
         m = n // batch_size + (n % batch_size != 0)
         dl = GMDataLoader(test_TSs)
         self._set_nn_status("test")
-- 
2.43.0


From 445bbae8a826d74408a9512b8d8430799cd9800d Mon Sep 17 00:00:00 2001
From: verif <a@b>
Date: Thu, 19 Nov 2026 22:28:57 +0000
Subject: [PATCH 64/74] fix: DTWCPDDetector must not repeat the changepoints of
 an earlier run

---
 kats/detectors/dtwcpd.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/kats/detectors/dtwcpd.py b/kats/detectors/dtwcpd.py
index 88b5136..91dc888 100644
--- a/kats/detectors/dtwcpd.py
+++ b/kats/detectors/dtwcpd.py
@@ -151,6 +151,7 @@ class DTWCPDDetector(Detector):
         """
 
         logging.info("Starting detection...")
+        self.outliers = []
         # We first downsample the time series and only consider non-zero
         # sub-sequences to reduce the computational complexity of the problem.
         all_non_flats_ts = self._get_all_nonzero_subsequences()
-- 
2.43.0


From ac3997853cd093a9c1c065fae22e0ccf1eb01297 Mon Sep 17 00:00:00 2001
From: verif <a@b>
Date: Thu, 19 Nov 2026 22:28:57 +0000
Subject: [PATCH 65/74] fix: interval detectors must not predict with the
 intervals of earlier data

---
 kats/detectors/interval_detector.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/kats/detectors/interval_detector.py b/kats/detectors/interval_detector.py
index 62aab6f..6f24207 100644
--- a/kats/detectors/interval_detector.py
+++ b/kats/detectors/interval_detector.py
@@ -644,6 +644,9 @@ class IntervalDetectorModel(DetectorModel, ABC):
                 interval_padding=interval_padding,
                 interval_units=interval_units,
             )
+        else:
+            self.reject_intervals = None
+            self.fail_to_reject_intervals = None
 
         # Step 4: Return to user.
         if self.reject_intervals is not None:
-- 
2.43.0


From 421ec65ada106c2d61bcec9f33e505cdb2372964 Mon Sep 17 00:00:00 2001
From: verif <a@b>
Date: Thu, 19 Nov 2026 22:28:57 +0000
Subject: [PATCH 66/74] fix: BayesianVAR.predict must not add its forecasts to
 the fitted history

---
 kats/models/bayesian_var.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/kats/models/bayesian_var.py b/kats/models/bayesian_var.py
index b4da287..34429ba 100644
--- a/kats/models/bayesian_var.py
+++ b/kats/models/bayesian_var.py
@@ -414,8 +414,8 @@ class BayesianVAR(m.Model[BayesianVARParams]):
 
         if include_history:
             times = self.data.time.iloc[self.p : T].tolist()
-            forecast_vals = self.forecast_vals
-            assert forecast_vals is not None
+            assert self.forecast_vals is not None
+            forecast_vals = list(self.forecast_vals)
         else:
             times = []
             forecast_vals = []
-- 
2.43.0


From d1169cd9ee9a9bcee0ab68274d4edf0f9274532c Mon Sep 17 00:00:00 2001
From: verif <a@b>
Date: Thu, 19 Nov 2026 22:28:57 +0000
Subject: [PATCH 67/74] fix: TemporalHierarchicalModel.fit must forget the
 residuals of earlier models

---
 kats/models/reconciliation/thm.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/kats/models/reconciliation/thm.py b/kats/models/reconciliation/thm.py
index cdead82..b8e7dde 100644
--- a/kats/models/reconciliation/thm.py
+++ b/kats/models/reconciliation/thm.py
@@ -147,6 +147,8 @@ class TemporalHierarchicalModel:
         self.models = models
         self.info_fcsts = fcsts
         self.info_residuals = residuals
+        self.residuals = None
+        self.res_matrix = None
 
     def get_S(self) -> npt.NDArray:
         """Calculate S matrix.
-- 
2.43.0


From d53bf91dff27447aaab79411045dad939fa2ff33 Mon Sep 17 00:00:00 2001
From: verif <a@b>
Date: Thu, 19 Nov 2026 22:29:14 +0000
Subject: [PATCH 68/74] fix: NowcastingModel.predict must not keep the external
 model of one call

---
 kats/models/nowcasting/nowcasting.py | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/kats/models/nowcasting/nowcasting.py b/kats/models/nowcasting/nowcasting.py
index 277c63d..fab9de1 100644
--- a/kats/models/nowcasting/nowcasting.py
+++ b/kats/models/nowcasting/nowcasting.py
@@ -183,17 +183,17 @@ class NowcastingModel(m.Model):
             "Call predict() with parameters. "
             "Forecast 1 step only, kwargs:{kwargs}".format(kwargs=kwargs)
         )
-        if model:
-            self.model = model
-        if self.model is None:
+        if not model:
+            model = self.model
+        if model is None:
             raise ValueError("Call fit() before predict().")
         if df is not None:
             if "y" in self.df.columns:
-                prediction = self.model.predict(df[self.feature_names])
+                prediction = model.predict(df[self.feature_names])
             else:
                 raise Exception("External df as input has wrong format")
         else:
-            prediction = self.model.predict(self.df[-self.step :][self.feature_names])
+            prediction = model.predict(self.df[-self.step :][self.feature_names])
         return prediction
 
     def load_model(self, model_as_bytes: bytes) -> None:
-- 
2.43.0


From df624beb0ba897c36e334243aebc1f4398279e33 Mon Sep 17 00:00:00 2001
From: verif <a@b>
Date: Thu, 19 Nov 2026 23:13:40 +0000
Subject: [PATCH 69/74] fix: kats_units_forecaster must forecast the test
 periods when a gap precedes them

---
 kats/utils/backtesters.py | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/kats/utils/backtesters.py b/kats/utils/backtesters.py
index 0ba0ba9..edd0789 100644
--- a/kats/utils/backtesters.py
+++ b/kats/utils/backtesters.py
@@ -157,7 +157,14 @@ def kats_units_forecaster(
     try:
         model = model_class(data=train, params=params)
         model.fit()
-        fcst = model.predict(steps=len(test))
+        # periods between the last training and the first test observation
+        gap = 0
+        freq = pd.infer_freq(train.time) if len(train) >= 3 else None
+        if freq is not None:
+            between = pd.date_range(train.time.iloc[-1], test.time.iloc[0], freq=freq)
+            gap = max(len(between) - 2, 0)
+        fcst = model.predict(steps=gap + len(test))
+        fcst = fcst.iloc[gap:].reset_index(drop=True)
         fcst["y"] = test.value.values
         return fcst
     except Exception as e:
-- 
2.43.0


From 323c9bb090fe8aeb0c17ac5fe6a2420ca4a8dc29 Mon Sep 17 00:00:00 2001
From: verif <a@b>
Date: Fri, 20 Nov 2026 00:04:07 +0000
Subject: [PATCH 70/74] fix: STLFModel.predict must keep the seasonal cycle in
 phase when history is included

---
 kats/models/stlf.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/kats/models/stlf.py b/kats/models/stlf.py
index 7ff9580..ff5892a 100644
--- a/kats/models/stlf.py
+++ b/kats/models/stlf.py
@@ -347,6 +347,9 @@ class STLFModel(Model[STLFParams]):
         rep = math.trunc(1 + fcst.shape[0] / m)
 
         seasonality = decomp["seasonal"].value[-m:]
+        if include_history:
+            # the forecast starts at the first observation, not after the last
+            seasonality = np.roll(seasonality, self.n)
 
         self.y_fcst = self.reseasonal_operator(
             # pyre-fixme[6]: For 2nd argument expected `Union[DataFrame, Series]`
-- 
2.43.0


From 15ed907d25038fc2e8801adfb041ce11f36c1bde Mon Sep 17 00:00:00 2001
From: verif <a@b>
Date: Fri, 20 Nov 2026 00:20:53 +0000
Subject: [PATCH 71/74] fix: median and weighted average ensembles must
 forecast at the frequency of the data

---
 kats/models/ensemble/median_ensemble.py       | 2 +-
 kats/models/ensemble/weighted_avg_ensemble.py | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/kats/models/ensemble/median_ensemble.py b/kats/models/ensemble/median_ensemble.py
index 90efa91..6c30861 100644
--- a/kats/models/ensemble/median_ensemble.py
+++ b/kats/models/ensemble/median_ensemble.py
@@ -64,7 +64,7 @@ class MedianEnsembleModel(ensemble.BaseEnsemble):
             )
         )
         # Keep freq in the parameters passed to _predict_all()
-        self.freq = freq = kwargs.get("freq", "D")
+        self.freq = freq = kwargs.get("freq", pd.infer_freq(self.data.time) or "D")
         pred_dict = self._predict_all(steps, **kwargs)
 
         fcst_all = pd.concat(
diff --git a/kats/models/ensemble/weighted_avg_ensemble.py b/kats/models/ensemble/weighted_avg_ensemble.py
index 1a8731a..5fb9181 100644
--- a/kats/models/ensemble/weighted_avg_ensemble.py
+++ b/kats/models/ensemble/weighted_avg_ensemble.py
@@ -136,7 +136,7 @@ class WeightedAvgEnsemble(ensemble.BaseEnsemble):
             forecasting results as in pd.DataFrame
         """
         # keep these in kwargs to pass to _predict_all.
-        self.freq = freq = kwargs.get("freq", "D")
+        self.freq = freq = kwargs.get("freq", pd.infer_freq(self.data.time) or "D")
         err_method = kwargs.get("err_method", "mape")
         # calculate the weights
         self._backtester_all(err_method=err_method)
-- 
2.43.0


From d7c83841d4ea1595eb2089fd0b525532c761b0cf Mon Sep 17 00:00:00 2001
From: verif <a@b>
Date: Fri, 20 Nov 2026 00:30:20 +0000
Subject: [PATCH 72/74] fix: ProphetModel.predict must cover every step when
 history with missing values is included

---
 kats/models/prophet.py | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/kats/models/prophet.py b/kats/models/prophet.py
index 858fb14..a5ee770 100644
--- a/kats/models/prophet.py
+++ b/kats/models/prophet.py
@@ -357,9 +357,8 @@ class ProphetModel(Model[ProphetParams]):
             else:
                 future = future[future.ds > self.data.time.max()]
 
-            reqd_length = steps + int(
-                self.data.value.notnull().sum() * self.include_history
-            )
+            # dates of missing values are part of the history, too
+            reqd_length = steps + int((future.ds <= self.data.time.max()).sum())
             if len(future) < reqd_length:
                 msg = f"Input `future` is not long enough to generate forecasts of {steps} steps."
                 _error_msg(msg)
-- 
2.43.0


From bc80e10d95de8742b9e5f305328e6a79b322f584 Mon Sep 17 00:00:00 2001
From: verif <a@b>
Date: Fri, 20 Nov 2026 00:43:35 +0000
Subject: [PATCH 73/74] fix: KatsEnsemble must remove a seasonality of the
 length it puts back

---
 kats/models/ensemble/kats_ensemble.py | 12 ++++++++++--
 1 file changed, 10 insertions(+), 2 deletions(-)

diff --git a/kats/models/ensemble/kats_ensemble.py b/kats/models/ensemble/kats_ensemble.py
index a52160b..afa18d5 100644
--- a/kats/models/ensemble/kats_ensemble.py
+++ b/kats/models/ensemble/kats_ensemble.py
@@ -163,7 +163,9 @@ class KatsEnsemble(Model):
 
     @staticmethod
     def deseasonalize(
-        data: TimeSeriesData, decomposition_method: str
+        data: TimeSeriesData,
+        decomposition_method: str,
+        seasonality_length: Optional[int] = None,
     ) -> Tuple[TimeSeriesData, TimeSeriesData]:
         """STL decomposition to given TimeSeriesData
 
@@ -172,12 +174,16 @@ class KatsEnsemble(Model):
         Args:
             data: :class:`kats.consts.TimeSeriesData`, input time series data
             decomposition_method: the specific method for decomposition
+            seasonality_length: the length of seasonality, inferred from the
+                frequency of the data if None
 
         Returns:
             Tuple of seasonal data and de-seasonalized data
         """
         # create decomposer for time series decomposition
-        decomposer = TimeSeriesDecomposition(data, decomposition_method)
+        decomposer = TimeSeriesDecomposition(
+            data, decomposition_method, period=seasonality_length
+        )
         decomp = decomposer.decomposer()
 
         sea_data = copy(decomp["seasonal"])
@@ -364,6 +370,7 @@ class KatsEnsemble(Model):
                 # pyrefly: ignore [bad-argument-type]
                 self.data,
                 self.decomposition_method,
+                self.params["seasonality_length"],
             )
             self.sea_data = sea_data
             self.desea_data = desea_data
@@ -494,6 +501,7 @@ class KatsEnsemble(Model):
                 # pyrefly: ignore [bad-argument-type]
                 self.data,
                 self.decomposition_method,
+                self.params["seasonality_length"],
             )
             self.sea_data = sea_data
             self.desea_data = desea_data
-- 
2.43.0


From e8ecfa1affd6576cd7968265e415220770e2c903 Mon Sep 17 00:00:00 2001
From: verif <a@b>
Date: Fri, 20 Nov 2026 01:05:50 +0000
Subject: [PATCH 74/74] fix: parallel chains of the ensemble prediction
 interval draw independent errors

---
 kats/utils/ensemble_predict_interval.py | 15 +++++++++++++--
 1 file changed, 13 insertions(+), 2 deletions(-)

diff --git a/kats/utils/ensemble_predict_interval.py b/kats/utils/ensemble_predict_interval.py
index 970be60..9c3fcea 100644
--- a/kats/utils/ensemble_predict_interval.py
+++ b/kats/utils/ensemble_predict_interval.py
@@ -224,11 +224,17 @@ class ensemble_predict_interval:
         self.error_matrix_flag = True
 
     def _projection_single(
-        self, idx: int, step: int = 30, rolling_based: bool = False
+        self,
+        idx: int,
+        step: int = 30,
+        rolling_based: bool = False,
+        random_seed: Optional[int] = None,
     ) -> Tuple[int, npt.NDArray]:
         """
         Get forecasting for future steps for one chain.
         """
+        if random_seed is not None:
+            np.random.seed(random_seed)
         future_block = step // self.block_size + int(step % self.block_size > 0)
 
         onechain_fcst = np.zeros(future_block * self.block_size)
@@ -289,7 +295,12 @@ class ensemble_predict_interval:
         ensemble_fcst = np.zeros([self.ensemble_size, step])
         if self.multiprocessing:
             num_process = max(min(self.ensemble_size, (cpu_count() - 1) // 2), 1)
-            ipt_list = [[i, step, rolling_based] for i in range(self.ensemble_size)]
+            # forked workers inherit one and the same random state: each chain
+            # needs a seed of its own
+            rds = np.random.randint(1, 2**31 - 1, self.ensemble_size)
+            ipt_list = [
+                [i, step, rolling_based, rds[i]] for i in range(self.ensemble_size)
+            ]
             with Pool(processes=num_process) as pool:
                 records = pool.starmap(self._projection_single, ipt_list)
                 pool.close()
-- 
2.43.0

