TODO = "The check for this property is not built yet."

prop("S01", "Calls never modify the objects the caller passes in",
     "No public function, constructor or method changes the contents of an object its caller passed in: time series, data frames, arrays, lists, dictionaries and parameter objects hold after the call exactly what they held before. This includes objects handed over at construction and used by a later call such as fit or predict. The only exceptions are documented output arguments, the steps a pipeline drives, and anomaly responses, which own their series.",
     ["inputs", "histories"], "every public entry point, every argument value and every later call on the receiving object",
     "Tests compare results, hardly ever the inputs after the call; an in-place write shows only when the caller reuses the object, in whatever order it pleases.",
     ["kats/consts.py", "kats/models", "kats/detectors", "kats/utils", "kats/tsfeatures", "kats/metrics"],
     [("defensive copies", "copy()/deepcopy() of series, frames and params in constructors and fit/predict")],
     "interprocedural alias and effect analysis on the syntax tree",
     "Flow-sensitive alias/effect summaries of every function to a fixpoint; sound up to the listed table of in-place external operations and unresolved dynamic calls, so it can miss, and reports only writes it can trace to a caller's object.")

prop("S02", "Using an object never changes the configuration it was built with",
     "After construction, no method of a model, detector, transformer or other library object rewrites the options it was constructed with, nor the contents of a parameter object it holds: fit, predict, plotting, evaluating and serializing leave them as they were, so that a second use, on the same or on different data, runs under the configuration the user chose. Setters and search steps whose purpose is to change an option are the exception, as are options documented to be filled in when left at None.",
     ["inputs", "histories"], "every method of every public class, every history of calls on one object",
     "Tests build a fresh object per case, so a configuration rewritten by the first use is never consulted again; it takes a second call with other data to show.",
     ["kats/models", "kats/detectors", "kats/utils", "kats/tsfeatures"],
     [("constructor-held options", "attributes assigned from constructor parameters, and the params objects models hold")],
     "interprocedural effect analysis on the syntax tree",
     "Effect summaries of every method to a fixpoint decide which constructor-supplied attributes it may rebind or mutate; reviewed exceptions are listed with their reason. Dynamic calls that cannot be resolved are not followed.")

prop("S05", "A detected error is raised to the caller, never built and dropped",
     "Wherever the library detects an invalid argument, unusable data or a wrong order of calls and composes the error for it, the caller receives that error as an exception. It is never only logged, asserted as an object, built without being raised, or absorbed by a new catch-all handler so that the call carries on.",
     ["inputs", "histories"], "every input and call order that reaches a point where the code has already recognised an error",
     "Error branches are mostly unreached by tests; a forgotten raise leaves every test on valid input green.",
     ["kats"], [("raise statements, error helpers, noreturn helpers", "kats/consts.py _log_error, kats/utils/datapartition.py _raise_error, raise sites across kats")],
     "exit-path and liveness analysis of error construction",
     "Decides for every function that exceptions and error messages it composes flow to a raise (exits of the following statements, liveness, always-raising helpers) and that the number of reviewed absorbing handlers does not grow. Guards that are removed altogether, message included, are not its business.")

prop("S06", "A step taken before the step it depends on is refused",
     "A method that needs the outcome of an earlier call - predict before fit, plot before predict, asking a backtester for errors before it ran, saving or evaluating a global model or meta-learner before it was trained, reading a change-point detector's probabilities before detection - raises an error composed on purpose when it is called on a freshly constructed object, whatever the constructor's arguments and the method's optional arguments, unless an argument supplies the missing outcome; it neither returns nor fails by accident on a missing attribute or a None. Once the earlier call was made, the method is not refused for that reason.",
     ["inputs", "histories"], "every constructor argument of every class with such a dependent method",
     "Tests call methods in the right order; the wrong order is tried for few models, and a guard that no longer fires is invisible to all other tests.",
     ["kats/models", "kats/detectors", "kats/utils"],
     [("guards on fitted state", "`if self.model is None: raise ...` in predict/plot/save_model/get_error_value and the like")],
     "disjunctive abstract interpretation of construct-then-call sequences",
     "Every path of construction followed by the dependent method is interpreted over abstract values; each must end in an explicit raise. Covers the 86 (class, method) pairs listed in the rule; external calls are opaque.")

prop("S11", "Illegal option values are refused and legal ones accepted",
     "An option given a value outside its documented range or set of choices - a fraction beyond 0 and 1, a window or fold count that is not positive, an unknown method or metric name, a contradictory combination of options - is refused with an error composed for it, at the call that received it, whatever the other options are. The boundary values and choices that are documented as legal are accepted.",
     ["inputs", "configurations"], "every value of every validated option and every combination with other options",
     "Tests try one or two illegal values for few options and defaults for the rest; an off-by-one bound, a swapped conjunction or a removed choice leaves them green.",
     ["kats/models", "kats/detectors", "kats/utils", "kats/consts.py", "kats/tsfeatures", "kats/metrics"],
     [("validation of options", "validate_params, constructors, and entry guards of methods")],
     "disjunctive abstract interpretation over intervals and string classes",
     "Each reviewed (callable, option, value class) and combination is interpreted on the current source over intervals, literals and 'any other string'; refuse means every abstract path ends in an explicit raise, accept that some path returns. The table of legal and illegal values (sa/data) was reviewed by hand; external calls are opaque.")

prop("S21", "Series an algorithm cannot handle are refused, others are not",
     "A univariate-only model, detector or transformer given a multivariate series, a multivariate-only one given a univariate series, and an algorithm with a minimum length given an empty or too short series, refuse it with an error composed for it instead of computing on it. A series of the supported kind is not refused.",
     ["inputs"], "every series of an unsupported kind, whatever its values and the other arguments",
     "Tests pass supported series; the few that pass unsupported ones cover a handful of classes.",
     ["kats/models", "kats/detectors", "kats/utils", "kats/tsfeatures"],
     [("data checks", "is_univariate()/len(data)/isinstance(data.value, ...) guards in constructors and methods")],
     "disjunctive abstract interpretation over abstract series",
     "Same engine as S11 with abstract series (kind of value, range of lengths) in place of option values. Covers the reviewed table of callables only; external calls are opaque.")

prop("S07", "A forecast covers exactly the periods asked for",
     "A fitted forecasting model asked to predict a number of steps returns exactly that many periods, the ones right after its last observation in order, preceded by the periods of its data when history is included. Every forecast value and bound in the result belongs to the period in its row, seasonal patterns included, and the periods follow the frequency of the data, or the one the caller asked for.",
     ["inputs", "configurations"], "every length of the series and every number of steps, with and without history, with and without a frequency, per model and model option",
     "Tests forecast a few horizons and compare stored numbers; a forecast shifted by one period, an odd horizon (a single step, a fraction of a season) or history out of phase passes unnoticed.",
     ["kats/models"],
     [("predict methods", "linear_model.py, quadratic_model.py, holtwinters.py, theta.py, arima.py, sarima.py, var.py, simple_heuristic_model.py, stlf.py, prophet.py, lstm.py"),
      ("ensembles", "ensemble/median_ensemble.py and ensemble/weighted_avg_ensemble.py predict")],
     "abstract interpretation with symbolic positions (polynomial bounds, Fourier-Motzkin)",
     "Series are stretches of one time axis without missing periods (Prophet is also followed with missing values); statsmodels and prophet are taken to forecast the positions their interface promises. What data lead a library to compute is out of reach, as are models not listed (Bayesian VAR, global models, nowcasting). An inequality neither proved nor refuted is left open.")

prop("S09", "A backtest never shows a model the data it is scored on",
     "In every fold of a backtest, cross validation or data partition the training data end before the test data begin, both lie inside the series, the model is trained on exactly the training data, and its forecasts are scored against the observations of the same periods, also when a gap between training and test data is asked for. The number of folds, the gap and the sizes of the parts are those asked for, and the last of several folds tests the last observations.",
     ["inputs", "configurations"], "every length of the series, every percentage, fraction, size or timestamp, one to three folds (four in the thorough tier), sequential and parallel",
     "Tests use a few lengths and percentages where rounding, gaps and uneven folds come out harmless; a leak of one observation changes an error by little and no test compares periods.",
     ["kats/utils", "kats/models"],
     [("folds", "backtesters.py _create_train_test_splits/_create_model, datapartition.py _single_train_test_split, kats_units_forecaster"),
      ("other evaluations", "GetMetaData, ensemble_predict_interval, GMBackTester, GMBackTesterExpandingWindow, ensembles' _backtester_single")],
     "abstract interpretation with symbolic positions (polynomial bounds, Fourier-Motzkin)",
     "Series are stretches of one time axis without missing periods; a model's forecast is taken to cover the periods after its training data. An inequality neither proved nor refuted is left open (none is on the current tree). KatsSimpleBacktester's and the ensembles' error values themselves are not judged.")

prop("S17", "Feature extraction returns exactly the features asked for",
     "Extracting time series features returns, for each series, exactly the advertised names that were selected: every feature and every feature group named in the selection or left on by default, none that was not selected or was switched off, and no name that is not advertised. The set of names depends only on the selection, not on the values or length of the series nor on whether a detector behind a group fails.",
     ["inputs", "configurations"], "every selection of features and groups, every series of at least the minimum length",
     "Tests run a few selections on a few series; a name lost when a detector fails or finds nothing, or a selection that leaks its group, needs a particular combination.",
     ["kats/tsfeatures/tsfeatures.py"],
     [("selection and final filter", "TsFeatures.__init__, _compute_final_filter, transform"), ("calculators", "TsFeatures.get_*")],
     "disjunctive abstract interpretation tracking dictionary key sets",
     "Every calculator is interpreted (detectors inlined) for each switched-off and each single feature; construction and transform are interpreted with calculators under that contract for 516 selections. The values of the features are not judged.")

prop("S23", "Objects and calls never influence each other through hidden state",
     "Two objects of the same class, and two calls of the same function, do not influence each other: nothing a library call does modifies a module-level table, a class-level container, a cached result or a default argument, and an object's own state is never really one shared by all objects of its class. Creating or using one object leaves the behaviour of every other object as it was. The registry that detector classes enter at import is the exception.",
     ["histories"], "every sequence of constructions and calls on any number of objects in one process",
     "Tests use one object at a time and rarely use an object again after a differently configured one was created.",
     ["kats"], [("shared objects", "module-level tables, class-level attributes, default arguments, cached functions")],
     "interprocedural alias and effect analysis on the syntax tree",
     "Effect summaries with module-level, class-level, cached and default-argument objects followed under every name they are reached by. State inside external libraries is not covered.")

prop("S12", "A package that is not installed only takes away what needs it",
     "When an optional dependency (torch, ax, nevergrad, prophet, plotly, pymannkendall, numba and the like) is missing, `import kats` and every module that does not need it still import, and the functions and classes that do need it refuse with an error composed for it rather than failing on a name that was never bound. With everything installed, every module of the library can be imported in any order after the package itself, and every module-level name its functions use exists.",
     ["configurations"], "every subset of optional packages that misses none, one or all of them; every module; every function",
     "Tests run in one environment with one set of packages; a dependency that became mandatory, or a guard that no longer fires, shows only where the package is missing.",
     ["kats"], [("guarded imports", "try/except ImportError blocks in package __init__ files, bocpd.py, trend_mk.py, plots.py, prophet.py"), ("refusals", "`if _no_x: raise` guards")],
     "import simulation and guarded-use analysis on the syntax tree",
     "Module bodies are followed statement by statement under 12 sets of missing packages, then every public function is walked for names lost with them. Which modules need which package is a reviewed table; two modules that can never be imported are known findings.")

prop("S13", "The process is left as it was: settings, streams, workers and files",
     "Importing the library or calling it leaves the settings shared by the whole process as they were: numpy error handling, warning filters, pandas and plotting options, root and third-party loggers, environment, working directory, thread counts and standard streams; what is switched for the duration of a call is switched back on every path, errors included, and the random generator is re-seeded only with a seed the caller gave. Every worker pool, file and descriptor a call opens is released on every path, including when a worker fails, and a worker's failure is not lost.",
     ["inputs", "histories"], "every call, whether it returns or raises, in every worker and every file it opens",
     "A leaked pool or a changed setting leaves the result of the call right; only unrelated code run later in the same process notices, and mostly after an error.",
     ["kats/utils", "kats/models", "kats/detectors", "kats/metrics"],
     [("pools and files", "Pool(...) in models, globalmodel, backtesters, datapartition, tuning; open() in save and load"),
      ("settings", "np.errstate, warnings.catch_warnings, option_context; SilentStdoutStderr in prophet_detector.py")],
     "resource and restore-on-every-path analysis on a control-flow graph with exception edges",
     "Each change of a process-wide setting (table of external setters and of attributes of imported modules) and each acquisition is followed along all paths of its function, through finally blocks and one level of helpers; settings changed inside external libraries are not seen. One plotting method of a module that cannot be imported is a known finding.")

prop("S22", "Work done in parallel gives what doing it in sequence gives",
     "Where the library spreads work over worker processes or threads - fitting and backtesting ensembles and global models, folds, partitions, prediction-interval chains, parameter trials - the result of each item is attributed to that item, in the order of the items, and whatever a worker has to hand back reaches the caller: nothing the caller reads afterwards stays behind in a worker's own copy of an object, and threads do not mix up items through an object they share. Worker processes that draw random numbers do not all draw the same ones, and the options of the call are the same on the parallel and on the serial path.",
     ["inputs", "schedules"], "every number of items and workers and every order in which workers finish",
     "Tests run few items with the serial path or compare shapes; the order in which workers finish and what a forked copy loses differ from run to run and machine to machine.",
     ["kats/models", "kats/utils"],
     [("pools", "ensemble.py, kats_ensemble.py, weighted_avg_ensemble.py, globalmodel/{ensemble,backtester,stdmodel}.py, get_metadata.py, backtesters.py, datapartition.py, ensemble_predict_interval.py, time_series_parameter_tuning.py")],
     "interprocedural worker-effect and call-agreement analysis on the syntax tree",
     "Every place that hands work to a pool is found and its worker followed through the methods of its object, under what is known of the flags that guard the place. Workers that are callables supplied by the user are not followed, nor are effects inside external libraries.")

prop("S03", "What is saved is what is restored",
     "A detector model restored from its serialized state behaves with the options it was saved with: each option that its serialized form carries or its constructor accepts comes back with the value it had, under its own name, and writing and restoring do not fail. The same holds for global models, their parameters and ensembles written to a file or to JSON and loaded again, network weights included, and for the trained models behind save_model and load_model.",
     ["configurations", "histories"], "every combination of option values, every serializable class",
     "Tests serialize a few detectors with default options; an option left out of the serialized form, or read back under another name, shows only when it differs from its default. Global models cannot be tested here at all.",
     ["kats/detectors", "kats/models/globalmodel", "kats/models/nowcasting", "kats/models/metalearner"],
     [("serialized state", "DetectorModel.serialize and constructors taking serialized_model"), ("global models", "globalmodel/serialize.py, GMParam.to_string, save_model and load functions")],
     "abstract interpretation of save followed by restore with identity-carrying option values",
     "Every serializable detector, GMParam, GMModel and GMEnsemble (recurrent and sequence-to-sequence, minimal and full options) and the save_model/load_model classes are interpreted; json, joblib, pickle, prophet.serialize and state dictionaries are taken to invert themselves. Prophet based detectors are documented to store only the fitted model, so only that is compared.")

prop("S24", "The library's own code fits together on every branch",
     "No branch of the library fails for want of itself: every call of one of its own functions or constructors passes arguments the callee accepts, every name, local variable and attribute of its own objects that a branch reads exists by then, every function that promises a result returns one whichever way it ends, and results are unpacked and messages composed with the right number of parts.",
     ["inputs", "configurations"], "every function of the library, every branch of it, including those that need optional packages, rare options or failing data",
     "A misfit on a branch no test reaches - deep-learning models without torch installed, error messages, rare option combinations - passes every test; it surfaces as TypeError, NameError, AttributeError or UnboundLocalError in production.",
     ["kats"], [("calls, names, attributes, results", "every function and constructor of kats")],
     "call binding, definite assignment and attribute resolution on the syntax tree and control-flow graph",
     "Each call, local, attribute read, promised result, unpacking and format string that can be resolved statically is decided on the current source; paths are correlated through repeated tests, constants and value choices. Loops are taken to run at least once; values of unknown type are not judged.")

prop("S04", "No option is silently ignored",
     "An option a caller can set - a parameter of a public function, method or constructor, or a keyword a method looks up among its extra arguments - takes effect: it reaches the computation, a decision or the code it is meant for, and not merely a check, a log message or an attribute nobody reads. Where a call hands the work on to another function that has the same option, the caller's value goes with it, and so does the confidence or significance level where an interval or a test is computed by a library.",
     ["configurations"], "every option of every public function, method, constructor and options record, on every branch that hands the work on",
     "Tests set few options away from their defaults, and with the default an option that is dropped on the way gives the expected result.",
     ["kats"], [("options and the calls that pass them on", "parameters of kats functions, Params classes, calls inside kats")],
     "forward slicing of every option over the syntax tree and call graph",
     "Forward slice of each option through locals, attributes and calls, plus a per-call comparison of options the callee takes under the same name; an argument given to code outside kats counts as an effect, so how that code uses it is out of reach. Reviewed interface parameters are exempt, with reasons.")

prop("S10", "Lower bounds are the lower ones, upper bounds the upper ones",
     "Every interval the library reports - forecast bounds, confidence bands of anomaly responses, change-ratio and test intervals, empirical and ensemble prediction intervals - carries the bound below the centre under the name lower and the bound above it under the name upper, whatever the confidence level and whether history is included; the forecast itself is the central value. Copying, slicing, extending, averaging or re-seasonalizing intervals never exchanges the two.",
     ["inputs"], "every data set, confidence level and option; every path on which an interval is built or handed on",
     "Tests look at few numbers of one configuration; a bound taken from the wrong side on another path (history, a fallback, a concatenation) has plausible values.",
     ["kats/models", "kats/detectors", "kats/utils/emp_confidence_int.py", "kats/utils/ensemble_predict_interval.py"],
     [("interval construction", "fcst_lower / fcst_upper columns, ConfidenceBand, PercentageChange, ABTestResult")],
     "interprocedural side-of-centre dataflow on the syntax tree",
     "Tracks on which side of the centre a value lies from quantile levels, normal and t scores, margins and names to every place named lower or upper; a value whose side cannot be derived is not reported, so offsets of the wrong size or bounds equal to the centre are missed.")

prop("S14", "Running a step again is not influenced by its earlier runs",
     "Running a step of an object again - fit, predict, detector, run_backtest, decomposition, evaluation, plotting - gives what the same call on a fresh object in the same position gives: results of an earlier run are neither added to, nor left in place where the new run did not set them, and what was computed once and kept is recomputed when the fit it came from is repeated. State that is documented to accumulate - incremental detectors, online models, searches, builders, responses that are extended - is the exception.",
     ["histories"], "every public method of every class, every sequence of calls on one object",
     "Tests build one object per case and call each step once; results that pile up or survive show only on the second call.",
     ["kats/models", "kats/detectors", "kats/utils", "kats/tsfeatures"],
     [("steps that can be repeated", "fit, predict, detector, run_backtest and the helpers that reset or extend the attributes they leave")],
     "upward-exposed-read and must-write analysis of object attributes",
     "Per method: attributes read before they are surely written and also changed; attributes a step writes on some paths only and others read; caches whose inputs are replaced. State meant to be kept is a reviewed table. Sub-objects an attribute refers to are not followed beyond their container operations.")
