D = {}
D["S01"] = """
* **Decides**: for each of ~870 public functions, constructors and methods and ~2000 parameters, whether any store, in-place
  pandas/numpy operation, container mutation or augmented assignment may hit an object reachable from the argument, in this call
  or in a later one on the receiver that kept the object.
* **How**: `sa/effects.py` computes per function the set of symbolic locations it writes (`p`, `p.value`, `p.items[]`, attribute
  chains) with object / view / shallow-copy modes, and propagates summaries over the call graph to a fixpoint. Fresh objects
  (copies, slices that copy, constructors) are locations of their own; a constructor that keeps a parameter makes `self.x` an
  alias of it, so a write in `fit` to `self.x` counts against the constructor's parameter.
* **Oracle**: a write to a location that starts at a parameter, outside the reviewed list (documented output arguments, pipeline
  steps, responses that own their series).
* **Reach**: all paths and all histories, which tests do not sample since they look at results and not at inputs afterwards.
* **Misses**: writes inside external code not in the table of in-place operations, and unresolved dynamic calls. ~9 s.
* **Found**: 13 defects, all repaired.
"""
D["S02"] = """
* **Decides**: for every class whose constructor computes attributes from its own parameters (130 classes, 730 attributes) that no
  public method rebinds such an attribute or modifies the parameter object it holds, however deep in helpers.
* **How**: the effect summaries of S01, joined with the table "attribute <- constructor parameters" derived from each constructor
  (setter-backed names included). Setters and search steps, and values documented to be filled in when None, are reviewed exceptions.
* **Reach**: the second use of an object under other data, which tests with one object per case never perform. ~8 s.
* **Open**: `decomposer()` dispatches through an attribute that holds a bound method chosen at construction; that call is not resolved.
* **Found**: 5 repaired, 2 recorded (Simulator length).
"""
D["S03"] = """
* **Decides**: 20 serializable detector classes, the global model records (GMParam, GMModel, GMEnsemble; recurrent and
  sequence-to-sequence; minimal and full options) and the save/load pairs of meta-learners and nowcasting models.
* **How**: the abstract interpreter constructs the object with option values that carry an identity (each different from every
  default and from each other), runs the saver, hands the resulting abstract JSON value to the restoring constructor and compares the
  attributes of both objects by identity. A missing key, a key read back under another name, a swapped pair, a value that cannot be
  serialized, an exception on the way are all violations.
* **Assumes** json, joblib, pickle, prophet.serialize and state dictionaries invert themselves.
* **Reach**: all option combinations at once, since values are symbolic; global models cannot even be imported here. ~40 s.
* **Found**: 4 repaired, 4 recorded.
"""
D["S04"] = """
* **Decides**: 1750 parameters of public callables, 48 fields of option records, 100 keys read from `**kwargs`.
* **How**: forward slice of each option through locals, attributes, containers, keyword dictionaries and calls: it must reach a
  result, a decision with two different sides, an external call, or an option that itself has an effect. Separately: at each call
  of a library function that has an option of the same name with an effect, the caller's value must be handed on (370 calls);
  library computations of intervals and tests must be given the level (8 calls); functions called in several places with a helper's
  option given in all but one are reported.
* **Misses**: an option used for the wrong purpose; one only compared with None and then dropped; how external code uses it.
* **Reach**: with the default value an ignored option is invisible. ~45 s. **Found**: 13 repaired, 18 recorded.
"""
D["S05"] = """
* **Decides**: every function: error objects built and dropped, messages composed and never used, error-level log records after
  which the function can complete, new broad handlers that absorb, confirmed error messages that no longer take part in a raise,
  raising something that is no exception.
* **How**: always-raising helpers and exits of statement lists (`sa/flow.py`), backward liveness for messages, def-use of exception
  objects, counts of reviewed absorbing handlers per module.
* **Misses**: guards removed together with their message (S11, S21, S06 cover the reviewed ones). ~4 s. **Found**: 6 repaired.
"""
D["S06"] = """
* **Decides**: 86 (class, dependent method) pairs: predict/plot/serialize/report before fit, run, train.
* **How**: the interpreter constructs the object with unknown arguments and calls the method at once, once with defaults and once
  per optional argument given; every path must end in an error raised on purpose. With the earlier step interpreted first, a
  returning path must exist (the guard does not refuse everything).
* **Reach**: wrong call orders under all arguments. **Misses**: classes not in the table; undecided pairs are counted in the evidence. ~12 s.
* **Found**: 6 repaired.
"""
D["S10"] = """
* **Decides**: 197 places where a column, keyword, attribute, parameter or result is named lower or upper (or is the forecast that
  goes with them); the side of 115 of them can be derived on the current tree.
* **How**: dataflow over values with the side of the centre: L, U, centre, signed margins, numeric ranges of confidence levels, string
  keys, frames and tuples; sources are quantiles, normal and t scores, centre plus/minus margin, statsmodels interval triples and
  names; project functions are entered with the actual values. A definite contradiction is a violation, anything unknown is not.
* **Reach**: history, fall-back and concatenation branches whose numbers look plausible. **Misses**: wrong widths. ~10 s.
"""
D["S11"] = """
* **Decides**: 680 illegal values to be refused and 530 legal ones to be accepted (fractions, counts, choices, combinations) of ~190
  callables, from a table reviewed against the documentation.
* **How**: abstract interpretation of the callable with the parameter bound to an open interval, a boundary constant, or "a string
  equal to no literal"; refuse = every path ends in an explicit raise, accept = some path returns.
* **Reach**: whole intervals of values and all values of the other options, not two samples. ~60 s.
* **Found**: 6 repaired.
"""
D["S12"] = """
* **Decides**: 101 modules x 12 sets of missing packages: which modules import, which names are lost, which functions reach a lost
  name before a guard that raises; with all packages, that every import and module-level name exists.
* **How**: `sa/importsim.py` follows module bodies (try/except ImportError, conditional definitions, re-exports, cycles).
* **Reach**: environments that do not exist in the sandbox. ~14 s. **Found**: 2 recorded.
"""
D["S13"] = """
* **Decides**: every change of a process-wide setting and every acquisition of a pool, file or descriptor.
* **How**: tables of setters, restoring contexts and acquisitions; paths of the control-flow graph with exception edges; one level of
  helpers; a worker pool must be joined or terminated and its results collected on every path.
* **Misses**: settings changed inside external code. ~8 s. **Found**: 6 repaired, 2 recorded.
"""
D["S14"] = """
* **Decides**: every public method of 161 classes (563 methods): (1) attributes read before the method has surely written them and
  which it also changes; (2) attributes a step such as fit writes on some paths only while another method reads them; (3) values computed
  once and kept whose inputs a later fit replaces.
* **How**: upward-exposed reads and must-writes per method with `self`-calls, `super()` and properties entered, flow-sensitive aliases of
  attribute objects, conditions on unchanged attributes correlated. State meant to be kept (online models, searches, builders, caches over data
  fixed at construction) is a reviewed table of 38 entries.
* **Reach**: second calls, which tests do not make. **Misses**: state in sub-objects. ~6 s. **Found**: 6 repaired, 10 recorded.
"""
D["S17"] = """
* **Decides**: the set of names each of the feature calculators returns (183 choices of switched-off and single features), and
  the set construction + transform return for 516 selections.
* **How**: the interpreter tracks dictionary key sets; detectors behind a group are inlined in part A and replaced by their contract in B.
* **Reach**: failing detectors, empty results, every selection. ~25 s.
"""
D["S21"] = """
* **Decides**: 60 (callable, series kind) pairs to be refused and 43 to be accepted; same engine as S11 with abstract series
  (univariate / multivariate, range of lengths). ~15 s.
"""
D["S23"] = """
* **Decides**: 1318 functions against 47 module-level objects, 15 class-level mutable attributes, 18 mutable defaults and cached results:
  none is modified or rebound by a call; nothing modified through `self` is shared by the class.
* **How**: effect summaries of S01 with those objects as locations under every name they are reached by. ~9 s. **Found**: 1 repaired.
"""
D["S24"] = """
* **Decides**: call binding (arguments against the callee's signature), unpacking against the number of parts returned, definite
  assignment of locals, existence of names and of attributes of the library's own objects, promised results on every way out,
  format strings.
* **How**: project model + control-flow graph; path correlation through repeated tests, constants and value choices; loops are
  taken to run at least once. Values of unknown type are not judged.
* **Reach**: branches behind missing packages and rare options. ~20 s. **Found**: 1 repaired, 2 recorded.
"""

D["S07"] = """
* **Decides**: the periods of the time column and of every value column of `predict(steps, include_history, freq)` for twelve models and
  ensembles (KatsEnsemble's predict and forecast with aggregate among them) under 125 combinations of method, season and options; that a
  repeated seasonal cycle is laid in phase and has the length of the one removed; that dates are generated with the frequency of the data or
  the one asked for; that a one-row design matrix keeps its constant; that blocks of past periods end at the last observation.
* **How**: constructor, fit and predict are interpreted (the machinery of S09) with N observations and `steps` unknown; library models answer
  with stretches of positions (`forecast(n)` = [N, N + n), `predict(a, b)` = [a, b + 1), one value per row of a design matrix), numbers read
  off the data are unknown and never needed. Bounds of the resulting columns are compared with [N, N + steps) or [0, N + steps); a refutation
  names sizes.
* **Reach**: every length and horizon; tests hold a handful of stored forecasts. Prophet is also followed with missing values.
  **Misses**: what a library computes, missing periods, LSTM values, Bayesian VAR and global models. ~5 s. **Found**: 5 repaired (linear and
  quadratic models failed for one step, seasonal history of STLF out of phase, ensembles dated daily, Prophet short of steps when values are
  missing, KatsEnsemble removing another cycle than it puts back), 2 recorded (HoltWinters with alpha dates daily, Theta removes the cycle
  of the frequency instead of `m`; stored test numbers rest on both).
"""

D["S09"] = """
* **Decides**: order, size and period of the training part, test part and forecast of every fold, for 100 combinations of class, option and
  fold count: all backtesters, CrossValidation, the data partitions (single series, dictionary, inside KatsSimpleBacktester), GetMetaData,
  the block errors of ensemble_predict_interval, the ensembles' backtests and both global-model backtesters.
* **How**: the library code is interpreted with a series of unknown length N and unknown percentages. Integers are polynomials over sizes,
  `floor`, `//`, `linspace` and `array_split` leave linear facts, slices and date masks become stretches [lo, hi), branches collect facts.
  An obligation is proved by Fourier-Motzkin elimination, or refuted by sizes that satisfy every fact of the path under the definitions of
  the derived sizes; paths with a condition that could not be read are never used to refute. 8,600 obligations, all proved, none open.
* **Reach**: every length and percentage, where a one-off appears for some roundings only. **Misses**: missing periods in the data, more
  folds than interpreted. ~17 s on 8 cores. **Found**: 1 repaired (forecasts of the gap scored against the test part).
"""

D["S22"] = """
* **Decides**: for every place that hands work to a process or thread pool: order and key of the results, what the worker leaves in
  objects, what it returns, its random numbers, and whether the serial path passes the same options.
* **How**: pools are recognised by what the receiver was bound to (also through helpers that return one; `multiprocessing.dummy` is a
  thread pool); the worker is resolved through `self`, subclasses, `partial` and `deepcopy`, and followed through methods of its object
  with branches pruned by the flags (`self.multi`) known where the work is handed out. In a process nothing written to `self` may be
  read outside the worker; in threads no attribute may carry a value between items.
* **Misses**: a worker held in an attribute; pairing by position done wrongly with plain lists. ~2 s. **Found**: 1 repaired (forked
  chains of the ensemble prediction interval drew identical errors: 12 chains, 4 distinct).
"""
