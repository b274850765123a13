"""S14: a call does not depend on what an earlier call of the same method left behind."""
from __future__ import annotations

import ast
from typing import Any, Dict, FrozenSet, List, Optional, Set, Tuple

from ..project import Cls, Func, Project, own_nodes
from ..report import Ctx

RESETS = {"clear"}
MUTATORS = {"append", "extend", "insert", "add", "update", "setdefault", "appendleft", "sort", "reverse", "remove", "discard", "pop",
            "popitem", "difference_update", "intersection_update"}


class Sum:
    def __init__(self) -> None:
        self.E: Dict[str, Tuple[Func, ast.AST]] = {}         # read before it was surely written
        self.W: Dict[str, List[Tuple[Func, ast.AST, bool]]] = {}   # written or modified (site, cached?)
        self.must: FrozenSet[str] = frozenset()


class Walk:
    """upward-exposed reads and must-writes of one object's attributes"""

    def __init__(self, prj: Project, cls: Cls) -> None:
        self.prj, self.cls = prj, cls
        self.memo: Dict[Any, Sum] = {}
        self.stack: List[str] = []

    def summary(self, f: Func) -> Sum:
        if f.qual in self.memo:
            return self.memo[f.qual]
        if f.qual in self.stack or len(self.stack) > 12 or f.self_name is None:
            return Sum()
        self.stack.append(f.qual)
        one = One(self, f)
        s = one.run()
        self.stack.pop()
        self.memo[f.qual] = s
        return s


class One:
    def __init__(self, w: Walk, f: Func) -> None:
        self.w, self.f, self.sn = w, f, f.self_name
        self.s = Sum()
        self.exits: List[FrozenSet[str]] = []
        self.alias: Dict[str, str] = {}          # names that surely stand for an attribute's object
        self.may: Dict[str, FrozenSet[str]] = {}  # ... that may
        self.when: FrozenSet[Tuple[str, str]] = frozenset()   # (condition, attribute): written whenever the condition holds
        self.probed: List[Tuple[Set[str], ast.AST]] = []
        self.tainted = self.taint()

    def taint(self) -> Set[str]:
        t = set(self.f.params) - {self.sn}
        changed = True
        while changed:
            changed = False
            for n in own_nodes(self.f.node):
                src, dst = None, []
                if isinstance(n, ast.Assign):
                    src, dst = n.value, n.targets
                elif isinstance(n, (ast.AnnAssign, ast.AugAssign, ast.NamedExpr)):
                    src, dst = n.value, [n.target]
                elif isinstance(n, (ast.For, ast.comprehension)):
                    src, dst = n.iter, [n.target]
                if src is None:
                    continue
                if any(isinstance(x, ast.Name) and x.id in t for x in ast.walk(src)):
                    for d in dst:
                        for x in ast.walk(d):
                            if isinstance(x, ast.Name) and isinstance(x.ctx, ast.Store) and x.id not in t:
                                t.add(x.id)
                                changed = True
        return t

    def branch(self, *bodies):
        """run the alternatives from the same alias state; afterwards a name may stand for what either made of it"""
        al, may = dict(self.alias), dict(self.may)
        outs, ends = [], []
        for f in bodies:
            self.alias, self.may = dict(al), dict(may)
            r = f()
            outs.append(r)
            if r is not None:
                ends.append((self.alias, self.may))
        if not ends:
            self.alias, self.may = al, may
            return outs
        self.alias = {k: v for k, v in ends[0][0].items() if all(e[0].get(k) == v for e in ends)}
        self.may = {}
        for e in ends:
            for k, v in e[1].items():
                self.may[k] = self.may.get(k, frozenset()) | v
        return outs

    def stable(self, e: ast.AST) -> Optional[str]:
        """text of a condition that cannot change while the function runs"""
        for x in ast.walk(e):
            if isinstance(x, (ast.Call, ast.NamedExpr, ast.Await)):
                return None
        if not any(isinstance(x, ast.Attribute) and self.is_self(x) for x in ast.walk(e)):
            return None
        for x in ast.walk(e):
            if isinstance(x, ast.Name) and x.id != self.sn:
                return None
        return ast.unparse(e)

    def run(self) -> Sum:
        end = self.block(self.f.node.body, frozenset())
        if end is not None:
            self.exits.append(end)
        m: Optional[FrozenSet[str]] = None
        for x in self.exits:
            m = x if m is None else m & x
        self.s.must = m or frozenset()
        return self.s

    # ---- events
    def is_self(self, e: ast.AST) -> Optional[str]:
        if isinstance(e, ast.Attribute) and isinstance(e.value, ast.Name) and e.value.id == self.sn:
            return e.attr
        return None

    def read(self, a: str, node: ast.AST, must: FrozenSet[str]) -> FrozenSet[str]:
        m = self.w.cls.find(a)
        if m is not None:
            if m.is_property:
                return self.enter(m, must, node)
            return must
        if a not in must:
            self.s.E.setdefault(a, (self.f, node))
        return must

    def write(self, a: str, node: ast.AST, must: FrozenSet[str], val: Optional[ast.AST] = None, strong: bool = True) -> FrozenSet[str]:
        st = self.w.cls.find_setter(a)
        if st is not None:
            return self.enter(st, must, node)
        cached: Any = next((i for p, i in self.probed if a in p), None) if strong else None
        cached = cached is not None and not (
            val is not None and any(isinstance(x, ast.Name) and x.id in self.tainted for x in ast.walk(val)))
        self.s.W.setdefault(a, []).append((self.f, node, next(i for p, i in self.probed if a in p) if cached else None))
        return must | {a} if strong else must

    def enter(self, g: Func, must: FrozenSet[str], node: ast.AST) -> FrozenSet[str]:
        s = self.w.summary(g)
        for a, v in s.E.items():
            if a not in must:
                self.s.E.setdefault(a, v)
        for a, vs in s.W.items():
            for v in vs:
                if v not in self.s.W.setdefault(a, []):
                    self.s.W[a].append(v)
        return must | s.must

    # ---- expressions (evaluation order)
    def ev(self, e: Optional[ast.AST], must: FrozenSet[str]) -> FrozenSet[str]:
        if e is None:
            return must
        if isinstance(e, (ast.Lambda, ast.FunctionDef)):
            return must
        if isinstance(e, ast.Attribute):
            a = self.is_self(e)
            if a is not None:
                return self.read(a, e, must)
            return self.ev(e.value, must)
        if isinstance(e, ast.Call):
            return self.call(e, must)
        if isinstance(e, ast.BoolOp):
            m = self.ev(e.values[0], must)
            for v in e.values[1:]:
                self.ev(v, m)
            return m
        if isinstance(e, ast.IfExp):
            m = self.test(e.test, must)
            a, b = self.ev(e.body, m), self.ev(e.orelse, m)
            return a & b
        if isinstance(e, ast.Compare) and self.probe(e):
            return must
        if isinstance(e, (ast.ListComp, ast.SetComp, ast.GeneratorExp, ast.DictComp)):
            m = self.ev(e.generators[0].iter, must)
            for g in e.generators[1:]:
                self.ev(g.iter, m)
            for g in e.generators:
                for i in g.ifs:
                    self.ev(i, m)
            for x in ([e.key, e.value] if isinstance(e, ast.DictComp) else [e.elt]):
                self.ev(x, m)
            return m
        if isinstance(e, ast.NamedExpr):
            return self.ev(e.value, must)
        for ch in ast.iter_child_nodes(e):
            if isinstance(ch, (ast.expr, ast.keyword, ast.Slice)):
                must = self.ev(ch.value if isinstance(ch, ast.keyword) else ch, must)
        return must

    def probe(self, e: ast.AST) -> Set[str]:
        """attributes whose presence the test asks for"""
        if isinstance(e, ast.Compare) and len(e.ops) == 1 and isinstance(e.ops[0], (ast.Is, ast.IsNot)) \
                and isinstance(e.comparators[0], ast.Constant) and e.comparators[0].value is None:
            a = self.is_self(e.left) or (self.alias.get(e.left.id) if isinstance(e.left, ast.Name) else None)
            return {a} if a else set()
        if isinstance(e, ast.UnaryOp) and isinstance(e.op, ast.Not):
            a = self.is_self(e.operand)
            return {a} if a else self.probe(e.operand)
        if isinstance(e, ast.Call) and isinstance(e.func, ast.Name) and e.func.id == "hasattr" and len(e.args) == 2 \
                and isinstance(e.args[0], ast.Name) and e.args[0].id == self.sn and isinstance(e.args[1], ast.Constant):
            return {e.args[1].value}
        return set()

    def test(self, e: ast.AST, must: FrozenSet[str]) -> FrozenSet[str]:
        if isinstance(e, ast.BoolOp):
            for v in e.values:
                must2 = self.test(v, must)
            return must
        if self.probe(e):
            return must
        return self.ev(e, must)

    def call(self, e: ast.Call, must: FrozenSet[str]) -> FrozenSet[str]:
        fn = e.func
        # self.x.append(...)
        if isinstance(fn, ast.Attribute):
            a = self.is_self(fn.value) or (self.alias.get(fn.value.id) if isinstance(fn.value, ast.Name) else None)
            if a is not None and fn.attr in RESETS and not e.args:
                return self.write(a, e, must)
            if a is None and isinstance(fn.value, ast.Name) and fn.attr in MUTATORS | RESETS:
                for a9 in sorted(self.may.get(fn.value.id, ())):
                    if a9 not in must:
                        self.s.E.setdefault(a9, (self.f, e))
                    self.write(a9, e, must, strong=False)
            if a is not None and fn.attr in MUTATORS and self.w.cls.find(a) is None:
                for x in e.args:
                    must = self.ev(x, must)
                for k in e.keywords:
                    must = self.ev(k.value, must)
                if a not in must:
                    self.s.E.setdefault(a, (self.f, e))
                return self.write(a, e, must, strong=False)
        args = list(e.args) + [k.value for k in e.keywords]
        # self.m(...) / super().m(...)
        g: Optional[Func] = None
        if isinstance(fn, ast.Attribute):
            if isinstance(fn.value, ast.Name) and fn.value.id == self.sn:
                g = self.w.cls.find(fn.attr)
            elif isinstance(fn.value, ast.Call) and isinstance(fn.value.func, ast.Name) and fn.value.func.id == "super":
                g = self.after(fn.attr)
            elif isinstance(fn.value, ast.Name) and e.args and isinstance(e.args[0], ast.Name) and e.args[0].id == self.sn:
                k = next((k for k in self.w.cls.mro if k.name == fn.value.id), None)
                g = k.methods.get(fn.attr) if k else None
        if g is None and not (isinstance(fn, ast.Attribute) and self.is_self(fn) is None and False):
            must = self.ev(fn, must)
        for a2 in args:
            must = self.ev(a2, must)
            a3 = self.is_self(a2)
            if isinstance(a2, ast.Attribute) and a3 and self.w.cls.find(a3) is not None and not self.w.cls.find(a3).is_property:
                self.enter(self.w.cls.find(a3), must, a2)      # a bound method handed over: it may run
        if g is not None and not g.is_static and not g.is_classmethod:
            must = self.enter(g, must, e)
        return must

    def after(self, name: str) -> Optional[Func]:
        mro = self.w.cls.mro
        if self.f.cls in mro:
            for k in mro[mro.index(self.f.cls) + 1:]:
                if name in k.methods:
                    return k.methods[name]
        return None

    # ---- statements
    def target(self, t: ast.AST, must: FrozenSet[str], val: Optional[ast.AST], node: ast.AST) -> FrozenSet[str]:
        a = self.is_self(t)
        if a is not None:
            return self.write(a, node, must, val)
        if isinstance(t, (ast.Tuple, ast.List)):
            vs = val.elts if isinstance(val, (ast.Tuple, ast.List)) and len(val.elts) == len(t.elts) else [val] * len(t.elts)
            for x, v in zip(t.elts, vs):
                must = self.target(x, must, v, node)
            return must
        if isinstance(t, ast.Starred):
            return self.target(t.value, must, val, node)
        if isinstance(t, ast.Subscript):
            must = self.ev(t.slice, must)
            b = t.value
            while isinstance(b, ast.Attribute) and b.attr in ("iloc", "loc", "at", "iat", "values") and self.is_self(b) is None:
                b = b.value
            a = self.is_self(b) or (self.alias.get(b.id) if isinstance(b, ast.Name) else None)
            if a is not None:
                if a not in must:
                    self.s.E.setdefault(a, (self.f, node))
                return self.write(a, node, must, strong=False)
            if isinstance(b, ast.Name):
                for a9 in sorted(self.may.get(b.id, ())):
                    if a9 not in must:
                        self.s.E.setdefault(a9, (self.f, node))
                    self.write(a9, node, must, strong=False)
            return self.ev(b, must)
        if isinstance(t, ast.Attribute):
            return self.ev(t.value, must)
        if isinstance(t, ast.Name):
            self.alias.pop(t.id, None)
            self.may.pop(t.id, None)
            vs = [] if val is None else [val.body, val.orelse] if isinstance(val, ast.IfExp) else val.values if isinstance(val, ast.BoolOp) else [val]
            got = set()
            for v in vs:
                a = self.is_self(v)
                if a is not None and self.w.cls.find(a) is None:
                    got.add(a)
                elif isinstance(v, ast.Name):
                    got |= self.may.get(v.id, frozenset())
            if got:
                self.may[t.id] = frozenset(got)
            if len(vs) == 1 and len(got) == 1 and (self.is_self(vs[0]) or vs[0].id in self.alias):
                self.alias[t.id] = next(iter(got))
        return must

    def block(self, body: List[ast.stmt], must: Optional[FrozenSet[str]]) -> Optional[FrozenSet[str]]:
        for s in body:
            if must is None:
                return None
            must = self.stmt(s, must)
        return must

    @staticmethod
    def meet(a: Optional[FrozenSet[str]], b: Optional[FrozenSet[str]]) -> Optional[FrozenSet[str]]:
        return b if a is None else a if b is None else a & b

    def stmt(self, s: ast.stmt, must: FrozenSet[str]) -> Optional[FrozenSet[str]]:
        if isinstance(s, ast.Assign):
            must = self.ev(s.value, must)
            for t in s.targets:
                must = self.target(t, must, s.value, s)
            if isinstance(s.value, ast.Attribute) or len(s.targets) > 1:
                # x = self.a = value: x is the same object
                sa = [self.is_self(t) for t in s.targets if self.is_self(t)]
                for t in s.targets:
                    if isinstance(t, ast.Name) and sa:
                        self.alias[t.id] = sa[0]
                        self.may[t.id] = frozenset(sa[:1])
            return must
        if isinstance(s, ast.AnnAssign):
            if s.value is None:
                return must
            return self.target(s.target, self.ev(s.value, must), s.value, s)
        if isinstance(s, ast.AugAssign):
            a = self.is_self(s.target)
            must = self.ev(s.value, must)
            if a is not None:
                if a not in must:
                    self.s.E.setdefault(a, (self.f, s))
                return self.write(a, s, must, strong=False)
            return self.target(s.target, must, None, s) if isinstance(s.target, ast.Subscript) else must
        if isinstance(s, ast.Return):
            self.exits.append(self.ev(s.value, must))
            return None
        if isinstance(s, ast.Raise):
            self.ev(s.exc, must)
            return None
        if isinstance(s, (ast.Break, ast.Continue)):
            return None
        if isinstance(s, ast.If):
            m = self.test(s.test, must)
            pr: Set[str] = set()
            for x in ast.walk(s.test):
                pr |= self.probe(x)
            self.probed.append((pr, s))
            parts = [t for v in (s.test.values if isinstance(s.test, ast.BoolOp) and isinstance(s.test.op, ast.And) else [s.test])
                     if (t := self.stable(v)) is not None]
            given = frozenset(x for t, x in self.when if t in parts)
            w0 = self.when

            def yes():
                r = self.block(s.body, m | given)
                self.when = w0
                return r

            a, b = self.branch(yes, lambda: self.block(s.orelse, m))
            self.when = w0
            self.probed.pop()
            if a is not None and len(parts) == 1 and not isinstance(s.test, ast.BoolOp):
                hit = {x for x in a if any(y in parts[0] for y in (f"{self.sn}.{x}",))}
                if not hit:
                    self.when = self.when | {(parts[0], x) for x in a - m}
            return self.meet(a, b)
        if isinstance(s, (ast.For, ast.AsyncFor)):
            must = self.ev(s.iter, must)
            m0 = self.target(s.target, must, None, s)
            r = self.branch(lambda: self.block(s.body, m0), lambda: must)[0]
            once = isinstance(s.iter, (ast.Tuple, ast.List)) and s.iter.elts
            out = r if once and r is not None else must
            return self.block(s.orelse, out) if s.orelse else out
        if isinstance(s, ast.While):
            m = self.ev(s.test, must)
            self.branch(lambda: self.block(s.body, m), lambda: m)
            return m
        if isinstance(s, (ast.With, ast.AsyncWith)):
            for i in s.items:
                must = self.ev(i.context_expr, must)
            return self.block(s.body, must)
        if isinstance(s, ast.Try):

            def body():
                r = self.block(s.body, must)
                return self.block(s.orelse, r) if r is not None and s.orelse else r

            r = None
            for x in self.branch(body, *[(lambda h=h: self.block(h.body, must)) for h in s.handlers]):
                r = self.meet(r, x)
            if s.finalbody:
                f = self.block(s.finalbody, r if r is not None else must)
                r = None if r is None else f
            return r
        if isinstance(s, ast.Delete):
            for t in s.targets:
                if isinstance(t, ast.Subscript):
                    must = self.target(t, must, None, s)
            return must
        if isinstance(s, (ast.FunctionDef, ast.ClassDef, ast.Import, ast.ImportFrom, ast.Pass, ast.Global, ast.Nonlocal)):
            return must
        if isinstance(s, ast.Match):
            m = self.ev(s.subject, must)
            out: Optional[FrozenSet[str]] = m
            for cs in s.cases:
                out = self.meet(out, self.block(cs.body, m))
            return out
        for ch in ast.iter_child_nodes(s):
            if isinstance(ch, ast.expr):
                must = self.ev(ch, must)
        return must


def entries(c: Cls):
    seen: Set[str] = set()
    for k in c.mro:
        for n, f in k.methods.items():
            if n in seen:
                continue
            seen.add(n)
            if n.startswith("_") and n != "__call__" or f.is_static or f.is_classmethod or f.is_setter or f.is_property:
                continue
            yield n, f


def leftovers(prj: Project, count=lambda *_: None):
    for c in sorted(prj.classes.values(), key=lambda c: c.qual):
        w = Walk(prj, c)
        for n, f in entries(c):
            count("methods judged")
            s = w.summary(f)
            for a in sorted(set(s.E) & set(s.W)):
                if all(x[2] for x in s.W[a]):
                    continue
                yield c, n, f, a, s


# State that is meant to survive a call, reviewed. (class of the method that reads it, attribute); '*' = the whole class.
KEPT: Dict[Tuple[str, str], str] = {
    ("AnomalyResponse", "*"): "update and extend add to a response by contract",
    ("TimeSeriesData", "*"): "a mutable container with documented in-place operations",
    ("ChangePointInterval", "data_df"): "extend_data adds to the interval by contract",
    ("Simulator", "*"): "a builder: components are added to the simulated series; its length and time are judged by S02",
    ("_BayesianLinReg", "*"): "online model: sufficient statistics of all points seen",
    ("_NormalKnownPrec", "*"): "online model: sufficient statistics of all points seen",
    ("_PoissonProcessModel", "*"): "online model: sufficient statistics of all points seen",
    ("DilatedRNNStack", "*"): "recurrent network: the hidden states of earlier steps",
    ("LSTMForecast", "hidden_cell"): "recurrent network: the hidden state, reset by the training loop",
    ("GMDataLoader", "*"): "an iterator over batches",
    ("CUSUMDetectorModel", "*"): "documented incremental model: one object is fed window after window and keeps its alert state",
    ("BayesianOptSearch", "*"): "a search accumulates its trials",
    ("TimeSeriesParameterTuning", "*"): "a search accumulates its trials",
    ("Evaluator", "runs"): "named runs are kept until they are deleted",
    ("BOCPDetector", "change_prob"): "one entry per model, each overwritten",
    ("BOCPDetector", "_run_length_prob"): "one entry per model, each overwritten",
    ("IntervalDetectorModel", "_duration"): "documented: when None, the model assigns a value",
    ("StatSigDetectorModel", "time_unit"): "documented and tested: when None, holds the unit inferred for the last series",
    ("MLARModel", "all_series"): "predicting with new actual data stores them for the forecasts that follow",
    ("MLARModel", "freq"): "the frequency found in the training data",
    ("MetaDetectModelSelect", "results"): "report_metrics trains when train was not called",
    ("OutlierDetectorModel", "model"): "predict uses the model of the last fit and fits when there is none",
    ("MultivariateAnomalyDetectorModel", "model"): "predict uses the model of the last fit and fits when there is none",
    ("Pipeline", "metadata"): "one entry per step, each overwritten",
    ("ProphetDetectorModel", "holidays"): "written or kept depending on an option fixed at construction",
    ("ProphetParams", "_reqd_cap_floor_names"): "extended only by names it lacks",
    ("STLFModel", "fcst_lower"): "written or kept depending on the method fixed at construction",
    ("STLFModel", "fcst_upper"): "written or kept depending on the method fixed at construction",
    ("SeasonalityHandler", "decomp"): "computed once: data and period are fixed at construction",
    ("ensemble_predict_interval", "error_matrix"): "computed once: the data are fixed at construction",
    ("ensemble_predict_interval", "error_matrix_flag"): "computed once: the data are fixed at construction",
    ("GMModel", "rnn"): "training continues from the network at hand by design",
    ("GMModel", "encoder"): "training continues from the network at hand by design",
    ("GMModel", "decoder"): "training continues from the network at hand by design",
    ("AnomalyPostProcessHandler", "*"): "computed once: the scores are fixed at construction",
    ("Detector", "outliers"): "remover reads what detector found",
    ("MetaLearnModelSelect", "hpt"): "downsampled again from what an earlier call left, which is balanced already",
    ("MetaLearnModelSelect", "metadataY"): "downsampled again from what an earlier call left, which is balanced already",
}
# results a step may leave as they were (reviewed)
LEFT: Dict[Tuple[str, str], str] = {
    ("StatSigDetectorModel", "data"): "on too little data nothing is computed and the previous data are kept for plotting",
    ("MultiStatSigDetectorModel", "data"): "on too little data nothing is computed and the previous data are kept for plotting",
    ("KatsEnsemble", "sea_data"): "read only when the last fit found seasonality",
    ("NowcastingModel", "scaler"): "written or kept depending on the data fixed at construction",
    ("NowcastingModel", "label_scaler"): "written or kept depending on the data fixed at construction",
    ("MetaLearnModelSelect", "scale"): "set once scaling was asked for; what it scales is judged itself",
}
PRODUCERS = {"fit", "train", "detector", "run_backtest", "decomposer", "preprocess", "fit_predict", "load_model"}


def kept(rule: str, cls: str, a: str) -> bool:
    return (cls, a) in KEPT or (cls, "*") in KEPT or rule == "stale result" and (cls, a) in LEFT


def used(w: Walk, f: Func, block: ast.AST) -> Set[str]:
    """attributes consulted while the block computes what is kept"""
    out: Set[str] = set()
    for x in ast.walk(block):
        if isinstance(x, ast.Attribute) and isinstance(x.ctx, ast.Load) and isinstance(x.value, ast.Name) and x.value.id == f.self_name:
            g = w.cls.find(x.attr)
            if g is None:
                out.add(x.attr)
            elif g.self_name is not None:
                out |= set(w.summary(g).E)
    return out


def decide(prj: Project, count=lambda *_: None):
    """(rule, class, attribute, function, node, text)"""
    done: Set[Any] = set()
    for c in sorted(prj.classes.values(), key=lambda c: c.qual):
        w = Walk(prj, c)
        S = {n: w.summary(f) for n, f in entries(c)}
        if S:
            count("classes judged")
        for n, s in S.items():
            count("methods judged")
            count("attributes a method writes", len(s.W))
            for a in sorted(set(s.E) & set(s.W)):
                if all(x[2] for x in s.W[a]):
                    count("attributes computed once and kept")
                    continue
                f, node = s.E[a]
                k = ("left-over state", f.cls, a)
                count("attributes read before they are written")
                if k in done:
                    continue
                done.add(k)
                w9 = s.W[a][0]
                yield (*k, f, node, f"{c.name}.{n}() reads self.{a} before it has surely set it in this call, and also changes it "
                                    f"({w9[0].where(w9[1])}): what an earlier call left there enters the result")
        for n in sorted(set(S) & PRODUCERS):
            for m, s in S.items():
                if m == n:
                    continue
                for a in sorted(set(s.E) & set(S[n].W) - S[n].must):
                    if all(x[2] for x in S[n].W[a]):
                        continue
                    count("results a step may leave as they were")
                    f, node, _ = S[n].W[a][0]
                    k = ("stale result", f.cls, a)
                    if k in done or ("left-over state", f.cls, a) in done:
                        continue
                    done.add(k)
                    yield (*k, f, node, f"{c.name}.{n}() sets self.{a} on some of its paths only and {c.name}.{m}() uses it "
                                        f"({s.E[a][0].where(s.E[a][1])}): on the others the outcome of an earlier {n}() is used")
            for m, s in S.items():
                for a, ws in sorted(s.W.items()):
                    for f, node, cached in ws:
                        if not cached or a in S[n].must or f.cls is None:
                            continue
                        hit = sorted((used(w, f, cached) & set(S[n].must)) - {a})
                        if not hit:
                            continue
                        count("cached values compared with the step they depend on")
                        k = ("stale cache", f.cls, a)
                        if k in done:
                            continue
                        done.add(k)
                        yield (*k, f, node, f"self.{a} is computed once from {', '.join('self.' + h for h in hit)} and kept, but {c.name}.{n}() "
                                            f"replaces those without forgetting it")


def run(c: Ctx) -> None:
    c.rules = [
        "S14: for every public method, the attributes of its object that it reads on some path before it has surely written them "
        "(helpers, properties and super() calls entered, conditions on unchanged attributes correlated) and that it also changes: "
        "unless reviewed as state meant to be kept, or computed once and kept, each is a left-over of an earlier call",
        "S14: what fit/train/detector/run_backtest/... writes on some paths only and another method reads",
        "S14: what is computed once and kept, from values fit/train/... replaces, without being reset there",
    ]
    _selftest(c)
    for rule, cls, a, f, node, text in decide(c.prj, c.count):
        if kept(rule, cls.name, a):
            c.count("reviewed state that is meant to be kept")
            continue
        c.find(rule, f"{cls.qual}.{a}", f.where(node), text)
    c.floor("methods judged", 450)
    c.floor("attributes read before they are written", 60)
    c.notes["exemptions"] = {f"{k[0]}.{k[1]}": v for k, v in {**KEPT, **LEFT}.items()}


def _selftest(c: Ctx) -> None:
    src = '''
class Acc:
    def __init__(self, data):
        self.data = data
        self.res = []
        self.fresh = []
        self.cache = None
        self.model = None
        self.opt = True
    def run_backtest(self):
        self.res.append(1)
        return self.res
    def detector(self):
        self._clear()
        self.fresh.append(1)
        return self.fresh
    def _clear(self):
        self.fresh = []
    def fit(self):
        self.model = object()
        if self.opt:
            self.season = 1
    def predict(self):
        if self.cache is None:
            self.cache = self.model.x
        vals = self.fresh
        if self.opt:
            return self.season + self.cache
        vals = []
        vals.append(1)
class Good(Acc):
    def run_backtest(self):
        self.res = out = []
        out.append(1)
        return self.res
    def fit(self):
        self.cache = None
        super().fit()
    def detector(self):
        if self.opt:
            self.tmp = 1
        self.fresh = []
        if self.opt:
            return self.tmp
class Alias(Good):
    def extend(self, flag):
        if flag:
            v = self.fresh
        else:
            v = []
        v.append(1)
        return v
'''
    prj = Project(sources={"kats.x": src})
    got = {(r, k.name, a) for r, k, a, *_ in decide(prj)}
    c.selftest("results that pile up", ("left-over state", "Acc", "res") in got)
    c.selftest("a cache the next fit does not forget", ("stale cache", "Acc", "cache") in got)
    c.selftest("a helper that resets", not any(x[2] == "fresh" and x[1] == "Acc" for x in got))
    c.selftest("a local that may be the stored list", ("left-over state", "Alias", "fresh") in got)
    c.selftest("resets are recognised", not any(x[1] == "Good" for x in got))
    g2 = {(r, k.name, a) for r, k, a, *_ in decide(Project(sources={"kats.x": src.replace("        if self.opt:\n            self.season = 1", "        if self.data.z():\n            self.season = 1")}))}
    c.selftest("a result left as it was", ("stale result", "Acc", "season") in g2)
