"""S02: using an object never rewrites the configuration it was constructed with."""
from __future__ import annotations

import ast
from typing import Dict, Iterator, Set, Tuple

from ..effects import Effects, _split
from ..project import Cls, Func, Project, is_self_attr, own_nodes
from ..report import Ctx
from .s01 import FRESH, public

# (class, attribute): '*' = any. Constructor-supplied state, not configuration, or documented otherwise.
EXEMPT: Dict[Tuple[str, str], str] = {
    ("TimeSeriesData", "*"): "a mutable container with documented in-place operations (extend, set_timezone, setters)",
    ("AnomalyResponse", "*"): "a response is updated and extended in place by contract",
    ("ConfidenceBand", "*"): "part of a response",
    ("IntervalDetectorModel", "duration"): "documented: when None, the model assigns a value",
    ("IntervalDetectorModel", "_duration"): "documented: when None, the model assigns a value",
    ("StatSigDetectorModel", "time_unit"): "documented and tested: when None, holds the unit inferred for the last series",
    ("NowcastingModel", "*"): "the constructor takes the pieces of a saved model; fit replaces them",
    ("NowcastingPlusModel", "*"): "the constructor takes the pieces of a saved model; fit replaces them",
    ("HarmonicRegressionModel", "params"): "holds the fitted coefficients; the configuration is kept elsewhere",
    ("STDGlobalModel", "params"): "taken over from the global model that is loaded",
    ("MLARModel", "freq"): "the frequency found in the training data",
    ("ProphetDetectorModel", "model"): "the fitted model, which the constructor may restore",
    ("ProphetTrendDetectorModel", "model"): "the fitted model, which the constructor may restore",
    ("Pipeline", "steps"): "a pipeline drives the steps it is given",
    ("TimeSeriesParameterTuning", "_exp"): "the experiment is driven by the search",
    ("TimeSeriesParameterTuning", "outcome_constraints"): "rebuilt from its own content for the running experiment",
    ("BayesianOptSearch", "outcome_constraints"): "rebuilt from its own content for the running experiment",
}
# attributes that hold data or run-time state although a constructor may receive them
STATE = {"data", "model", "train_data", "historical_data"}
# parameter objects derive these while they validate themselves
PARAM_DERIVED = {"method_params", "_reqd_regressor_names", "_reqd_cap_floor_names", "validate_params"}
# writes inside these classes concern their own objects, judged there
OWN_STATE = {"h_state_store", "c_state_store"}


RESTORE = ("serialized", "previous_model", "load_path")   # parameters that restore a saved object


def _held(e: ast.AST, ps: Set[str]) -> bool:
    """the value is a parameter, a copy of one, or a default for one"""
    if isinstance(e, ast.Name):
        return e.id in ps
    if isinstance(e, ast.BoolOp):
        return any(_held(v, ps) for v in e.values)
    if isinstance(e, ast.IfExp):
        return _held(e.body, ps) or _held(e.orelse, ps)
    if isinstance(e, ast.Call):
        n = e.func.attr if isinstance(e.func, ast.Attribute) else getattr(e.func, "id", "")
        if n in ("copy", "deepcopy", "list", "dict", "set", "tuple", "sorted", "cast"):
            return any(_held(a, ps) for a in e.args) or (isinstance(e.func, ast.Attribute) and _held(e.func.value, ps))
    return False


def config_attrs(c: Cls) -> Dict[str, Set[str]]:
    """attribute -> constructor parameters its value is computed from; the entry
    '=held' lists the attributes that hold a parameter (or a copy of it) itself"""
    out: Dict[str, Set[str]] = {}
    held: Set[str] = set()
    for k in reversed(c.mro):
        i = k.methods.get("__init__")
        if i is None:
            continue
        sn, ps = i.self_name, set(i.params)
        # locals that only repeat a parameter
        der: Dict[str, Set[str]] = {p: {p} for p in ps}
        for n in own_nodes(i.node):
            if isinstance(n, (ast.Assign, ast.AnnAssign)) and n.value is not None:
                used: Set[str] = set()
                for x in ast.walk(n.value):
                    if isinstance(x, ast.Name) and x.id in der:
                        used |= der[x.id]
                if not used:
                    continue
                for t in (n.targets if isinstance(n, ast.Assign) else [n.target]):
                    if is_self_attr(t, sn):
                        out.setdefault(t.attr, set()).update(used)
                        if _held(n.value, ps):
                            held.add(t.attr)
                        s = c.find_setter(t.attr)
                        if s is not None:
                            for y in own_nodes(s.node):
                                if isinstance(y, ast.Attribute) and isinstance(y.ctx, ast.Store) and is_self_attr(y, s.self_name):
                                    out.setdefault(y.attr, set()).update(used)
                    elif isinstance(t, ast.Name):
                        der.setdefault(t.id, set()).update(used)
    for a in list(out):
        if a in STATE or all(any(r in p for r in RESTORE) for p in out[a]):
            del out[a]
    out["=held"] = held
    return out


def exempt(c: Cls, a: str) -> bool:
    return any((k.name, x) in EXEMPT for k in c.mro for x in (a, "*"))


def violations(prj: Project, e: Effects, count=lambda *_: None) -> Iterator:
    for c in sorted(prj.classes.values(), key=lambda c: c.qual):
        cfg = config_attrs(c)
        held = cfg.pop("=held")
        if not cfg or any((k.name, "*") in EXEMPT for k in c.mro):
            continue
        if any(k.name in ("Module",) for k in c.mro) or any(b.split(".")[-1] == "Module" for k in c.mro for b in k.ext_bases):
            continue   # network layers hold weights
        count("classes with configuration")
        count("configuration attributes", len(cfg))
        mro = {k.qual for k in c.mro}
        meths: Dict[str, Func] = {}
        for k in reversed(c.mro):
            meths.update(k.methods)
        for n, f in meths.items():
            if n in ("__init__", "__post_init__", "__setstate__", "__new__") or f.is_setter or not public(f) or f.is_static or f.is_classmethod:
                continue
            count("methods judged")
            for m in sorted(e.sum[f.qual].muts.values()):
                r, comps = _split(m.loc)
                if r != f.self_name:
                    continue
                if ".validate_params" in m.site and (m.attr in PARAM_DERIVED or (comps and comps[-1] in PARAM_DERIVED)):
                    continue
                owner = _site_class(prj, m.site)
                if m.site.endswith(".__init__"):
                    continue
                if owner is not None and owner.qual not in mro and (not comps or owner in c.all_subclasses()):
                    continue   # the override of a subclass
                a = comps[0] if comps else m.attr
                if comps and a not in held:
                    continue   # an object the constructor built: its own state
                if a not in cfg or exempt(c, a) or m.attr in OWN_STATE:
                    continue
                yield c, f, a, m, cfg[a]


def _site_class(prj: Project, site: str):
    fn = site.rsplit(" in ", 1)[-1]
    rel = site.split(":")[0]
    if "." not in fn:
        return None
    cn = fn.split(".")[0]
    for c in prj.classes.values():
        if c.name == cn and c.module.rel == rel:
            return c
    return None


def run(c: Ctx) -> None:
    c.rules.append(
        "Configuration attributes are those a constructor computes from its own parameters (setter-backed names "
        "included). With the interprocedural effect summaries, no public method may rebind such an attribute or "
        "modify the object it holds, however deep the write happens in helpers.")
    e = Effects(c.prj, **FRESH)
    e.run()
    _selftest(c)
    for cl, f, a, m, ps in violations(c.prj, e, c.count):
        what = "rebinds" if m.loc == f.self_name else f"modifies ({m.attr})"
        c.find("configuration-rewritten", f"{cl.name}.{a}@{m.site.rsplit(' in ', 1)[-1]}", m.site,
               f"{cl.name}.{f.name} {what} '{a}', which the constructor set from {', '.join(sorted(ps))}")
        c.sample({"class": cl.qual, "entry": f.name, "attribute": a, "at": m.site})
    c.notes["exemptions"] = {f"{a}.{b}": r for (a, b), r in EXEMPT.items()}
    c.assumptions += ["Effects of external callables on their arguments are limited to the table in sa/effects.py.",
                      "Attributes set through setattr with computed names are not seen."]
    c.floor("classes with configuration", 90)
    c.floor("configuration attributes", 350)


SELF = '''
class A:
    def __init__(self, window: int, params, level=0.5):
        self.window = window
        self.params = params
        lvl = max(level, 0.1)
        self.level = lvl
        self.seen = 0
    def run(self, n):
        self._half()
        self.seen = n
    def _half(self):
        self.window //= 2
    def tune(self):
        self.params.p = 3
    def relevel(self):
        self.level = self.level * 2
    def fine(self, window):
        w = self.window
        w = w // 2
        self.seen += w
        return w
'''


def _selftest(c: Ctx) -> None:
    p = Project(sources={"kats.t": SELF})
    e = Effects(p, **FRESH)
    e.run()
    got = {(f.name, a) for _, f, a, _, _ in violations(p, e)}
    c.selftest("rewritten configuration is found, run-time state is not", got == {("run", "window"), ("tune", "params"), ("relevel", "level")})
