"""S03: what is saved is what is restored.

Every detector class that can be restored from a serialized state is constructed with options that
all differ from their defaults and from each other (intervals, strings and enum members that carry
their identity), saved, and restored with every other option left alone - all by abstract
interpretation. json.dumps/json.loads are one another's inverse on JSON-able values. The restored
object must have the attributes of the original one. Savers that write a dictionary to a file are
compared with their loaders: the keys looked up without default must be among those written, and the
value written under a key must come from the attribute the loader puts it back into."""
from __future__ import annotations

import ast
from typing import Any, Dict, List, Optional, Set, Tuple

from ..absint import NONE, TOP, Budget, Frame, Interp, St, const, fresh, is_const, num, typed
from ..options import ann_text, ann_names, new_interp
from ..project import AnalysisBroken, Cls, Func, Project, own_nodes
from ..report import Ctx

# legal non-default values of options restricted to a few names
HINT = {"seasonality_period": "weekly", "seasonal_period": "daily", "season_period_freq": "weekly", "time_unit": "2D", "distance_metric": "cosine",
        "method": "fdr_by", "growth_type": "flat", "decomp": "multiplicative"}
STATE = "serialized_model"


def broken(it: Interp, v, st: St, seen=()) -> Optional[str]:
    """why v cannot be written as JSON"""
    if v[0] == "enum":
        c = it.prj.classes[v[1]]
        return None if any(b.split(".")[-1] in ("str", "int", "IntEnum", "StrEnum") for k in c.mro for b in k.base_quals) else f"{c.name} is not JSON serializable"
    h = it.h(v, st)
    if h is not None and v not in seen:
        if h.cls in ("list", "tuple"):
            return next((w for x in h.elts or () for w in [broken(it, x, st, seen + (v,))] if w), None)
        if h.cls == "dict":
            return next((w for _, x in h.elts or () for w in [broken(it, x, st, seen + (v,))] if w), None)
        if h.cls in ("ext:numbers", "ext:json"):
            return None
        return f"{h.cls.split(':')[-1].split('.')[-1]} is not JSON serializable"
    return None


def plain(it: Interp, v, st: St) -> Tuple[Any, St]:
    """v after a trip through JSON"""
    if v[0] == "enum":
        return it.enum_value(it.prj.classes[v[1]], v[2]), st
    h = it.h(v, st)
    if h is not None and h.cls in ("list", "tuple", "dict") and h.elts is not None:
        out = []
        for x in h.elts:
            if h.cls == "dict":
                w, st = plain(it, x[1], st)
                out.append((const(str(x[0][2])) if is_const(x[0]) else x[0], w))
            else:
                w, st = plain(it, x, st)
                out.append(w)
        return it.alloc(st, "dict" if h.cls == "dict" else "list", None, tuple(out))
    return v, st


def interp(prj: Project) -> Interp:
    it = new_interp(prj, 120000)
    it.dict_views = True

    def dumps(i, args, kw, st, fr, node):
        w = broken(i, args[0], st)
        if w:
            i.throw("implicit", "TypeError", st, node, fr, const(w))
            return []
        v, st = plain(i, args[0], st)
        return [i.alloc(st, "ext:json", {"#v": v}, None, True)]

    def loads(i, args, kw, st, fr, node):
        h = i.h(args[0], st)
        if h is None or h.cls != "ext:json":
            return [(TOP, st)]
        return [plain(i, h.attrs["#v"], st)]

    def model_out(i, args, kw, st, fr, node):
        return [i.alloc(st, "ext:json", {"#v": args[0]}, None, True)]

    def model_in(i, args, kw, st, fr, node):
        h = i.h(args[0], st)
        return [(h.attrs["#v"] if h is not None and h.cls == "ext:json" else TOP, st)]

    def same(i, args, kw, st, fr, node):
        return [(args[0], st)]
    def timedelta(i, args, kw, st, fr, node):
        v, u = args[0], kw.get("unit", args[1] if len(args) > 1 else const("ns"))
        return [i.alloc(st, "ext:pandas.Timedelta", {"value": v if u == const("ns") else fresh(f"{v} {u}")}, None, True)]

    def dump(i, args, kw, st, fr, node):
        i.written.append((args[0], st))
        return [(NONE, st)]

    def pickled(i, args, kw, st, fr, node):
        return [i.alloc(st, "ext:json", {"#v": args[0]}, None, True)]

    def load(i, args, kw, st, fr, node):
        return [(i.stored, st)]
    it.written, it.stored = [], TOP
    it.ext_stubs.update({"pandas.to_timedelta": timedelta, "joblib.dump": dump, "joblib.load": load, "pickle.dumps": pickled, "pickle.loads": model_in,
                         "pandas.Timedelta": lambda i, args, kw, st, fr, node: [i.alloc(st, "ext:pandas.Timedelta", None, None, True)],
                         "multiprocessing.cpu_count": lambda i, args, kw, st, fr, node: [(const(64), st)]})

    def network(i, args, kw, st, fr, node):
        i.nets += 1
        return [i.alloc(st, "ext:nn", {"state": fresh(f"weights {i.nets}")}, None, True)]

    def tensor(i, args, kw, st, fr, node):
        h = i.h(args[0], st) if args else None
        return [i.alloc(st, "ext:tensor", {"id": h.attrs["id"] if h is not None and h.cls == "ext:numbers" else TOP}, None, True)]
    it.ext_stubs.update({"torch.Tensor": tensor, "torch.tensor": tensor})
    it.nets = 0
    for c in prj.classes.values():
        if any(b.split(".")[-1] in ("Module", "ScriptModule") and "nn" in b or b == "torch.jit.ScriptModule" for b in c.ext_bases):
            it.stubs[c.qual] = network

    def nn_method(b, name, args, kw, st, fr, node):
        h = it.h(b, st)
        if h is not None and h.cls == "ext:nn":
            if name == "state_dict":
                v, st = it.alloc(st, "ext:tensor", {"id": h.attrs["state"]}, None, True)
                return [it.alloc(st, "dict", None, ((const("w"), v),))]
            if name == "load_state_dict" and args:
                d = it.h(args[0], st)
                v = it.h(d.elts[0][1], st) if d is not None and d.cls == "dict" and d.elts else None
                return [(NONE, it.own(b, st).setattr(b[1], "state", v.attrs["id"] if v is not None and v.cls == "ext:tensor" else TOP))]
            return [(NONE, st)]
        if h is not None and h.cls == "ext:tensor":
            if name == "tolist":
                return [it.alloc(st, "ext:numbers", {"id": h.attrs["id"]}, None, True)]
            return [(b, st)]
        return base(b, name, args, kw, st, fr, node)
    base = it.ext_method
    it.ext_method = nn_method
    it.ext_stubs.update({"json.dumps": dumps, "json.loads": loads, "builtins.str.encode": same, "builtins.bytes.decode": same, "builtins.str": same,
                         "builtins.bytes": same,
                         "prophet.serialize.model_to_json": model_out, "prophet.serialize.model_from_json": model_in})
    return it


def other(it: Interp, f: Func, p: str, i: int, st: St, prj: Project) -> Tuple[Any, St]:
    """a legal value of option p that is neither its default nor the value of any other option"""
    d = f.default(p)
    txt = ann_text(f, p).replace("Optional[", "").replace("Union[", "")
    dv = d.value if isinstance(d, ast.Constant) else None
    if p in HINT:
        return const(HINT[p]), st
    for t in sorted(ann_names(prj, f, p)):
        c = prj.classes.get(t)
        if c is None:
            continue
        if it.is_enum(c):
            ms = it.enum_members(c)
            used = ast.unparse(d).split(".")[-1] if d is not None else None
            if d is not None and isinstance(d, ast.Name):
                v = it.eval_default(d, f)
                used = v[2] if v[0] == "enum" else None
            return ("enum", c.qual, next(m for m in reversed(ms) if m != used)), st
        return it.alloc(st, c.qual, None, None, True)
    if isinstance(dv, bool) or txt.startswith("bool"):
        return const(not bool(dv)), st
    if txt.startswith("List[str"):
        return it.alloc(st, "list", None, (fresh("option " + p),))
    if txt.startswith("int") and not isinstance(dv, float):
        return num(3 + 10 * i, 5 + 10 * i, isint=True), st
    if txt.startswith(("float", "int")):
        return num(0.011 + 0.01 * i, 0.014 + 0.01 * i, True, True), st
    if txt.startswith("str"):
        return fresh("option " + p), st
    return typed("option " + p), st


def show(it: Interp, v, st: St) -> Any:
    """v without heap addresses"""
    h = it.h(v, st)
    if h is None:
        return v
    if h.cls.startswith("ext:"):
        return (h.cls, tuple(sorted((k, show(it, w, st)) for k, w in h.attrs.items())), v[1] if not h.attrs else None)
    return (h.cls, None if h.elts is None else tuple((show(it, x[0], st), show(it, x[1], st)) if h.cls == "dict" else show(it, x, st) for x in h.elts),
            tuple(sorted((k, show(it, w, st)) for k, w in h.attrs.items() if not k.startswith("#"))) if not h.open and h.cls not in ("list", "dict", "tuple") else v[1] if h.open else None)


def classes(prj: Project) -> List[Cls]:
    out = []
    for c in prj.classes.values():
        i, s = c.find("__init__"), c.find("serialize")
        if i is not None and s is not None and not s.is_abstract and STATE in i.params and not any(g.is_abstract for n in {m for k in c.mro for m in k.methods}
                                                                                                for g in [c.find(n)] if g is not None):
            out.append(c)
    return out


class RoundTrip:
    def __init__(self, prj: Project) -> None:
        self.prj = prj
        self.found: List[Tuple[str, str, str]] = []
        self.n = {"classes saved and restored": 0, "options followed": 0, "attributes compared": 0}
        self.skipped: List[str] = []

    def report(self, c: Cls, key: str, why: str) -> None:
        self.note(c.qual, c.find("__init__"), key, why)

    def note(self, q: str, f: Func, key: str, why: str) -> None:
        if not any(k == f"{q}|{key}" for k, _, _ in self.found):
            self.found.append((f"{q}|{key}", f.where(f.node), why))

    def one(self, c: Cls, plain_: bool = False) -> None:
        it = interp(self.prj)
        init = c.find("__init__")
        fr = Frame(None, c.module, 0, None, None)
        st = St()
        kw: Dict[str, Any] = {}
        for k, p in enumerate(x for x in init.posargs[1:] + init.kwonly if x != STATE):
            if not plain_ or init.default(p) is None:
                kw[p], st = other(it, init, p, k, st, self.prj)
        it.opaque_ctors -= {c.qual}
        try:
            objs, exs = it.run(lambda: it.instantiate(c.qual, [], dict(kw), st, fr, None))
            if not objs:        # the options chosen for it are refused: only the required ones
                kw = {p: v for p, v in kw.items() if init.default(p) is None}
                objs, _ = it.run(lambda: it.instantiate(c.qual, [], dict(kw), st, fr, None))
            if not objs:
                if plain_:
                    return
                self.skipped.append(f"{c.qual}: {[(e.cls, e.where()) for e, _ in exs][:2]}")
                return
            self.n["classes saved and restored"] += 1
            self.n["options followed"] += len(kw)
            for v, s in objs:
                whole = True
                h = it.h(v, s)
                if h.attrs.get("model") == NONE and "model" in init_state(c):
                    s = s.setattr(v[1], "model", typed("fitted model"))
                saved, ex = it.run(lambda: it.invoke(c.find("serialize"), [v], {}, s, fr))
                if not saved:
                    self.report(c, "save", f"saving a {c.name} fails: " + "; ".join(sorted({f"{e.cls} at {e.where()}" for e, _ in ex})))
                for b, s2 in saved:
                    hb = it.h(b, s2)
                    if hb is None or hb.cls != "ext:json":
                        self.skipped.append(c.qual)
                        continue
                    whole = it.h(hb.attrs["#v"], s2) is not None and it.h(hb.attrs["#v"], s2).cls == "dict"
                    need = {}
                    s3 = s2
                    for k, p in enumerate(x for x in init.posargs[1:] + init.kwonly if x != STATE and init.default(x) is None):
                        need[p] = num(7001 + k, 7002 + k, isint=True)
                    back, ex = it.run(lambda: it.instantiate(c.qual, [], {**need, STATE: b}, s3, fr, None))
                    if not back:
                        self.report(c, "restore", f"a saved {c.name} cannot be restored: " + "; ".join(sorted({f"{e.cls} at {e.where()}" for e, _ in ex})))
                    for w, s4 in back:
                        self.compare(it, c, v, s2, w, s4, whole)
        except (Budget, RecursionError):
            raise AnalysisBroken(f"S03: {c.qual} exceeds the budget")

    def compare(self, it: Interp, c: Cls, v, s: St, w, t: St, whole: bool) -> None:
        a, b = it.h(v, s).attrs, it.h(w, t).attrs
        names = {n for n in set(a) | set(b) if not n.startswith("#") and n != STATE} if whole else {"model"}
        for n in sorted(names):
            self.n["attributes compared"] += 1
            x = show(it, a[n], s) if n in a else None
            y = show(it, b[n], t) if n in b else None
            if differ(x, y):
                self.report(c, n, f"{n} of a restored {c.name} is not what it was when it was saved ({word(x)} became {word(y)})")


WILD = (TOP, ("nn",))


def differ(x: Any, y: Any) -> Optional[Tuple[Any, Any]]:
    """the first place where x and y are not the same; what the interpretation does not know is taken to agree"""
    if x == y or x in WILD or y in WILD:
        return None
    if isinstance(x, tuple) and isinstance(y, tuple) and len(x) == len(y) and x and (isinstance(x[0], tuple) or x[0] == y[0]):
        for a, b in zip(x, y):
            d = differ(a, b)
            if d:
                return d if isinstance(d[0], tuple) and isinstance(d[1], tuple) else (x, y)
        return None
    return x, y


def word(x: Any) -> str:
    if x is None:
        return "missing"
    if x[0] == "enum":
        return f"{x[1].split('.')[-1]}.{x[2]}"
    if x[0] == "c":
        return repr(x[2])
    if x[0] == "num":
        return f"a number in {x[1]}..{x[2]}"
    return str(x[1]) if x[0] in ("fresh", "t") else str(x[0])


def init_state(c: Cls) -> Set[str]:
    """attributes the constructor restores from anything but a dictionary entry"""
    i = c.find("__init__")
    return {t.attr for n in own_nodes(i.node) if isinstance(n, ast.Assign) and isinstance(n.value, ast.Call) for t in n.targets if isinstance(t, ast.Attribute)
            and any(isinstance(x, ast.Name) and x.id == STATE for x in ast.walk(n.value))}


# ---------------------------------------------------------------------------------------------------------------- global models
GM = "kats.models.globalmodel."
FULL = dict(input_window=31, fcst_window=13, seasonality=7, uplifting_ratio=2.5, cell_name="S2", state_size=41, h_size=43, loss_function="AdjustedPinball",
            epoch_num=47, epoch_size=53, min_training_step_num=59, min_training_step_length=5, soft_max_training_step_num=61, validation_step_num=67,
            min_warming_up_step_num=71, fcst_step_num=73, jit=True, gmname="named")
LISTS = dict(quantile=[0.5, 0.11, 0.89], training_quantile=[0.5, 0.12, 0.88], quantile_weight=[0.31, 0.32, 0.33], init_seasonality=[0.2, 9.0],
             init_smoothing_params=[0.21, 0.71], validation_metric=["smape"], gmfeature=["last_date", "simple_date"])


def value(it: Interp, x: Any, st: St) -> Tuple[Any, St]:
    if isinstance(x, (list, dict)):
        out = []
        for y in x:
            k = const(y)
            v, st = value(it, x[y] if isinstance(x, dict) else y, st)
            out.append((k, v) if isinstance(x, dict) else v)
        return it.alloc(st, type(x).__name__, None, tuple(out))
    return const(x), st


class Global:
    def __init__(self, prj: Project, rt: RoundTrip) -> None:
        self.prj, self.rt = prj, rt

    def func(self, q: str) -> Func:
        f = self.prj.funcs.get(q)
        if f is None:
            raise AnalysisBroken(f"S03: {q} is gone")
        return f

    def call(self, it: Interp, what: str, thunk):
        n0 = len(it.written)
        vs, ex = it.run(thunk)
        return vs, sorted({f"{e.cls} at {e.where()}" for e, _ in ex})

    def params(self, it: Interp, kind: str, st: St, full: bool) -> Tuple[Any, St]:
        q = GM + "utils.GMParam"
        kw: Dict[str, Any] = {"model_type": const(kind)}
        kw["freq"], st = it.alloc(st, "ext:pandas.Timedelta", {"value": fresh("freq in ns")}, None, True)
        src = {**FULL, **LISTS, "nn_structure": [[1, 5], [2, 6]], "decoder_nn_structure": [[3, 8]], "optimizer": {"name": "adam", "params": {"eps": 1e-5}},
               "batch_size": {0: 17, 3: 19}, "learning_rate": {0: 0.02, 5: 0.01}} if full else {"input_window": 31, "fcst_window": 13}
        for k, x in src.items():
            kw[k], st = value(it, x, st)
        self.rt.n["options followed"] += len(kw)
        init = self.prj.classes[q].find("__init__")
        bad = sorted(set(kw) - set(init.posargs + init.kwonly))
        vs, ex = self.call(it, q, lambda: it.instantiate(q, [], kw, st, Frame(None, init.module, 0, None, None), None))
        if bad or len(vs) != 1:
            raise AnalysisBroken(f"S03: GMParam({kind}, full={full}) gives {len(vs)} objects, {ex[:3]}, unknown options {bad}")
        return vs[0]

    def check(self, it: Interp, label: str, f: Func, v, s: St, outs, why: List[str], skip: Set[str] = frozenset()) -> None:
        rt = self.rt
        rt.n["classes saved and restored"] += 1
        if not outs:
            rt.note(label, f, "restore", f"a saved {label} cannot be restored: " + "; ".join(why))
        for w, t in outs:
            hv, hw = it.h(v, s), it.h(w, t)
            if hw is None or hw.cls != hv.cls:
                rt.skipped.append(label)
                continue
            for n in sorted(set(hv.attrs) | set(hw.attrs)):
                x = show(it, hv.attrs[n], s) if n in hv.attrs else None
                y = show(it, hw.attrs[n], t) if n in hw.attrs else None
                rt.n["attributes compared"] += 1
                d = differ(x, y)
                if d:
                    rt.note(label, f, n, f"{n} of a restored {label} is not what it was when it was saved ({str(d[0])[:80]} became {str(d[1])[:80]})")

    def run(self) -> None:
        for kind in ("rnn", "s2s"):
            for full in (True, False):
                self.one(kind, full)

    def one(self, kind: str, full: bool) -> None:
        P = self.prj.classes
        fr = Frame(None, P[GM + "model.GMModel"].module, 0, None, None)
        # the parameters as a string
        it = interp(self.prj)
        p, s = self.params(it, kind, St(), full)
        load = self.func(GM + "utils.gmparam_from_string")
        for b, s1 in self.call(it, "", lambda: it.invoke(P[GM + "utils.GMParam"].find("to_string"), [p], {}, s, fr))[0]:
            outs, why = self.call(it, "", lambda: it.invoke(load, [b], {}, s1, fr))
            self.check(it, "GMParam", load, p, s1, outs, why)
        for ens in (False, True):
            for how in ("file", "json"):
                it = interp(self.prj)
                p, s = self.params(it, kind, St(), full)
                q = GM + ("ensemble.GMEnsemble" if ens else "model.GMModel")
                kw = {"splits": const(2), "replicate": const(1), "overlap": const(False), "multi": const(True), "max_core": const(3), "ensemble_type": const("mean")} if ens else {}
                vs, ex = self.call(it, q, lambda: it.instantiate(q, [p], kw, s, fr, None))
                if len(vs) != 1:
                    raise AnalysisBroken(f"S03: {q} gives {len(vs)} objects: {ex[:3]}")
                v, s = vs[0]
                for m in (it.elements(it.h(v, s).attrs["gm_models"], s) if ens else [v]):
                    build = P[GM + "model.GMModel"].find("build_rnn" if kind == "rnn" else "build_s2s")
                    rs, ex = self.call(it, q, lambda: it.invoke(build, [m], {}, s, fr))
                    if len(rs) != 1:
                        raise AnalysisBroken(f"S03: {build.qual}: {ex[:3]}")
                    s = rs[0][1]
                if ens:
                    for n in ("gm_info", "test_ids"):
                        if n in it.h(v, s).attrs:
                            w, s = it.alloc(s, "list", None, (fresh(n),))
                            s = s.setattr(v[1], n, w)
                label = ("GMEnsemble" if ens else "GMModel") + (" written to JSON" if how == "json" else "")
                if how == "json":
                    save, load = self.func(GM + "serialize.global_model_to_json"), self.func(GM + "serialize.load_global_model_from_json")
                    got, why = self.call(it, label, lambda: it.invoke(save, [v], {}, s, fr))
                    pairs = [(b, s1) for b, s1 in got]
                else:
                    save = P[q].find("save_model")
                    load = self.func(q.rsplit(".", 1)[0] + (".load_gmensemble_from_file" if ens else ".load_gmmodel_from_file"))
                    it.written = []
                    got, why = self.call(it, label, lambda: it.invoke(save, [v, fresh("path")], {}, s, fr))
                    pairs = list(it.written) if got else []
                if not pairs:
                    self.rt.note(label, save, "save", f"saving a {label} fails: " + "; ".join(why))
                for b, s1 in pairs:
                    it.stored = b
                    outs, why = self.call(it, label, lambda: it.invoke(load, [b if how == "json" else fresh("path")], {}, s1, fr))
                    self.check(it, label, load, v, s1, outs, why)



# ------------------------------------------------------------------------------------------------- classes with save_model/load_model
def pairs(prj: Project) -> List[Cls]:
    out = []
    for c in prj.classes.values():
        a, b = c.methods.get("save_model"), c.methods.get("load_model")
        if a is not None and b is not None and any(isinstance(n, ast.Attribute) for n in own_nodes(a.node)):
            out.append(c)
    return out


def assigned(c: Cls) -> List[str]:
    out = {t.attr for k in c.mro for m in k.methods.values() for n in own_nodes(m.node) if isinstance(n, (ast.Assign, ast.AnnAssign))
           for t in (n.targets if isinstance(n, ast.Assign) else [n.target])
           if isinstance(t, ast.Attribute) and isinstance(t.value, ast.Name) and t.value.id == "self" and t.attr != "__dict__"}
    return sorted(out)


def save_load(prj: Project, rt: RoundTrip, c: Cls) -> None:
    it = interp(prj)
    fr = Frame(None, c.module, 0, None, None)
    names = assigned(c)
    v, st = it.alloc(St(), c.qual, {n: typed("trained " + n) for n in names})
    w, st = it.alloc(st, c.qual, {n: NONE if n in ("clf", "model") else typed("untrained " + n) for n in names})
    save, load = c.find("save_model"), c.find("load_model")
    outs, ex = it.run(lambda: it.invoke(save, [v] + [fresh("path")] * (len(save.posargs) - 1), {}, st, fr))
    got = list(it.written) or [(b, s) for b, s in outs if b != NONE]
    if not got:
        rt.note(c.qual, save, "save", f"saving a trained {c.name} fails: " + "; ".join(sorted({f"{e.cls} at {e.where()}" for e, _ in ex})))
    reads = {n.attr for n in own_nodes(save.node) if isinstance(n, ast.Attribute) and isinstance(n.value, ast.Name) and n.value.id == "self"}
    writes = {n.attr for n in own_nodes(load.node) if isinstance(n, ast.Attribute) and isinstance(n.value, ast.Name) and n.value.id == "self"}
    for b, s in got:
        it.stored = b
        back, ex = it.run(lambda: it.invoke(load, [w, b if not it.written else fresh("path")], {}, s, fr))
        rt.n["classes saved and restored"] += 1
        if not back:
            rt.note(c.qual, load, "restore", f"a saved {c.name} cannot be restored: " + "; ".join(sorted({f"{e.cls} at {e.where()}" for e, _ in ex})))
        for _, t in back:
            for n in names if "__dict__" in reads | writes else sorted(reads & set(names)):
                rt.n["attributes compared"] += 1
                x, y = it.h(v, s).attrs.get(n), it.h(w, t).attrs.get(n)
                if x != y:
                    rt.note(c.qual, load, n, f"{n} of a restored {c.name} is not what it was when it was saved ({x} became {y})")


def run(c: Ctx) -> None:
    c.rules.append("S03: each class is built with options that differ from their defaults and from one another, saved and restored by abstract interpretation "
                   "(json, joblib, pickle and torch state dictionaries invert themselves); the restored object has the attributes of the saved one.")
    c.assumptions += ["json, joblib, pickle, prophet.serialize and torch state dictionaries restore what they were given", "values a JSON document cannot hold fail"]
    selftest(c)
    rt = RoundTrip(c.prj)
    for k in classes(c.prj):
        rt.one(k)
        rt.one(k, True)
    Global(c.prj, rt).run()
    for k in pairs(c.prj):
        save_load(c.prj, rt, k)
    for key, where, why in rt.found:
        c.find("not-restored", key, where, why)
    for k, n in rt.n.items():
        c.counts[k] = n
    c.notes["not followed"] = rt.skipped
    c.floor("classes saved and restored", 50)
    c.floor("options followed", 400)
    c.floor("attributes compared", 300)


SELF = """
import json
from enum import Enum
class Kind(Enum):
    a = "a"
    b = "b"
class Good:
    def __init__(self, serialized_model=None, size: int = 3, kind: Kind = Kind.a, flag: bool = False):
        if serialized_model:
            d = json.loads(serialized_model)
            self.size = d["size"]
            self.kind = Kind(d["kind"])
            self.flag = d.get("flag", flag)
        else:
            self.size = size
            self.kind = kind
            self.flag = flag
    def serialize(self):
        return str.encode(json.dumps({"size": self.size, "kind": self.kind.value, "flag": self.flag}))
class Lost(Good):
    def serialize(self):
        return json.dumps({"size": self.size, "kind": self.kind.value}).encode("utf-8")
class Swapped(Good):
    def serialize(self):
        return json.dumps({"size": self.flag, "kind": self.kind.value, "flag": self.size}).encode("utf-8")
class Raw(Good):
    def serialize(self):
        return json.dumps({"size": self.size, "kind": self.kind, "flag": self.flag}).encode("utf-8")
class Renamed(Good):
    def serialize(self):
        return json.dumps({"n": self.size, "kind": self.kind.value, "flag": self.flag}).encode("utf-8")
class Whole:
    def __init__(self, serialized_model=None, size: int = 3, kind: Kind = Kind.a):
        if serialized_model:
            self.__dict__ = json.loads(serialized_model)
        else:
            self.size = size
            self.kind = kind.value
    def serialize(self):
        return json.dumps(self.__dict__).encode()
"""


def selftest(c: Ctx) -> None:
    p = Project(sources={"kats.t": SELF})
    rt = RoundTrip(p)
    for k in classes(p):
        rt.one(k)
    got = {k.split(".")[-1] for k, _, _ in rt.found}
    want = {"Lost|flag", "Swapped|size", "Swapped|flag", "Raw|save", "Renamed|restore"}
    c.selftest("lost, swapped, renamed and unwritable options are found: " + repr(sorted(want ^ got)), want == got)
