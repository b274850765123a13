"""S10: the lower bound is the lower one, the upper bound the upper one.

A dataflow over every function tracks which side of the centre a value lies on: L (below), U (above),
'+' / '-' (a margin and its sign), numeric ranges for confidence levels. Sources: quantiles at a level
below / above one half, normal and t scores, centre plus / minus a margin, elements of the interval
triples statsmodels returns, and everything the code itself names lower / upper (columns, attributes,
parameters). Sinks: every column, keyword, attribute, parameter and function result named lower or
upper, the forecast column, and updates of an object on one side with a value of the other. A value
that definitely lies on the wrong side is a violation. Project functions are entered with the actual
values (context-sensitive, bounded depth); what is not known is never reported."""
from __future__ import annotations

import ast
import re
from typing import Any, Dict, List, Optional, Set, Tuple

from ..project import Func, Project
from ..report import Ctx

PRESERVE = {"copy", "deepcopy", "to_numpy", "ravel", "flatten", "tolist", "astype", "fillna", "reset_index", "mean", "median",
            "sum", "dot", "rolling", "reshape", "squeeze", "head", "tail", "sort_index", "replace", "interpolate", "to_list",
            "item", "shift", "rename", "to_frame", "to_series", "clip", "ewm", "get", "take", "repeat", "round", "ffill", "bfill",
            "dropna", "set_index", "reindex", "transpose"}
PASS_ATTR = {"value", "values", "iloc", "loc", "T", "at", "iat", "array", "index"}
CONVERT = {"Series", "array", "asarray", "list", "tuple", "concatenate", "concat", "append", "hstack", "vstack", "where", "float",
           "copy", "deepcopy", "ravel", "nan_to_num", "DataFrame", "squeeze", "full", "exp", "log", "mean", "median", "sum", "stack",
           "atleast_1d", "reshape", "repeat", "tile", "roll", "cast", "expit", "log1p", "expm1", "chain", "dict", "OrderedDict",
           "to_numeric", "full_like", "flatten"}
NONNEG = {"sqrt", "abs", "absolute", "fabs", "std", "nanstd", "sem", "norm", "rmse", "mean_squared_error", "stdev", "pstdev"}
TRIPLES = {"wls_prediction_std": "+LU", "forecast_interval": "CLU"}
MARGIN = {"std", "stdev", "stddev", "sd", "stderr", "sigma", "sem", "rmse", "absolute"}
STANDARD = {"norm", "t", "stats"}


def role(name: Any) -> Optional[str]:
    if not isinstance(name, str):
        return None
    t = [x for x in re.split(r"[^a-z0-9]+", name.lower()) if x]
    if "window" in t or "granularity" in t or "case" in t or "sided" in t:
        return None
    lo, up = "lower" in t, "upper" in t
    if lo == up:
        return None
    return "L" if lo else "U"


class N:
    __slots__ = ("lo", "hi")

    def __init__(self, lo: float, hi: float) -> None:
        self.lo, self.hi = lo, hi

    def __repr__(self) -> str:
        return f"N({self.lo},{self.hi})"


class T:
    def __init__(self, items: List[Any]) -> None:
        self.items = items

    def __repr__(self) -> str:
        return f"T{self.items}"


class D:
    def __init__(self, items: Dict[Any, Any]) -> None:
        self.items = items

    def __repr__(self) -> str:
        return "D" + repr(sorted(self.items.items(), key=str))


class K:
    """a text the code spells out (a column or attribute name)"""

    def __init__(self, s: str) -> None:
        self.s = s

    def __repr__(self) -> str:
        return f"K({self.s!r})"

    def __eq__(self, o: Any) -> bool:
        return isinstance(o, K) and o.s == self.s

    def __hash__(self) -> int:
        return hash(self.s)


def S(*t: str) -> frozenset:
    return frozenset(t)


def tags(v: Any) -> frozenset:
    """polarity tags of a value; '?' for whatever is unknown"""
    if isinstance(v, frozenset):
        return v
    if isinstance(v, N):
        return S("+") if v.lo > 0 else S("-") if v.hi < 0 else S("?")
    if isinstance(v, T):
        out: Set[str] = set()
        for x in v.items:
            out |= tags(x)
        return frozenset(out) or S("?")
    return S("?")


def join(a: Any, b: Any) -> Any:
    if a is b:
        return a
    if isinstance(a, T) and isinstance(b, T) and len(a.items) == len(b.items):
        return T([join(x, y) for x, y in zip(a.items, b.items)])
    if isinstance(a, K) or isinstance(b, K):
        return a if a == b else None
    if isinstance(a, N) and isinstance(b, N):
        return N(min(a.lo, b.lo), max(a.hi, b.hi))
    if isinstance(a, D) and isinstance(b, D):
        return D({k: join(a.items.get(k), b.items.get(k)) for k in set(a.items) | set(b.items)})
    u = tags(a) | tags(b)
    return None if u == S("?") else u


_NEG = {"L": "U", "U": "L", "+": "-", "-": "+", "p": "m", "m": "p"}
_FLAT = {"p": "+", "m": "-"}


def neg(v: Any) -> Any:
    if isinstance(v, N):
        return N(-v.hi, -v.lo)
    if isinstance(v, frozenset):
        return frozenset(_NEG.get(x, x) for x in v)
    return None


def _add1(x: str, y: str) -> str:
    x, y = _FLAT.get(x, x), _FLAT.get(y, y)
    if x in "LU" and y in "LU":
        return x if x == y else "?"
    for a, b in ((x, y), (y, x)):
        if a in "LU":
            if b in "?C":
                return a
            return a if (a == "U") == (b == "+") else "?"
    if x in "+-" and y in "+-":
        return x if x == y else "?"
    for a, b in ((x, y), (y, x)):
        if b in "+-" and a in "?C":
            return "U" if b == "+" else "L"
    return "?"


def add(a: Any, b: Any) -> Any:
    if isinstance(a, N) and isinstance(b, N):
        return N(a.lo + b.lo, a.hi + b.hi)
    if isinstance(a, N):
        return tags(b) if tags(b) <= S("L", "U") else None
    if isinstance(b, N):
        return tags(a) if tags(a) <= S("L", "U") else None
    return frozenset(_add1(x, y) for x in tags(a) for y in tags(b))


def sub(a: Any, b: Any) -> Any:
    if tags(a) == S("U") and tags(b) == S("L"):
        return S("+")
    if tags(a) == S("L") and tags(b) == S("U"):
        return S("-")
    nb = neg(b)
    return add(a, nb)


def mul(a: Any, b: Any, div: bool = False) -> Any:
    if isinstance(a, N) and isinstance(b, N):
        if div:
            if b.lo <= 0:
                return None
            c = [a.lo / b.lo, a.lo / b.hi, a.hi / b.lo, a.hi / b.hi]
        else:
            c = [a.lo * b.lo, a.lo * b.hi, a.hi * b.lo, a.hi * b.hi]
        return N(min(c), max(c))
    for x, y, first in ((a, b, True), (b, a, False)):
        if isinstance(y, N) and not isinstance(x, N):
            tx = tags(x)
            if div and not first:
                return S("+") if tx == S("+") and y.lo > 0 else None
            if tx <= S("L", "U", "+", "-", "p", "m"):
                return tx if y.lo >= 0 else neg(tx) if y.hi <= 0 else None
            if not div and y.lo == y.hi and 0.8 <= y.lo < 1:
                return S("L")
            if not div and y.lo == y.hi and 1 < y.lo <= 1.2:
                return S("U")
            return None
    out: Set[str] = set()
    for x in tags(a):
        for y in tags(b):
            if x + y in ("p?", "?p", "m?", "?m"):     # a normal or t score only ever scales a margin
                out.add("+" if "p" in x + y else "-")
                continue
            x, y = _FLAT.get(x, x), _FLAT.get(y, y)
            if x in "+-" and y in "+-":
                out.add("+" if x == y else "-")
            elif x in "LU" and y in "+-":
                out.add(x if y == "+" else _NEG[x])
            elif y in "LU" and x in "+-" and not div:
                out.add(y if x == "+" else _NEG[y])
            else:
                out.add("?")
    return frozenset(out)


def level(v: Any, scale: float = 1.0) -> Optional[str]:
    if isinstance(v, N):
        lo, hi = v.lo / scale, v.hi / scale
        if 0 <= lo and hi <= 0.5 and lo < 0.5:
            return "low"
        if 0.5 <= lo and hi <= 1 and hi > 0.5:
            return "high"
    return None


def keytext(e: ast.AST, env: Dict[str, Any]) -> Any:
    """the text of a key, as far as it is spelled out"""
    if isinstance(e, ast.Constant):
        return e.value
    if isinstance(e, ast.Name):
        if isinstance(env.get(e.id), K):
            return env[e.id].s
        if e.id.isupper() or role(e.id) and set(e.id.split("_")) & {"col", "column", "name", "key"}:
            return e.id
        return None
    if isinstance(e, ast.JoinedStr):
        return "".join(x.value if isinstance(x, ast.Constant) else str(keytext(x.value, env) or " ") for x in e.values)
    if isinstance(e, ast.Call) and isinstance(e.func, ast.Attribute) and e.func.attr == "format" and isinstance(e.func.value, ast.Constant):
        t = str(e.func.value.value)
        for a in e.args:
            t = t.replace("{}", str(keytext(a, env) or " "), 1)
        return t
    if isinstance(e, ast.BinOp) and isinstance(e.op, (ast.Add, ast.Mod)):
        a, b = keytext(e.left, env), keytext(e.right, env) if isinstance(e.op, ast.Add) else " "
        if isinstance(a, str) or isinstance(b, str):
            return f"{a if isinstance(a, str) else ' '}{b if isinstance(b, str) else ' '}"
    return None


def by_name(name: str) -> Any:
    r = role(name)
    if r:
        return S(r)
    t = [x for x in re.split(r"[^a-z0-9]+", name.lower()) if x]
    if "alpha" in t:
        return N(0.0, 0.5)
    if name in ("confidence_level", "interval_width", "confidence", "conf_level"):
        return N(0.5, 1.0)
    if set(t) & MARGIN and "threshold" not in t:
        return S("+")
    return None


class Pol:
    def __init__(self, prj: Project, c: Optional[Ctx] = None) -> None:
        self.prj, self.c = prj, c
        self.alarms: Dict[Tuple[str, str], Tuple[str, str]] = {}
        self.memo: Dict[Any, Any] = {}
        self.active: List[Func] = []
        self.stats: Dict[str, int] = {}
        self.sites: Set[Tuple[str, int, int, str]] = set()

    # ---------------------------------------------------------------- sinks
    def sink(self, want: Optional[str], v: Any, f: Func, node: ast.AST, what: str) -> None:
        if want is None:
            return
        tg = tags(v)
        known = tg - S("?", "+", "-", "C", "p", "m")
        self.sites.add((f.qual, getattr(node, "lineno", 0), getattr(node, "col_offset", 0), "decided" if known else "open"))
        bad = False
        if want in "LU":
            bad = _NEG[want] in tg
        elif want == "C":
            bad = bool(tg) and tg <= S("L", "U")
        if bad:
            side = {"L": "lower", "U": "upper", "C": "central"}
            got = {"L": "upper", "U": "lower"}.get(want) or ("upper" if "U" in tg else "lower")
            self.alarms.setdefault((f.short, what), (f.where(node), f"the {side[want]} value `{what}` receives a value that lies on the {got} side"))

    # ---------------------------------------------------------------- expressions
    def ev(self, e: Optional[ast.AST], env: Dict[str, Any], f: Func) -> Any:
        if e is None:
            return None
        k = ("@", ast.dump(e)) if isinstance(e, ast.Subscript) else None
        if isinstance(e, ast.Constant):
            if isinstance(e.value, (int, float)) and not isinstance(e.value, bool):
                return N(float(e.value), float(e.value))
            return K(e.value) if isinstance(e.value, str) else None
        if isinstance(e, (ast.JoinedStr, ast.BinOp)) and isinstance(keytext(e, env), str) and role(keytext(e, env)):
            return K(keytext(e, env))
        if isinstance(e, ast.Name):
            if e.id in env:
                return env[e.id]
            return None
        if isinstance(e, ast.Attribute):
            d = ast.unparse(e)
            if d in env:
                return env[d]
            if d in ("np.inf", "numpy.inf", "math.inf"):
                return S("U")
            b = self.ev(e.value, env, f)
            if isinstance(b, D) and b.items.get(e.attr) is not None:
                return b.items[e.attr]
            own = by_name(e.attr)
            if own is not None:
                return own
            if e.attr in PASS_ATTR and isinstance(b, (frozenset, T, D)):
                return b
            return None
        if isinstance(e, ast.Subscript):
            r = self.refined(e, env)
            if r is not None:
                return r
            b = self.ev(e.value, env, f)
            sl = e.slice
            key = keytext(sl, env)
            if isinstance(b, D) and b.items.get(key) is not None:
                return b.items[key]
            if isinstance(key, str):
                own = by_name(key)
                if own is not None:
                    return own
                return None
            if isinstance(b, T):
                if isinstance(key, int) and -len(b.items) <= key < len(b.items):
                    return b.items[key]
                return None
            if isinstance(b, frozenset) and not b >= S("L", "U"):
                return b
            return None
        if isinstance(e, ast.UnaryOp):
            v = self.ev(e.operand, env, f)
            return neg(v) if isinstance(e.op, ast.USub) else v if isinstance(e.op, ast.UAdd) else None
        if isinstance(e, ast.BinOp):
            a, b = self.ev(e.left, env, f), self.ev(e.right, env, f)
            if isinstance(e.op, ast.Mult) and (isinstance(e.left, (ast.List, ast.Tuple)) or isinstance(e.right, (ast.List, ast.Tuple))):
                x = a if isinstance(e.left, (ast.List, ast.Tuple)) else b
                return tags(x) if isinstance(x, T) and tags(x) != S("?") else None
            if isinstance(e.op, ast.Add):
                if isinstance(a, T) and isinstance(b, T):
                    return T(a.items + b.items)
                return add(a, b)
            if isinstance(e.op, ast.Sub):
                return sub(a, b)
            if isinstance(e.op, ast.Mult):
                return mul(a, b)
            if isinstance(e.op, ast.Div):
                return mul(a, b, True)
            if isinstance(e.op, ast.Pow) and isinstance(b, N) and b.lo == b.hi and (b.lo % 2 == 0 or b.lo == 0.5):
                return S("+")
            if isinstance(e.op, (ast.BitAnd, ast.BitOr, ast.MatMult, ast.Mod, ast.FloorDiv)):
                return None
            return None
        if isinstance(e, ast.IfExp):
            self.ev(e.test, env, f)
            return join(self.ev(e.body, self.branch(e.test, env, True), f), self.ev(e.orelse, self.branch(e.test, env, False), f))
        if isinstance(e, (ast.Tuple, ast.List)):
            out = []
            for x in e.elts:
                v = self.ev(x.value if isinstance(x, ast.Starred) else x, env, f)
                if isinstance(x, ast.Starred) and isinstance(v, T):
                    out += v.items
                else:
                    out.append(v)
            return T(out)
        if isinstance(e, ast.Dict):
            items: Dict[Any, Any] = {}
            for kx, vx in zip(e.keys, e.values):
                v = self.ev(vx, env, f)
                if kx is None:
                    if isinstance(v, D):
                        items.update(v.items)
                    continue
                key = keytext(kx, env)
                if key is not None:
                    if isinstance(vx, ast.Constant) and role(vx.value) and role(key):
                        v = S(role(vx.value) or "")
                    self.keyed(key, v, f, vx)
                    items[key] = v
            return D(items)
        if isinstance(e, (ast.ListComp, ast.GeneratorExp, ast.SetComp)):
            env2 = dict(env)
            if len(e.generators) == 1 and not e.generators[0].ifs:
                each = self.elements(e.generators[0].iter, env, f)
                if each is not None:
                    res = []
                    for x in each:
                        env3 = dict(env)
                        self.bind_target(e.generators[0].target, x, env3, f)
                        res.append(self.ev(e.elt, env3, f))
                    return T(res)
            for g in e.generators:
                self.bind_target(g.target, self.element(g.iter, env2, f), env2, f)
            v = self.ev(e.elt, env2, f)
            return tags(v) if not isinstance(v, (T, D)) and tags(v) != S("?") else None
        if isinstance(e, ast.DictComp):
            env2 = dict(env)
            if len(e.generators) == 1 and not e.generators[0].ifs:
                each = self.elements(e.generators[0].iter, env, f)
                if each is not None:
                    dd: Dict[Any, Any] = {}
                    for x in each:
                        env3 = dict(env)
                        self.bind_target(e.generators[0].target, x, env3, f)
                        key = keytext(e.key, env3)
                        v = self.ev(e.value, env3, f)
                        if isinstance(key, str):
                            self.keyed(key, v, f, e)
                            dd[key] = v
                    return D(dd)
            for g in e.generators:
                self.bind_target(g.target, self.element(g.iter, env2, f), env2, f)
            self.ev(e.value, env2, f)
            return None
        if isinstance(e, ast.NamedExpr):
            v = self.ev(e.value, env, f)
            env[e.target.id] = v
            return v
        if isinstance(e, ast.Call):
            return self.call(e, env, f)
        if isinstance(e, (ast.Await, ast.Starred)):
            return self.ev(e.value, env, f)
        for ch in ast.iter_child_nodes(e):
            if isinstance(ch, ast.expr) and not isinstance(e, ast.Lambda):
                self.ev(ch, env, f)
        return None

    def keyed(self, key: Any, v: Any, f: Func, node: ast.AST) -> None:
        r = role(key)
        if r is None and key in ("fcst", "yhat"):
            r = "C"
        self.sink(r, v, f, node, str(key))

    def elements(self, it: ast.AST, env: Dict[str, Any], f: Func) -> Optional[List[Any]]:
        """the single elements of an iteration over something spelled out"""
        if isinstance(it, ast.Call) and isinstance(it.func, ast.Name) and it.func.id in ("zip", "enumerate") and it.args:
            cols = [self.elements(a, env, f) for a in it.args]
            if it.func.id == "enumerate":
                cols = [[N(float(i), float(i)) for i in range(len(cols[0] or []))]] + cols[:1] if cols[0] is not None else [None]
            if all(x is None for x in cols):
                return None
            n = min(len(x) for x in cols if x is not None)
            out = []
            for i in range(n):
                out.append(T([x[i] if x is not None else None for x in cols]))
            return out
        if isinstance(it, ast.Call) and isinstance(it.func, ast.Attribute) and it.func.attr in ("items", "keys", "values") and not it.args:
            d = self.ev(it.func.value, env, f)
            if isinstance(d, D) and all(isinstance(k, str) for k in d.items) and isinstance(it.func.value, ast.Dict):
                return [T([K(k), v]) if it.func.attr == "items" else K(k) if it.func.attr == "keys" else v for k, v in d.items.items()]
            return None
        v = self.ev(it, env, f)
        if isinstance(v, T) and isinstance(it, (ast.Tuple, ast.List)) and 0 < len(v.items) <= 8:
            return v.items
        return None

    def element(self, it: ast.AST, env: Dict[str, Any], f: Func) -> Any:
        if isinstance(it, ast.Call) and isinstance(it.func, ast.Name) and it.func.id == "zip":
            return T([self.element(a, env, f) for a in it.args])
        if isinstance(it, ast.Call) and isinstance(it.func, ast.Name) and it.func.id == "enumerate" and it.args:
            return T([None, self.element(it.args[0], env, f)])
        if isinstance(it, ast.Call) and isinstance(it.func, ast.Name) and it.func.id == "range":
            return None
        v = self.ev(it, env, f)
        if isinstance(v, T):
            if not v.items:
                return None
            r = v.items[0]
            for x in v.items[1:]:
                r = join(r, x)
            return r
        return v if isinstance(v, frozenset) else None

    def call(self, e: ast.Call, env: Dict[str, Any], f: Func) -> Any:
        fn = e.func
        name = fn.attr if isinstance(fn, ast.Attribute) else fn.id if isinstance(fn, ast.Name) else ""
        args = [self.ev(a.value if isinstance(a, ast.Starred) else a, env, f) for a in e.args]
        kw = {k.arg: self.ev(k.value, env, f) for k in e.keywords}
        for k in e.keywords:
            if k.arg is not None:
                self.keyed(k.arg, kw[k.arg], f, k.value)
        recv = self.ev(fn.value, env, f) if isinstance(fn, ast.Attribute) else None
        if name in ("getattr", "setattr") and len(e.args) >= 2 and isinstance(keytext(e.args[1], env), str):
            key = keytext(e.args[1], env)
            if name == "setattr":
                self.keyed(key, args[2] if len(args) > 2 else None, f, e)
                return None
            return args[0].items[key] if isinstance(args[0], D) and args[0].items.get(key) is not None else by_name(key)
        # quantiles
        if name in ("quantile", "nanquantile", "percentile", "nanpercentile", "ppf", "isf"):
            scale = 100.0 if "percentile" in name else 1.0
            pos = args[:1] if name in ("ppf", "isf") or len(args) == 1 else args[1:2] + args[:1]
            cand = [kw["q"]] if "q" in kw else pos[:1] if pos and isinstance(pos[0], (N, T)) else pos[1:] if pos and isinstance(recv, frozenset) else []
            std = name in ("ppf", "isf") and isinstance(fn, ast.Attribute) and ast.unparse(fn.value).split(".")[-1] in STANDARD \
                and not ({"loc", "scale"} & set(kw)) and not (len(args) > 1 and ast.unparse(fn.value).split(".")[-1] == "norm")
            if cand:
                q = cand[0]

                def one(x: Any) -> Any:
                    lv = level(x, scale)
                    if lv is None:
                        return None
                    low = (lv == "low") != (name == "isf")
                    return S("m" if low else "p") if std else S("L" if low else "U")
                return T([one(x) for x in q.items]) if isinstance(q, T) else one(q)
            return None
        if name in TRIPLES:
            return T([S(x) for x in TRIPLES[name]])
        if name in NONNEG:
            return S("+")
        if isinstance(fn, ast.Attribute) and name in ("extend", "append", "update", "combine", "add") and recv is not None:
            want = next(iter(recv)) if isinstance(recv, frozenset) and len(recv) == 1 and recv <= S("L", "U") else None
            named = self.named_side(fn.value, env)
            if want and (named or name == "extend") and args:
                self.sink(want, args[0], f, e, ast.unparse(fn.value))
        targets = []
        if name and name not in ("copy",):
            try:
                targets = self.prj.resolve_call(e, f)
            except RecursionError:
                targets = []
        if targets:
            cls = next((t.cls for t in targets if t.name == "__init__"), None)
            res: Any = None
            first = True
            for g in targets[:4]:
                bound, _ = self.prj.bind(e, g)
                vals = {}
                for p, a in bound.items():
                    if p.startswith("**") or p in (g.vararg, g.kwarg):
                        continue
                    v = self.ev(a, env, f)
                    vals[p] = v
                    if not any(k.arg == p for k in e.keywords):
                        r = role(p)
                        self.sink(r, v, f, a, p)
                if g.name == "__init__":
                    continue
                r2 = self.inline(g, vals)
                res = r2 if first else join(res, r2)
                first = False
            if cls is not None:
                if cls.name == "TimeSeriesData":
                    v = kw.get("value", args[2] if len(args) > 2 else kw.get("df", args[0] if args else None))
                    return v if isinstance(v, frozenset) else (tags(v) if tags(v) <= S("L", "U") else None)
                return None
            return res
        if name == "TimeSeriesData":
            v = kw.get("value", args[0] if args else None)
            return v if isinstance(v, frozenset) else None
        cls2 = self.prj.resolve_class(self.prj.dotted(fn, f.module)) if isinstance(fn, (ast.Name, ast.Attribute)) else None
        if cls2 is not None:
            flds = [s.target.id for s in cls2.node.body if isinstance(s, ast.AnnAssign) and isinstance(s.target, ast.Name)]
            for i, a in enumerate(e.args):
                if i < len(flds) and cls2.find("__init__") is None:
                    self.sink(role(flds[i]), args[i], f, a, flds[i])
            return None
        if name in ("max", "min", "maximum", "minimum", "fmax", "fmin"):
            t2 = {x for a in args for x in tags(a) if x in "LU"}
            return frozenset(t2) if len(t2) == 1 else None
        if isinstance(fn, ast.Attribute) and name in PRESERVE and recv is not None:
            return recv
        if name == "dict" and not args:
            return D({k: v for k, v in kw.items() if k})
        if name in CONVERT:
            if len(args) >= 1 and isinstance(args[0], D):
                return args[0]
            if name in ("full", "full_like") and len(args) > 1:
                return args[1] if isinstance(args[1], frozenset) else None
            if name == "cast" and len(args) > 1:
                return args[1]
            if name == "where" and len(args) == 3:
                return join(args[1], args[2])
            use = args or [kw[x] for x in ("data", "value") if x in kw]
            if name in ("array", "asarray", "list", "tuple", "stack", "vstack", "cast") and len(use) == 1 and isinstance(use[0], T) \
                    and not kw.get("axis") and len({frozenset(tags(x) & S("L", "U")) for x in use[0].items}) > 1:
                return use[0]
            if isinstance(kw.get("axis"), N) and name in ("concat", "concatenate", "stack", "append") and kw["axis"].lo != 0:
                return None
            if name == "DataFrame" and not args and isinstance(kw.get("data"), D):
                return kw["data"]
            if len(use) == 1 and isinstance(use[0], T) and all(isinstance(x, T) for x in use[0].items) and use[0].items:
                return use[0]
            got: Set[str] = set()
            for a in use:
                if isinstance(a, N):
                    continue
                got |= tags(a)
            got &= {"L", "U", "+", "-", "p", "m"}
            if name in ("exp", "expit") and not got & {"L", "U"}:
                return S("+")
            return frozenset(got) if got else None
        if isinstance(fn, ast.Attribute) and isinstance(fn.value, ast.Name) and fn.value.id == f.self_name and recv is None:
            got2 = {x for a in args for x in tags(a)}     # an operator kept on the object: applied to bounds it keeps their side
            if got2 & {"L", "U"} and not got2 & {"+", "-", "p", "m"} and len(got2 & {"L", "U"}) == 1:
                return frozenset(got2 & {"L", "U"})
        return None

    def named_side(self, e: ast.AST, env: Dict[str, Any]) -> bool:
        """the object is on a side because the code names it so, or because a caller passed it"""
        while isinstance(e, (ast.Attribute, ast.Subscript)):
            if isinstance(e, ast.Attribute) and role(e.attr):
                return True
            e = e.value
        return isinstance(e, ast.Name) and (e.id in env.get("#params", ()))

    def inline(self, g: Func, vals: Dict[str, Any]) -> Any:
        if len(self.active) > 3 or g in self.active:
            return None
        key = (g.qual, repr(sorted((k, repr(sorted(v)) if isinstance(v, frozenset) else repr(v)) for k, v in vals.items())))
        if key not in self.memo:
            self.memo[key] = None
            self.memo[key] = self.func(g, vals)
            if tags(self.memo[key]) >= S("L", "U") and not isinstance(self.memo[key], (T, D)):
                self.memo[key] = None       # which side it is may depend on an argument
        return self.memo[key]

    # ---------------------------------------------------------------- refinement by comparison
    def refined(self, e: ast.Subscript, env: Dict[str, Any]) -> Any:
        k = self.colkey(e)
        return env.get(k) if k else None

    @staticmethod
    def colkey(e: ast.AST) -> Optional[str]:
        if isinstance(e, ast.Subscript) and isinstance(e.slice, ast.Tuple) and e.slice.elts and isinstance(e.slice.elts[-1], ast.Constant):
            b = e.value
            while isinstance(b, ast.Attribute) and b.attr in ("iloc", "loc", "values"):
                b = b.value
            return f"#col {ast.unparse(b)} {e.slice.elts[-1].value}"
        return None

    def branch(self, test: ast.AST, env: Dict[str, Any], taken: bool) -> Dict[str, Any]:
        env = dict(env)
        if isinstance(test, ast.UnaryOp) and isinstance(test.op, ast.Not):
            return self.branch(test.operand, env, not taken)
        if isinstance(test, ast.Call) and isinstance(test.func, ast.Attribute) and test.func.attr in ("all", "any") and not test.args:
            test = test.func.value
        if isinstance(test, ast.Compare) and len(test.ops) == 1 and isinstance(test.ops[0], (ast.Lt, ast.LtE, ast.Gt, ast.GtE)):
            a, b = self.colkey(test.left), self.colkey(test.comparators[0])
            if a and b and a != b and a.rsplit(" ", 1)[0] == b.rsplit(" ", 1)[0]:
                less = isinstance(test.ops[0], (ast.Lt, ast.LtE)) == taken
                env[a], env[b] = (S("L"), S("U")) if less else (S("U"), S("L"))
        return env

    # ---------------------------------------------------------------- statements
    def bind_target(self, t: ast.AST, v: Any, env: Dict[str, Any], f: Func) -> None:
        if isinstance(t, ast.Name):
            env[t.id] = v
            for k in [k for k in env if k.startswith(f"#col {t.id} ") or k.startswith(t.id + ".")]:
                env.pop(k)
        elif isinstance(t, (ast.Tuple, ast.List)):
            for i, x in enumerate(t.elts):
                if isinstance(x, ast.Starred):
                    self.bind_target(x.value, None, env, f)
                else:
                    self.bind_target(x, v.items[i] if isinstance(v, T) and len(v.items) == len(t.elts) else None, env, f)
        elif isinstance(t, ast.Attribute):
            self.keyed(t.attr, v, f, t)
            d = ast.unparse(t)
            if role(t.attr) is None and v is not None:
                env[d] = v
            else:
                env.pop(d, None)
        elif isinstance(t, ast.Subscript):
            key = keytext(t.slice, env)
            if isinstance(key, str):
                self.keyed(key, v, f, t)
            b = self.ev(t.value, env, f)
            if isinstance(b, frozenset) and len(b) == 1 and b <= S("L", "U") and self.named_side(t.value, env):
                self.sink(next(iter(b)), v, f, t, ast.unparse(t.value))
            if isinstance(t.value, ast.Name):
                n = t.value.id
                if isinstance(b, D) and isinstance(key, str):
                    env[n] = D({**b.items, key: v})
                elif not isinstance(b, D) and not self.named_side(t.value, env) and not isinstance(key, str):
                    env[n] = v if b is None or isinstance(b, T) or "#" + n in env else join(b, v)
                    if isinstance(env[n], (T, D, N)):
                        env[n] = None

    def block(self, body: List[ast.stmt], env: Dict[str, Any], f: Func, ret: List[Any]) -> Optional[Dict[str, Any]]:
        for s in body:
            e2 = self.stmt(s, env, f, ret)
            if e2 is None:
                return None
            env = e2
        return env

    @staticmethod
    def merge(a: Optional[Dict[str, Any]], b: Optional[Dict[str, Any]]) -> Optional[Dict[str, Any]]:
        if a is None:
            return b
        if b is None:
            return a
        out = {}
        for k in set(a) & set(b):
            out[k] = a[k] if k == "#params" else join(a[k], b[k])
        for k in set(a) ^ set(b):
            if k.startswith("#col"):
                continue
            out[k] = a.get(k, b.get(k))
        return out

    def stmt(self, s: ast.stmt, env: Dict[str, Any], f: Func, ret: List[Any]) -> Optional[Dict[str, Any]]:
        if isinstance(s, ast.Assign):
            v = self.ev(s.value, env, f)
            for t in s.targets:
                self.bind_target(t, v, env, f)
        elif isinstance(s, ast.AnnAssign):
            if s.value is not None:
                self.bind_target(s.target, self.ev(s.value, env, f), env, f)
        elif isinstance(s, ast.AugAssign):
            old = self.ev(s.target, env, f)
            v = self.ev(s.value, env, f)
            op = {ast.Add: add, ast.Sub: sub, ast.Mult: mul, ast.Div: lambda a, b: mul(a, b, True)}.get(type(s.op))
            nv = op(old, v) if op else None
            if isinstance(nv, frozenset) and nv == S("?"):
                nv = None
            self.bind_target(s.target, nv, env, f)
        elif isinstance(s, ast.Expr):
            self.ev(s.value, env, f)
        elif isinstance(s, ast.Return):
            ret.append(self.ev(s.value, env, f))
            if s.value is not None:
                self.sink(role(f.name), ret[-1], f, s, f.name)
            return None
        elif isinstance(s, (ast.Raise, ast.Break, ast.Continue)):
            if isinstance(s, ast.Raise):
                return None
            return env
        elif isinstance(s, ast.If):
            self.ev(s.test, env, f)
            a = self.block(s.body, self.branch(s.test, env, True), f, ret)
            b = self.block(s.orelse, self.branch(s.test, env, False), f, ret)
            return self.merge(a, b)
        elif isinstance(s, (ast.For, ast.AsyncFor)):
            each = self.elements(s.iter, env, f)
            if each is not None:
                for x in each:
                    e2 = dict(env)
                    self.bind_target(s.target, x, e2, f)
                    env = self.block(s.body, e2, f, ret) or env
                return self.block(s.orelse, env, f, ret) if s.orelse else env
            for _ in range(2):
                e2 = dict(env)
                self.bind_target(s.target, self.element(s.iter, e2, f), e2, f)
                r = self.block(s.body, e2, f, ret)
                env = self.merge(env, r) or env
            r = self.block(s.orelse, env, f, ret) if s.orelse else env
            return r
        elif isinstance(s, ast.While):
            for _ in range(2):
                r = self.block(s.body, dict(env), f, ret)
                env = self.merge(env, r) or env
        elif isinstance(s, (ast.With, ast.AsyncWith)):
            for it in s.items:
                v = self.ev(it.context_expr, env, f)
                if it.optional_vars is not None:
                    self.bind_target(it.optional_vars, None, env, f)
            return self.block(s.body, env, f, ret)
        elif isinstance(s, ast.Try):
            r = self.block(s.body, dict(env), f, ret)
            if r is not None and s.orelse:
                r = self.block(s.orelse, r, f, ret)
            out = r
            for h in s.handlers:
                out = self.merge(out, self.block(h.body, dict(self.merge(env, r) or env), f, ret))
            if s.finalbody:
                out = self.block(s.finalbody, out if out is not None else dict(env), f, ret)
            return out
        elif isinstance(s, ast.Match):
            out = dict(env)
            for cs in s.cases:
                out = self.merge(out, self.block(cs.body, dict(env), f, ret)) or out
            return out
        elif isinstance(s, ast.Assert):
            self.ev(s.test, env, f)
        return env

    def func(self, f: Func, vals: Optional[Dict[str, Any]] = None) -> Any:
        env: Dict[str, Any] = {"#params": frozenset(f.params)}
        for p in f.params:
            env[p] = by_name(p)
            if vals and p in vals and role(p) is None and vals[p] is not None:
                env[p] = vals[p]
        self.active.append(f)
        ret: List[Any] = []
        try:
            self.block(f.node.body, env, f, ret)
        finally:
            self.active.pop()
        if not ret:
            return None
        r = ret[0]
        for x in ret[1:]:
            r = join(r, x)
        return r


def analyse(prj: Project) -> Pol:
    p = Pol(prj)
    for f in list(prj.funcs.values()):
        p.func(f)
    return p


GOOD = '''
import numpy as np
import pandas as pd
from scipy.stats import norm, t
def margin(sd, conf):
    return t.ppf((1 + conf) / 2.0, 9) * np.std(sd)
class M:
    def predict(self, x, alpha=0.05):
        z = norm.ppf(1 - alpha / 2)
        me = z * np.sqrt(x)
        self.y_lower = x - me
        self.y_upper = x + me
        return pd.DataFrame({"fcst": x, "fcst_lower": self.y_lower, "fcst_upper": self.y_upper})
    def q(self, x):
        low, mid, up = np.percentile(x, [2.5, 50, 97.5])
        return dict(lower=low, upper=up)
    def h(self, x, confidence=0.8):
        return pd.DataFrame({"fcst_lower": x - margin(x, confidence), "fcst_upper": x + margin(x, confidence)})
    def ci(self, frame):
        if frame.iloc[0, 0] < frame.iloc[0, 1]:
            lo, hi = frame.iloc[:, 0], frame.iloc[:, 1]
        else:
            lo, hi = frame.iloc[:, 1], frame.iloc[:, 0]
        return self.pack(lo, hi)
    def pack(self, lower, upper):
        return {"fcst_lower": lower, "fcst_upper": upper}
    def merge(self, a, b):
        a.lower.extend(b.lower)
        self.put(a.upper, b.upper)
    def put(self, ts, v):
        ts.value.iloc[0] = v
'''


def run(c: Ctx) -> None:
    g = analyse(Project(sources={"kats/g.py": GOOD}))
    c.selftest("quiet on correct intervals", not g.alarms)
    for a, b in (("x - me", "x + me"), ("1 - alpha / 2", "alpha / 2"), ("lower=low", "lower=up"), ("(1 + conf)", "(1 - conf)"),
                 ("self.pack(lo, hi)", "self.pack(hi, lo)"), ("extend(b.lower)", "extend(b.upper)"), ("put(a.upper, b.upper)", "put(a.upper, b.lower)"),
                 ('"fcst": x,', '"fcst": x + me,')):
        assert a in GOOD
        c.selftest(f"{a} -> {b}", bool(analyse(Project(sources={"kats/g.py": GOOD.replace(a, b)})).alarms))
    prj = Project()
    p = analyse(prj)
    c.count("functions analysed", len(prj.funcs))
    c.count("bound sinks", len({x[:3] for x in p.sites}))
    dec = {x[:3] for x in p.sites if x[3] == "decided"}
    c.count("bound sinks whose side was decided", len(dec))
    for x in sorted(dec)[:25]:
        c.sample(f"{x[0]}:{x[1]}")
    for (fn, what), (where, why) in sorted(p.alarms.items()):
        c.find("wrong-side", f"{fn}:{what}", where, why)
    c.floor("functions analysed", 300)
