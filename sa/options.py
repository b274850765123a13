"""Which option values does a constructor, function or method surely refuse / possibly accept?

For one callable and one parameter the abstract interpreter runs the body with that parameter bound
to a candidate (a constant, an open interval, a string unequal to every literal, an abstract series)
and the other parameters at their defaults, or unknown values of the annotated type. Verdicts:
  refuse   no normal exit is reachable and every exit is an error raised on purpose
  accept   a normal exit is reachable
  obscure  no normal exit is reachable but some exit is an accidental error (None.attr, KeyError ...)
"""
from __future__ import annotations

import ast
import math
from typing import Any, Dict, Iterator, List, Optional, Set, Tuple

from .absint import (NN, NONE, TOP, Budget, Frame, Interp, St, const, fresh, num, obj, typed)
from .project import Cls, Func, Project, own_nodes

TSD = "kats.consts.TimeSeriesData"
INF = math.inf


def make_tsd(it: Interp, st: St, kind: str):
    """an abstract series: 'uni', 'multi', 'any', 'empty'"""
    attrs: Dict[str, Any] = {}
    if kind == "uni":
        v, st = it.ext(st, "pandas.Series")
        attrs["value"] = v
    elif kind == "multi":
        v, st = it.ext(st, "pandas.DataFrame")
        attrs["value"] = v
    n = const(0) if kind == "empty" else num(1, INF, isint=True) if kind in ("uni", "multi") else num(0, INF, isint=True)
    if kind == "short":
        v, st = it.ext(st, "pandas.Series")
        attrs["value"] = v
        n = const(1)
    attrs["#len"] = n
    attrs["#kind"] = const(kind)
    t, st = it.ext(st, "pandas.Series")
    attrs["time"] = t
    st = st.setattr(t[1], "#len", n)
    if "value" in attrs:
        st = st.setattr(attrs["value"][1], "#len", n)
    return it.alloc(st, TSD, attrs, None, True)


def make_special(it: Interp, st: St, kind: str):
    if kind == "[unknown-string]":
        return it.alloc(st, "list", None, (fresh("elt"),))
    if kind == "[]":
        return it.alloc(st, "list", None, ())
    if kind == "{}":
        return it.alloc(st, "dict", None, ())
    if kind == "{unknown-string: any}":
        return it.alloc(st, "dict", None, ((fresh("key"), TOP),))
    return make_tsd(it, st, kind)


def tsd_stubs(it: Interp) -> None:
    def length(i, args, kw, st, fr, node):
        h = i.h(args[0], st)
        return [(h.attrs.get("#len", num(0, INF, isint=True)) if h is not None else num(0, INF, isint=True), st)]

    def uni(i, args, kw, st, fr, node):
        h = i.h(args[0], st)
        v = h.attrs.get("value") if h is not None else None
        hv = i.h(v, st) if v is not None else None
        if hv is not None and hv.cls == "ext:pandas.Series":
            return [(const(True), st)]
        if hv is not None and hv.cls == "ext:pandas.DataFrame":
            return [(const(False), st)]
        return [(typed("bool"), st)]

    def empty(i, args, kw, st, fr, node):
        h = i.h(args[0], st)
        n = h.attrs.get("#len") if h is not None else None
        if n is not None:
            z = i.eq(n, const(0), st)
            if z is not None:
                return [(const(z), st)]
        return [(typed("bool"), st)]

    def freq(i, args, kw, st, fr, node):
        return [i.ext(st, "pandas.Timedelta")]

    def cores(i, args, kw, st, fr, node):
        return [(num(1, INF, isint=True), st)]

    it.ext_stubs["multiprocessing.cpu_count"] = cores
    it.stubs[TSD + ".__len__"] = length
    it.stubs[TSD + ".is_univariate"] = uni
    it.stubs[TSD + ".is_empty"] = empty
    it.stubs[TSD + ".infer_freq_robust"] = freq


def new_interp(prj: Project, budget: int = 150000) -> Interp:
    it = Interp(prj, budget=budget)
    it.opaque_ctors.add(TSD)
    tsd_stubs(it)
    return it


def ann_names(prj: Project, f: Func, p: str) -> Set[str]:
    a = f.annotation(p)
    if a is None:
        return set()
    return set(prj.ann_types(a, f.module))


def ann_text(f: Func, p: str) -> str:
    a = f.annotation(p)
    return ast.unparse(a) if a is not None else ""


def base_value(it: Interp, f: Func, p: str, st: St) -> Tuple[Any, St]:
    """value of a parameter that is not under test"""
    d = f.default(p)
    if d is not None:
        return it.eval_default(d, f), st
    txt = ann_text(f, p)
    tys = ann_names(it.prj, f, p)
    if TSD in tys:
        return make_tsd(it, st, "any")
    for t in sorted(tys):
        c = it.prj.classes.get(t)
        if c is not None and not it.is_enum(c):
            return it.alloc(st, c.qual, None, None, True)
    if txt in ("int", "float"):
        return num(isint=txt == "int"), st
    if txt == "str":
        return typed("str"), st
    if txt == "bool":
        return typed("bool"), st
    if txt and "None" not in txt and "Optional" not in txt and "Any" not in txt:
        return NN, st
    return TOP, st


LOOSE = object()


def loose_value(it: Interp, f: Func, p: str, st: St) -> Tuple[Any, St]:
    """any value the annotation allows except None"""
    txt = ann_text(f, p)
    tys = ann_names(it.prj, f, p)
    d = f.default(p)
    if d is not None and not (isinstance(d, ast.Constant) and d.value is None):
        return it.eval_default(d, f), st
    if TSD in tys:
        return make_tsd(it, st, "any")
    low = txt.replace("Optional[", "").replace("]", "")
    if low in ("int", "float"):
        return num(isint=low == "int"), st
    if low == "str":
        return typed("str"), st
    return TOP, st


def run_entry(prj: Project, f: Func, binding: Dict[str, Any], tsd: Dict[str, str], budget: int = 150000, loose: bool = False):
    """(returns, raises) of calling f with the given parameter values"""
    it = new_interp(prj, budget)
    return run_on(it, f, binding, tsd, loose)


def run_on(it: Interp, f: Func, binding: Dict[str, Any], tsd: Dict[str, str], loose: bool = False):
    st = St()
    args: Dict[str, Any] = {}
    selfv = None
    if f.cls is not None and not f.is_static:
        c = f.cls
        if f.name == "__init__":
            selfv, st = it.alloc(st, c.qual)
            if c.ext_bases - {"ABC", "abc.ABC", "object"}:
                pass
        elif f.is_classmethod:
            selfv = ("cls", c.qual)
        else:
            selfv, st = it.alloc(st, c.qual, None, None, True)
    pos = f.posargs[1:] if selfv is not None else list(f.posargs)
    for p in pos + f.kwonly:
        if p in binding:
            args[p] = binding[p]
        elif p in tsd:
            args[p], st = make_special(it, st, tsd[p])
        else:
            args[p], st = loose_value(it, f, p, st) if loose else base_value(it, f, p, st)
    al = [selfv] if selfv is not None else []
    stub = it.stubs.pop(f.qual, None)
    try:
        return it.run(lambda: it.invoke(f, al, args, st, Frame(None, f.module, 0, None, None)))
    finally:
        if stub is not None:
            it.stubs[f.qual] = stub


def verdict(prj: Project, f: Func, binding: Dict[str, Any], tsd: Dict[str, str], budget: int = 40000, loose: bool = False) -> str:
    try:
        rets, exs = run_entry(prj, f, binding, tsd, budget, loose)
    except Budget:
        return "budget"
    except RecursionError:
        return "budget"
    if rets:
        return "accept"
    if not exs:
        return "none"
    if all(e.kind == "explicit" for e, _ in exs):
        return "refuse"
    return "obscure"


# ------------------------------------------------------------ candidate values
def closure_funcs(prj: Project, f: Func, depth: int = 3) -> List[Func]:
    out = [f]
    cur = [f]
    for _ in range(depth):
        nxt = []
        for g in cur:
            for n in own_nodes(g.node):
                if isinstance(n, ast.Call):
                    for h in prj.resolve_call(n, g, cha=False):
                        if h not in out:
                            out.append(h)
                            nxt.append(h)
        cur = nxt
    return out


def mined(prj: Project, f: Func) -> Tuple[List[float], List[str]]:
    nums: Set[float] = {0, 1}
    strs: Set[str] = set()

    def take(x: ast.AST) -> None:
        for k in ast.walk(x):
            if isinstance(k, ast.Constant):
                if isinstance(k.value, bool):
                    continue
                if isinstance(k.value, (int, float)) and abs(k.value) < 1e6:
                    nums.add(k.value)
                elif isinstance(k.value, str) and 0 < len(k.value) < 40:
                    strs.add(k.value)
            elif isinstance(k, ast.UnaryOp) and isinstance(k.op, ast.USub) and isinstance(k.operand, ast.Constant) and isinstance(k.operand.value, (int, float)):
                nums.add(-k.operand.value)

    for g in closure_funcs(prj, f):
        for n in own_nodes(g.node):
            if isinstance(n, ast.Compare):
                take(n)
                for x in [n.left] + n.comparators:
                    if isinstance(x, (ast.Name, ast.Attribute)):
                        d = prj._follow(prj.dotted(x, g.module) or "")
                        mod, _, last = d.rpartition(".")
                        m = prj.modules.get(mod)
                        if m is not None and isinstance(m.globals.get(last), (ast.List, ast.Tuple, ast.Set, ast.Dict, ast.Constant, ast.UnaryOp)):
                            v = m.globals[last]
                            take(v if not isinstance(v, ast.Dict) else ast.Tuple(elts=[k for k in v.keys if k is not None], ctx=ast.Load()))
    return sorted(nums), sorted(strs)


def candidates(prj: Project, f: Func, p: str, nums: List[float], strs: List[str]) -> Iterator[Tuple[str, Any]]:
    """(label, atom) candidates for one parameter"""
    txt = ann_text(f, p).lower()
    d = f.default(p)
    dv = d.value if isinstance(d, ast.Constant) else (-d.operand.value if isinstance(d, ast.UnaryOp) and isinstance(d.operand, ast.Constant) else None)
    any_ = not txt or "any" in txt
    isnum = any_ or "int" in txt or "float" in txt or (isinstance(dv, (int, float)) and not isinstance(dv, bool))
    union = "union" in txt or "|" in txt
    inlist = ("list[" in txt or "dict[" in txt or "tuple[" in txt or "set[" in txt) and not union
    isstr = any_ or ("str" in txt and not inlist) or isinstance(dv, str)
    isnum = isnum and not inlist
    yield "None", NONE
    if isnum:
        onlyint = "int" in txt and "float" not in txt
        for i, b in enumerate(nums):
            if onlyint and not float(b).is_integer():
                continue
            yield repr(b), const(b)
        pts = [b for b in nums if not onlyint or float(b).is_integer()]
        for lo, hi in zip([-INF] + pts, pts + [INF]):
            if onlyint:
                l2 = lo + 1 if lo != -INF else lo
                h2 = hi - 1 if hi != INF else hi
                if l2 > h2:
                    continue
                yield f"int({lo},{hi})", num(l2, h2, isint=True)
            else:
                yield f"({lo},{hi})", num(lo, hi, True, True)
    if isstr:
        yield "unknown-string", fresh(p)
        yield "''", const("")
        for s in strs:
            yield repr(s), const(s)
    elif isnum:
        yield "a-string", fresh(p)
    if "list" in txt:
        yield "[]", "[]"
        if "str" in txt:
            yield "[unknown-string]", "[unknown-string]"
    if "dict" in txt:
        yield "{}", "{}"
        if "str" in txt:
            yield "{unknown-string: any}", "{unknown-string: any}"


def public_entry(f: Func) -> bool:
    if f.parent is not None or f.is_setter and False:
        return False
    n = f.name
    if n.startswith("_") and n not in ("__init__", "__post_init__"):
        return False
    return True
