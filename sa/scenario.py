"""Scenarios: construct an object or call a function with given abstract values, then call further
methods on it; does the sequence surely end in an error raised on purpose?

A scenario is {"f": qualified callable, "args": {param: spec}, "then": [[method, {param: spec}] ...],
"loose": bool}. A spec is a literal ("3", "'add'", "[1, 2]"), an interval ("(0,1)" open reals,
"int(1,inf)" closed integers), "unknown-string" (a string equal to no literal), "any", "series:uni",
"series:uni:10", "object:<class>", "class:<class>", "enum:<class>.<member>", "unknown-enum", or a dict:
{"list": [spec ...]}, {"dict": {key: spec}}, {"obj": class, "attrs": {name: spec}} (other attributes unknown).
"self" in a scenario gives attributes of the receiver of a method scenario.
"""
from __future__ import annotations

import ast
import math
from typing import Any, Dict, List, Tuple

from .absint import NN, TOP, Budget, Frame, Interp, St, const, fresh, num, typed
from .options import TSD, ann_text, base_value, loose_value, make_special, make_tsd, new_interp
from .project import AnalysisBroken, Func, Project

SPECIAL = {"[unknown-string]", "[]", "{}", "{unknown-string: any}"}


def literal(it: Interp, st: St, v: Any) -> Tuple[Any, St]:
    if isinstance(v, (list, tuple)):
        xs = []
        for k in v:
            a, st = literal(it, st, k)
            xs.append(a)
        return it.alloc(st, "list" if isinstance(v, list) else "tuple", None, tuple(xs))
    if isinstance(v, dict):
        ks = []
        for k, w in v.items():
            a, st = literal(it, st, k)
            b, st = literal(it, st, w)
            ks.append((a, b))
        return it.alloc(st, "dict", None, tuple(ks))
    return const(v), st


def value(it: Interp, st: St, spec: Any, p: str) -> Tuple[Any, St]:
    if isinstance(spec, dict):
        if "list" in spec or "tuple" in spec:
            kind = "list" if "list" in spec else "tuple"
            xs = []
            for k, x in enumerate(spec[kind]):
                v, st = value(it, st, x, f"{p}{k}")
                xs.append(v)
            return it.alloc(st, kind, None, tuple(xs))
        if "dict" in spec:
            ks = []
            for k, x in spec["dict"].items():
                v, st = value(it, st, x, f"{p}_{k}")
                ks.append((const(k), v))
            return it.alloc(st, "dict", None, tuple(ks))
        at: Dict[str, Any] = {}
        for k, x in spec["attrs"].items():
            at[k], st = value(it, st, x, f"{p}_{k}")
        return it.alloc(st, spec["obj"], at, None, True)
    if spec in SPECIAL:
        return make_special(it, st, spec)
    if spec == "unknown-string":
        return fresh(p), st
    if spec == "any":
        return TOP, st
    if spec == "not-None":
        return NN, st
    if spec in ("a str", "an int", "a float", "a bool"):
        t = spec.split()[1]
        return (num(isint=True) if t == "int" else num() if t == "float" else typed(t)), st
    if spec.startswith("series:"):
        bits = spec.split(":")
        v, st = make_tsd(it, st, bits[1])
        if len(bits) > 2:
            n = const(int(bits[2]))
            st = st.setattr(v[1], "#len", n)
            h = it.h(v, st)
            for k in ("value", "time"):
                if k in h.attrs:
                    st = st.setattr(h.attrs[k][1], "#len", n)
                    if bits[1] == "uni" or k == "time":
                        shp, st = it.alloc(st, "tuple", None, [n], False)
                        st = st.setattr(h.attrs[k][1], "shape", shp)
        return v, st
    if spec.startswith("object:"):
        return it.alloc(st, spec[7:], None, None, True)
    if spec.startswith("class:"):
        return ("cls", spec[6:]), st
    if spec.startswith("enum:"):
        c, _, n = spec[5:].rpartition(".")
        return ("enum", c, n), st
    if spec.startswith("int(") or spec.startswith("("):
        isint = spec.startswith("int")
        body = spec[spec.index("(") + 1:-1].split(",")
        if len(body) == 2 and all(x.strip().lstrip("-").replace(".", "", 1).isdigit() or x.strip().lstrip("-") == "inf" or "e" in x for x in body):
            lo, hi = (float(x) for x in body)
            if isint:
                return num(lo if math.isinf(lo) else int(lo) + 1, hi if math.isinf(hi) else int(hi) - 1, isint=True), st
            lo, hi = (x if math.isinf(x) or not x.is_integer() else int(x) for x in (lo, hi))
            return num(lo, hi, True, True), st
    return literal(it, st, ast.literal_eval(spec))


def bind(it: Interp, f: Func, args: Dict[str, str], loose: bool, st: St, skip_self: bool) -> Tuple[Dict[str, Any], St]:
    out: Dict[str, Any] = {}
    pos = f.posargs[1:] if skip_self else list(f.posargs)
    for p in pos + f.kwonly:
        if p in args:
            out[p], st = value(it, st, args[p], p)
        else:
            out[p], st = loose_value(it, f, p, st) if loose else base_value(it, f, p, st)
    for p in args:
        if p not in out:
            if f.kwarg:
                out[p], st = value(it, st, args[p], p)
            else:
                raise AnalysisBroken(f"{f.qual} has no parameter {p}")
    return out, st


def wide_bind(it: Interp, f: Func, st: St, keep: List[str]) -> Tuple[Dict[str, Any], St]:
    """every argument, default or not, is some value its annotation allows"""
    out: Dict[str, Any] = {}
    for p in f.posargs[1:] + f.kwonly:
        d = f.default(p)
        t = ann_text(f, p)
        if d is None or p in keep:
            out[p], st = base_value(it, f, p, st)
        elif t in ("int", "float"):
            out[p] = num(isint=t == "int")
        elif t in ("str", "bool"):
            out[p] = typed(t)
        else:
            out[p] = TOP
    return out, st


def _decos(c) -> str:
    return " ".join(ast.unparse(d) for d in c.node.decorator_list)


def play(prj: Project, sc: Dict[str, Any], budget: int = 60000) -> Tuple[str, List[Any]]:
    """(verdict, raises): refuse | accept | obscure | budget | none"""
    try:
        return _play(prj, sc, budget)
    except (AttributeError, TypeError, ValueError, KeyError, IndexError, RecursionError):      # source this analysis does not read: undecided
        return "budget", []


def _play(prj: Project, sc: Dict[str, Any], budget: int = 60000) -> Tuple[str, List[Any]]:
    it = new_interp(prj, budget)
    f = prj.funcs.get(sc["f"])
    cq = None
    if f is None and sc["f"] in prj.classes:
        cq = sc["f"]
    elif f is None:
        raise AnalysisBroken(f"{sc['f']} not found")
    elif f.cls is not None and f.name in ("__init__", "__post_init__"):
        cq = sc.get("cls", f.cls.qual)
    loose = bool(sc.get("loose"))
    near: Any = None
    try:
        if cq is not None:
            init = f if f is not None and f.name == "__init__" and f.cls.qual == cq else prj.classes[cq].find("__init__")
            st = St()
            kw: Dict[str, Any] = {}
            if init is not None and not (init.cls.qual != cq and "dataclass" in _decos(prj.classes[cq])):
                kw, st = bind(it, init, sc.get("args", {}), loose, st, True)
            else:
                for p, s in sc.get("args", {}).items():
                    kw[p], st = value(it, st, s, p)
            m = prj.classes[cq].module
            opaque = it.opaque_ctors
            it.opaque_ctors = opaque - {cq}
            rets, exs = it.run(lambda: it.instantiate(cq, [], kw, st, Frame(None, m, 0, None, None), None))
            it.opaque_ctors = opaque
        else:
            st = St()
            al: List[Any] = []
            if f.cls is not None and not f.is_static:
                if f.is_classmethod:
                    al = [("cls", f.cls.qual)]
                else:
                    v, st = value(it, st, {"obj": sc.get("cls", f.cls.qual), "attrs": sc.get("self", {})}, "self")
                    al = [v]
            kw, st = bind(it, f, sc.get("args", {}), loose, st, bool(al))
            stub = it.stubs.pop(f.qual, None)
            rets, exs = it.run(lambda: it.invoke(f, al, kw, st, Frame(None, f.module, 0, None, None)))
            if stub is not None:
                it.stubs[f.qual] = stub
        if sc.get("shallow") and cq is not None:
            fam = {k.qual for k in prj.classes[cq].mro}
            near = lambda q: q in fam
        for name, args in sc.get("then", []):
            it.near = near
            if not rets:
                break
            if len(rets) > 24:
                rets = rets[:24] if sc.get("sample") else rets
            nxt: List[Any] = []
            for v, s in rets:
                h = it.h(v, s)
                c = prj.classes.get(h.cls) if h is not None else None
                g = c.find(name) if c is not None else None
                if g is None:
                    raise AnalysisBroken(f"{sc['f']}: no method {name}")
                kw, s2 = wide_bind(it, g, s, sc["wide"]) if sc.get("wide") else bind(it, g, args, loose, s, True)
                r, e = it.run(lambda: it.invoke(g, [v], kw, s2, Frame(None, g.module, 0, None, None), None, bool(sc.get("wide"))))
                nxt += [(v, s3) for _, s3 in r]
                exs = exs + e
            rets = nxt
    except (Budget, RecursionError):
        return "budget", []
    if rets:
        return "accept", exs
    if not exs:
        return "none", exs
    return ("refuse" if all(e.kind == "explicit" for e, _ in exs) else "obscure"), exs
