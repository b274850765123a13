"""Disjunctive abstract interpreter over the syntax tree.

Values are single atoms (constants, intervals, enum members, a string different from every
literal, heap objects, opaque objects, unknown); disjunction lives in the set of states, which is
capped by joining. Project functions are inlined to a bounded depth; everything else is opaque.
No code is run and no solver is used: branch conditions are decided on the atoms or both branches
are taken, with the tested variable narrowed.
"""
from __future__ import annotations

import ast
import builtins
import math
from typing import Any, Callable, Dict, List, NamedTuple, Optional, Set, Tuple

from .project import Cls, Func, Module, Project

TOP = ("top",)
NN = ("nn",)
NONE = ("c", "NoneType", None)
TRUE = ("c", "bool", True)
FALSE = ("c", "bool", False)
INF = math.inf


def const(v: Any):
    return ("c", type(v).__name__, v)


def is_const(a) -> bool:
    return a[0] == "c"


def num(lo=-INF, hi=INF, lo_open=False, hi_open=False, isint=False):
    if lo == hi and not lo_open and not hi_open:
        return const(lo)
    return ("num", lo, hi, lo_open, hi_open, isint)


def fresh(tag="x"):
    """a string that no literal of the program equals"""
    return ("fresh", tag)


def typed(name: str):
    return ("t", name)


def obj(oid: int):
    return ("obj", oid)


class HObj(NamedTuple):
    cls: str                     # project class qualname, 'list', 'dict', 'set', 'tuple' or 'ext:<dotted>'
    attrs: Dict[str, Any]
    elts: Optional[Tuple]        # list/set/tuple: atoms; dict: ((key, val), ...); None = unknown
    open: bool                   # attributes that are not recorded may exist


class St:
    __slots__ = ("env", "heap")

    def __init__(self, env=None, heap=None):
        self.env: Dict[str, Any] = env if env is not None else {}
        self.heap: Dict[int, HObj] = heap if heap is not None else {}

    def copy(self) -> "St":
        return St(dict(self.env), dict(self.heap))

    def setattr(self, oid: int, name: str, v) -> "St":
        s = self.copy()
        h = s.heap[oid]
        a = dict(h.attrs)
        a[name] = v
        s.heap[oid] = h._replace(attrs=a)
        return s

    def key(self):
        return (tuple(sorted(self.env.items(), key=lambda kv: kv[0]).__iter__()) and repr(sorted(self.env.items())), repr(self.heap))


class Exc(NamedTuple):
    kind: str        # explicit | implicit | maybe
    cls: str         # class name, dotted for project classes
    val: Any
    node: Any
    func: Any

    def where(self) -> str:
        return self.func.where(self.node) if self.func is not None else "?"


class Frame(NamedTuple):
    f: Optional[Func]
    module: Module
    depth: int
    cell: Optional[Dict[str, Any]]   # enclosing env for closures
    defcls: Optional[Cls]
    cur: Tuple = ()                  # exceptions being handled


class Budget(Exception):
    pass


BUILTIN_EXC = {n for n in dir(builtins) if isinstance(getattr(builtins, n), type) and issubclass(getattr(builtins, n), BaseException)}
STR_METHODS = {"lower", "upper", "strip", "lstrip", "rstrip", "startswith", "endswith", "split", "replace", "title", "capitalize",
               "join", "format", "isdigit", "casefold", "index", "find", "count", "isalpha", "isnumeric", "zfill"}
LISTLIKE = ("list", "tuple", "set", "frozenset")
NPNUM = {"int", "float", "bool"}


class Interp:
    def __init__(self, prj: Project, cap: int = 48, max_depth: int = 14, budget: int = 400000) -> None:
        self.prj = prj
        self.cap = cap
        self.max_depth = max_depth
        self.budget = budget
        self.steps = 0
        self.excs: List[List[Tuple[Exc, St]]] = [[]]
        self.in_try = 0
        self.stack: List[str] = []
        self.oid = 0
        self.clos: List[Tuple[Any, Dict[str, Any], Frame]] = []
        self.gcache: Dict[Tuple[str, str], Any] = {}
        self.gheap: Dict[int, HObj] = {}
        # hooks
        self.opaque_ctors: Set[str] = set()         # classes whose constructor is not interpreted
        self.near: Optional[Callable[[str], bool]] = None     # classes interpreted; None = all
        self.stubs: Dict[str, Callable] = {}        # function qualname -> stub(interp, selfatom, args, kwargs, st) -> [(v, st)]
        self.ext_stubs: Dict[str, Callable] = {}    # dotted external -> stub(interp, args, kwargs, st) -> [(v, st)]
        self.opaque_funcs: Set[str] = set()
        self.trace_calls: Optional[Callable] = None
        self.inlined: Set[str] = set()
        self.default_top: bool = False
        self.dict_views: bool = False               # obj.__dict__ is followed attribute by attribute

    # ------------------------------------------------------------------ heap
    def alloc(self, st: St, cls: str, attrs=None, elts=None, open_: bool = False):
        self.oid += 1
        s = st.copy()
        s.heap[self.oid] = HObj(cls, dict(attrs or {}), elts, open_)
        return obj(self.oid), s

    def h(self, v, st: St) -> Optional[HObj]:
        if v[0] != "obj":
            return None
        return st.heap.get(v[1]) or self.gheap.get(v[1])

    def own(self, v, st: St) -> St:
        """make sure a global's heap object lives in the state before it is written"""
        if v[1] not in st.heap:
            st = st.copy()
            st.heap[v[1]] = self.gheap[v[1]]
        return st

    def ext(self, st: St, name: str, **attrs):
        return self.alloc(st, f"ext:{name}", attrs, None, True)

    # ------------------------------------------------------------ exceptions
    def throw(self, kind: str, cls: str, st: St, node, fr: Frame, val=NN) -> None:
        self.excs[-1].append((Exc(kind, cls, val, node, fr.f), st))

    def maybe(self, st: St, node, fr: Frame) -> None:
        if self.in_try:
            self.throw("maybe", "Exception", st, node, fr)

    def exc_is(self, cls: str, want: str) -> Optional[bool]:
        """does an exception of class `cls` match handler class `want`?"""
        if want in ("Exception", "BaseException"):
            return True
        c = self.prj.classes.get(cls)
        w = self.prj.classes.get(want)
        if c is not None:
            if w is not None:
                return w in c.mro
            names = set()
            for k in c.mro:
                names |= {b.split(".")[-1] for b in k.base_quals}
            for n in names:
                if n == want.split(".")[-1]:
                    return True
                if n in BUILTIN_EXC and want in BUILTIN_EXC and issubclass(getattr(builtins, n), getattr(builtins, want)):
                    return True
            return False
        if cls in BUILTIN_EXC:
            if want in BUILTIN_EXC:
                return issubclass(getattr(builtins, cls), getattr(builtins, want))
            return False
        return None

    # --------------------------------------------------------------- capping
    def capst(self, sts: List[St]) -> List[St]:
        if len(sts) <= 6:
            return sts
        out, seen = [], set()
        for s in sts:
            k = (repr(sorted(s.env.items(), key=lambda kv: kv[0])), repr(sorted(s.heap.items())))
            if k not in seen:
                seen.add(k)
                out.append(s)
        if len(out) <= self.cap:
            return out
        groups: Dict[Any, St] = {}
        for s in out:
            k = self.shape(s)
            groups[k] = self.join(groups[k], s) if k in groups else s
        if len(groups) <= 6:
            return list(groups.values())
        j = out[0]
        for s in out[1:]:
            j = self.join(j, s)
        return [j]

    def shape(self, s: St):
        """key sets of the dictionaries in a state: states that differ in them are not merged"""
        return tuple(sorted((o, tuple(sorted(repr(k) for k, _ in h.elts)) if h.elts is not None else None)
                            for o, h in s.heap.items() if h.cls == "dict"))

    def capv(self, vs: List[Tuple[Any, St]]) -> List[Tuple[Any, St]]:
        if len(vs) <= self.cap:
            return vs
        by: Dict[Any, St] = {}
        for v, s in vs:
            by[(v, self.shape(s))] = self.join(by[(v, self.shape(s))], s) if (v, self.shape(s)) in by else s
        if len(by) <= self.cap:
            return [(v, s) for (v, _), s in by.items()]
        by = {}
        for v, s in vs:
            by[v] = self.join(by[v], s) if v in by else s
        if len(by) <= self.cap:
            return list(by.items())
        v0, s0 = vs[0]
        for v, s in vs[1:]:
            v0 = self.joinv(v0, v, s0, s)
            s0 = self.join(s0, s)
        return [(v0, s0)]

    def joinv(self, a, b, sa: St, sb: St):
        if a == b:
            return a
        if a[0] in ("top",) or b[0] in ("top",) or a == NONE or b == NONE:
            return TOP
        na, nb = self.as_num(a), self.as_num(b)
        if na is not None and nb is not None:
            lo = min((na[0], na[2]), (nb[0], nb[2]))
            hi = max((na[1], not na[3]), (nb[1], not nb[3]))
            return num(lo[0], hi[0], lo[1], not hi[1], na[4] and nb[4])
        if a[0] == "c" and b[0] == "c" and a[1] == b[1]:
            return typed(a[1])
        return NN

    def join(self, a: St, b: St) -> St:
        env = {}
        for k in set(a.env) | set(b.env):
            if k in a.env and k in b.env:
                env[k] = self.joinv(a.env[k], b.env[k], a, b)
            else:
                env[k] = TOP
        heap = {}
        for o in set(a.heap) | set(b.heap):
            x, y = a.heap.get(o), b.heap.get(o)
            if x is None or y is None:
                heap[o] = x or y
                continue
            if x == y:
                heap[o] = x
                continue
            at, op = {}, x.open or y.open
            for k in set(x.attrs) | set(y.attrs):
                if k in x.attrs and k in y.attrs:
                    at[k] = self.joinv(x.attrs[k], y.attrs[k], a, b)
                else:
                    op = True
            heap[o] = HObj(x.cls, at, self.join_elts(x, y, a, b), op)
        return St(env, heap)

    def join_elts(self, x: HObj, y: HObj, a: St, b: St):
        if x.elts == y.elts:
            return x.elts
        if x.elts is None or y.elts is None or len(x.elts) != len(y.elts) or x.cls != y.cls:
            return None
        if x.cls == "dict":
            dy = dict(y.elts)
            if len(dy) != len(y.elts) or not all(self.hashable_known(k) and k in dy for k, _ in x.elts):
                return None
            return tuple((k, self.joinv(v, dy[k], a, b)) for k, v in x.elts)
        if x.cls in ("list", "tuple"):
            return tuple(self.joinv(v, w, a, b) for v, w in zip(x.elts, y.elts))
        return None

    # ------------------------------------------------------------- statements
    def block(self, body: List[ast.stmt], st: St, fr: Frame) -> List[Tuple[str, Any, St]]:
        cur = [st]
        out: List[Tuple[str, Any, St]] = []
        for s in body:
            nxt: List[St] = []
            for c in cur:
                for ctl, v, s2 in self.stmt(s, c, fr):
                    if ctl == "next":
                        nxt.append(s2)
                    else:
                        out.append((ctl, v, s2))
            cur = self.capst(nxt)
            if not cur:
                break
        out.extend(("next", None, c) for c in cur)
        return out

    def tick(self) -> None:
        self.steps += 1
        if self.steps > self.budget:
            raise Budget()

    def stmt(self, s: ast.stmt, st: St, fr: Frame) -> List[Tuple[str, Any, St]]:
        self.tick()
        if isinstance(s, ast.Expr):
            if isinstance(s.value, ast.Constant):
                return [("next", None, st)]
            return [("next", None, s2) for _, s2 in self.ev(s.value, st, fr)]
        if isinstance(s, ast.Assign):
            out = []
            for v, s2 in self.ev(s.value, st, fr):
                sts = [s2]
                for t in s.targets:
                    sts = [s4 for s3 in sts for s4 in self.assign(t, v, s3, fr)]
                out.extend(("next", None, x) for x in sts)
            return out
        if isinstance(s, ast.AnnAssign):
            if s.value is None:
                return [("next", None, st)]
            return [("next", None, s3) for v, s2 in self.ev(s.value, st, fr) for s3 in self.assign(s.target, v, s2, fr)]
        if isinstance(s, ast.AugAssign):
            load = _as_load(s.target)
            e = ast.copy_location(ast.BinOp(left=load, op=s.op, right=s.value), s)
            return [("next", None, s3) for v, s2 in self.ev(e, st, fr) for s3 in self.assign(s.target, v, s2, fr)]
        if isinstance(s, ast.Return):
            if s.value is None:
                return [("return", NONE, st)]
            return [("return", v, s2) for v, s2 in self.ev(s.value, st, fr)]
        if isinstance(s, ast.If):
            out = []
            for t, s2 in self.cond(s.test, st, fr):
                out.extend(self.block(s.body if t else s.orelse, s2, fr))
            return out
        if isinstance(s, ast.Raise):
            return self.do_raise(s, st, fr)
        if isinstance(s, ast.Assert):
            out = []
            for t, s2 in self.cond(s.test, st, fr):
                if t:
                    out.append(("next", None, s2))
                else:
                    self.throw("explicit", "AssertionError", s2, s, fr)
            return out
        if isinstance(s, ast.Try) or s.__class__.__name__ == "TryStar":
            return self.do_try(s, st, fr)
        if isinstance(s, (ast.For, ast.AsyncFor)):
            return self.do_for(s, st, fr)
        if isinstance(s, ast.While):
            return self.do_while(s, st, fr)
        if isinstance(s, (ast.With, ast.AsyncWith)):
            sts = [st]
            suppress = False
            for it in s.items:
                nx = []
                if isinstance(it.context_expr, ast.Call) and ast.unparse(it.context_expr.func).endswith("suppress"):
                    suppress = True
                for s1 in sts:
                    for v, s2 in self.ev(it.context_expr, s1, fr):
                        if it.optional_vars is not None:
                            hv = self.h(v, s2)
                            keep = v if hv is not None and (hv.cls in self.prj.classes or hv.cls == "ext:pool") else TOP
                            nx.extend(self.assign(it.optional_vars, keep, s2, fr))
                        else:
                            nx.append(s2)
                sts = nx
            out = []
            for s1 in sts:
                if suppress:
                    self.excs.append([])
                    self.in_try += 1
                    out.extend(self.block(s.body, s1, fr))
                    self.in_try -= 1
                    for e, es in self.excs.pop():
                        out.append(("next", None, es))
                else:
                    out.extend(self.block(s.body, s1, fr))
            return out
        if isinstance(s, (ast.FunctionDef, ast.AsyncFunctionDef)):
            g = fr.f.inner.get(s.name) if fr.f is not None else None
            if g is None or s.decorator_list:
                v = TOP
            else:
                self.clos.append((g, st.env, fr))
                v = ("clo", len(self.clos) - 1)
            s2 = st.copy()
            s2.env[s.name] = v
            return [("next", None, s2)]
        if isinstance(s, ast.ClassDef):
            s2 = st.copy()
            s2.env[s.name] = TOP
            return [("next", None, s2)]
        if isinstance(s, ast.Delete):
            sts = [st]
            for t in s.targets:
                if isinstance(t, ast.Name):
                    s2 = st.copy()
                    s2.env.pop(t.id, None)
                    st = s2
                elif isinstance(t, ast.Subscript):
                    b = self.peek(t.value, st, fr)
                    if b is not None and b[0] == "obj" and self.h(b, st) is not None:
                        st = self.own(b, st).copy()
                        hb = st.heap[b[1]]
                        ix = const(t.slice.value) if isinstance(t.slice, ast.Constant) else \
                            self.peek(t.slice, st, fr) if not isinstance(t.slice, (ast.Slice, ast.Tuple)) else None
                        if hb.cls == "dict" and hb.elts is not None and ix is not None and self.hashable_known(ix) \
                                and all(self.hashable_known(k) for k, _ in hb.elts):
                            if not any(k == ix for k, _ in hb.elts):
                                self.throw("implicit", "KeyError", st, t, fr)
                                return []
                            st.heap[b[1]] = hb._replace(elts=tuple((k, w) for k, w in hb.elts if k != ix))
                        elif hb.cls == "list" and hb.elts is not None and ix is not None and is_const(ix) and isinstance(ix[2], int) \
                                and -len(hb.elts) <= ix[2] < len(hb.elts):
                            el = list(hb.elts)
                            del el[ix[2]]
                            st.heap[b[1]] = hb._replace(elts=tuple(el))
                        else:
                            st.heap[b[1]] = hb._replace(elts=None)
            return [("next", None, st)]
        if isinstance(s, (ast.Import, ast.ImportFrom)):
            return [("next", None, st)]
        if isinstance(s, ast.Break):
            return [("break", None, st)]
        if isinstance(s, ast.Continue):
            return [("continue", None, st)]
        if s.__class__.__name__ == "Match":
            return self.do_match(s, st, fr)
        return [("next", None, st)]    # Pass, Global, Nonlocal

    def do_raise(self, s: ast.Raise, st: St, fr: Frame):
        if s.exc is None:
            if fr.cur:
                e = fr.cur[-1]
                self.throw(e.kind if e.kind != "maybe" else "maybe_reraised", e.cls, st, e.node if e.kind != "maybe" else s, fr, e.val)
            else:
                self.throw("explicit", "RuntimeError", st, s, fr)
            return []
        for v, s2 in self.ev(s.exc, st, fr):
            cls = "Exception"
            if v[0] == "cls":
                cls = v[1]
            elif v[0] == "ext":
                cls = v[1].split(".")[-1]
            else:
                hv = self.h(v, s2)
                if hv is not None:
                    cls = hv.cls[4:].split(".")[-1] if hv.cls.startswith("ext:") else hv.cls
                elif v == NONE or is_const(v):
                    self.throw("implicit", "TypeError", s2, s, fr)
                    continue
            self.throw("explicit", cls, s2, s, fr, v)
        return []

    def handler_names(self, t: Optional[ast.AST], fr: Frame) -> List[str]:
        if t is None:
            return ["BaseException"]
        if isinstance(t, ast.Tuple):
            return [n for e in t.elts for n in self.handler_names(e, fr)]
        d = self.prj.dotted(t, fr.module) or ""
        c = self.prj.resolve_class(d)
        if c is not None:
            return [c.qual]
        return [d.split(".")[-1] if d.split(".")[-1] in BUILTIN_EXC else d]

    def do_try(self, s, st: St, fr: Frame):
        self.excs.append([])
        self.in_try += 1
        res = self.block(s.body, st, fr)
        self.in_try -= 1
        caught = self.excs.pop()
        out: List[Tuple[str, Any, St]] = []
        pending: List[Tuple[Exc, St]] = []
        if s.finalbody:
            self.excs.append([])
        for r in res:
            if r[0] == "next" and s.orelse:
                out.extend(self.block(s.orelse, r[2], fr))
            else:
                out.append(r)
        # merge 'maybe' exceptions: one joined state
        may = [x for x in caught if x[0].kind == "maybe"]
        if len(may) > 4:
            grp: Dict[Any, St] = {}
            for _, s2 in may:
                k = self.shape(s2) if len(may) < 400 else None
                grp[k] = self.join(grp[k], s2) if k in grp else s2
            if len(grp) > 4:
                js = may[0][1]
                for _, s2 in may[1:]:
                    js = self.join(js, s2)
                grp = {None: js}
            caught = [x for x in caught if x[0].kind != "maybe"] + [(may[0][0], js) for js in grp.values()]
        for e, es in caught:
            left = True
            for hd in s.handlers:
                names = self.handler_names(hd.type, fr)
                ms = [self.exc_is(e.cls, n) for n in names]
                if e.kind.startswith("maybe"):
                    hit: Optional[bool] = True if any(n in ("Exception", "BaseException") for n in names) else None
                elif any(m is True for m in ms):
                    hit = True
                elif any(m is None for m in ms):
                    hit = None
                else:
                    hit = False
                if hit is False:
                    continue
                s2 = es.copy()
                if hd.name:
                    s2.env[hd.name] = e.val if e.val != NN else NN
                out.extend(self.block(hd.body, s2, fr._replace(cur=fr.cur + (e,))))
                if hit is True:
                    left = False
                    break
            if left:
                pending.append((e, es))
        if s.finalbody:
            pending.extend(self.excs.pop())
            fin: List[Tuple[str, Any, St]] = []
            for ctl, v, s2 in out:
                for c2, v2, s3 in self.block(s.finalbody, s2, fr):
                    fin.append((ctl, v, s3) if c2 == "next" else (c2, v2, s3))
            out = fin
            for e, es in pending:
                for c2, v2, s3 in self.block(s.finalbody, es, fr):
                    if c2 == "next":
                        self.excs[-1].append((e, s3))
                    else:
                        out.append((c2, v2, s3))
        else:
            self.excs[-1].extend(pending)
        return out

    def elements(self, v, st: St, limit: int = 160) -> Optional[List[Any]]:
        """known elements of an iterable, or None"""
        hv = self.h(v, st)
        if hv is not None and hv.elts is not None:
            if hv.cls == "dict":
                return [k for k, _ in hv.elts]
            if hv.cls in LISTLIKE:
                return list(hv.elts) if len(hv.elts) <= limit else None
        elif hv is not None and hv.cls in self.prj.classes:
            c = self.prj.classes[hv.cls]
            if any(b.split(".")[-1] == "NamedTuple" for b in c.base_quals):
                names = [x.target.id for x in c.node.body if isinstance(x, ast.AnnAssign) and isinstance(x.target, ast.Name)]
                return [hv.attrs[n] for n in names] if all(n in hv.attrs for n in names) else None
        if v[0] == "c" and isinstance(v[2], str) and len(v[2]) <= limit:
            return [const(x) for x in v[2]]
        if v[0] == "range":
            r = range(*v[1])
            return [const(i) for i in r] if len(r) <= limit else None
        if v[0] == "cls":
            c = self.prj.classes.get(v[1])
            if c is not None and self.is_enum(c):
                return [("enum", c.qual, n) for n in self.enum_members(c)]
        return None

    def do_for(self, s, st: St, fr: Frame):
        out = []
        for v, s1 in self.ev(s.iter, st, fr):
            els = self.elements(v, s1)
            if els is not None:
                cur = [s1]
                done: List[St] = []
                for e in els:
                    nxt = []
                    for c in cur:
                        for c2 in self.assign(s.target, e, c, fr):
                            for ctl, rv, s3 in self.block(s.body, c2, fr):
                                if ctl in ("next", "continue"):
                                    nxt.append(s3)
                                elif ctl == "break":
                                    done.append(s3)
                                else:
                                    out.append((ctl, rv, s3))
                    cur = self.capst(nxt)
                for c in cur:
                    out.extend(self.block(s.orelse, c, fr) if s.orelse else [("next", None, c)])
                out.extend(("next", None, d) for d in done)
                continue
            self.maybe(s1, s, fr)
            # unknown number of iterations
            hs = self.havoc(s, s1, fr)
            el = TOP
            ended: List[St] = [s1]
            for c2 in self.assign(s.target, el, hs, fr):
                for ctl, rv, s3 in self.block(s.body, c2, fr):
                    if ctl in ("next", "continue"):
                        ended.append(self.havoc(s, s3, fr))
                    elif ctl == "break":
                        out.append(("next", None, s3))
                    else:
                        out.append((ctl, rv, s3))
            for c in self.capst(ended):
                out.extend(self.block(s.orelse, c, fr) if s.orelse else [("next", None, c)])
        return out

    def do_while(self, s: ast.While, st: St, fr: Frame):
        out = []
        # unroll while the test is decided
        first: List[Tuple[bool, St]] = []
        cur, rounds = [st], 0
        while cur and rounds < 40:
            rounds += 1
            nxt: List[St] = []
            for c in cur:
                ts = self.cond(s.test, c, fr)
                if rounds > 1 and len({t for t, _ in ts}) > 1 or (rounds == 1 and len({t for t, _ in ts}) != 1):
                    first.extend(ts)
                    continue
                for t, s1 in ts:
                    if not t:
                        first.append((False, s1))
                        continue
                    for ctl, rv, s3 in self.block(s.body, s1, fr):
                        if ctl in ("next", "continue"):
                            nxt.append(s3)
                        elif ctl == "break":
                            out.append(("next", None, s3))
                        else:
                            out.append((ctl, rv, s3))
            cur = self.capst(nxt)
        for c in cur:
            first.extend(self.cond(s.test, c, fr))
        for t, s1 in first:
            if not t:
                out.extend(self.block(s.orelse, s1, fr) if s.orelse else [("next", None, s1)])
                continue
            hs = self.havoc(s, s1, fr)
            for t2, s2 in self.cond(s.test, hs, fr):
                if not t2:
                    out.extend(self.block(s.orelse, s2, fr) if s.orelse else [("next", None, s2)])
                    continue
                for ctl, rv, s3 in self.block(s.body, s2, fr):
                    if ctl == "break":
                        out.append(("next", None, s3))
                    elif ctl == "return":
                        out.append((ctl, rv, s3))
        return out

    def havoc(self, loop, st: St, fr: Frame) -> St:
        s2 = st.copy()
        for n in ast.walk(loop):
            t = None
            if isinstance(n, ast.Name) and isinstance(n.ctx, ast.Store):
                s2.env[n.id] = TOP
            elif isinstance(n, ast.Attribute) and isinstance(n.ctx, ast.Store):
                b = self.peek(n.value, s2, fr)
                if b is not None and b[0] == "obj" and b[1] in s2.heap:
                    s2 = s2.setattr(b[1], n.attr, TOP)
            elif isinstance(n, ast.Subscript) and isinstance(n.ctx, ast.Store):
                t = n.value
            elif isinstance(n, ast.Call) and isinstance(n.func, ast.Attribute) and n.func.attr in (
                    "append", "extend", "insert", "pop", "remove", "update", "add", "clear", "setdefault", "discard"):
                t = n.func.value
            if t is not None:
                b = self.peek(t, s2, fr)
                if b is not None and b[0] == "obj":
                    s2 = self.own(b, s2).copy()
                    s2.heap[b[1]] = s2.heap[b[1]]._replace(elts=None)
        return s2

    def do_match(self, s, st: St, fr: Frame):
        out = []
        for v, s1 in self.ev(s.subject, st, fr):
            rest = True
            for c in s.cases:
                hit = self._match_pattern(c.pattern, v, s1, fr)
                if hit is False:
                    continue
                branches = [(True, s1)]
                if c.guard is not None:
                    branches = self.cond(c.guard, s1, fr)
                for t, s2 in branches:
                    if t:
                        out.extend(self.block(c.body, s2, fr))
                if hit is True and c.guard is None:
                    rest = False
                    break
            if rest:
                out.append(("next", None, s1))
        return out

    def _match_pattern(self, p, v, st: St, fr: Frame) -> Optional[bool]:
        if isinstance(p, ast.MatchValue):
            for w, _ in self.ev(p.value, st, fr):
                return self.eq(v, w, st)
            return None
        if isinstance(p, ast.MatchSingleton):
            return self.eq(v, const(p.value), st)
        if isinstance(p, ast.MatchAs):
            if p.pattern is None:
                if p.name:
                    st.env[p.name] = v
                return True
            return self._match_pattern(p.pattern, v, st, fr)
        if isinstance(p, ast.MatchOr):
            rs = [self._match_pattern(x, v, st, fr) for x in p.patterns]
            if any(r is True for r in rs):
                return True
            return False if all(r is False for r in rs) else None
        return None

    # ------------------------------------------------------------ assignment
    def assign(self, t: ast.AST, v, st: St, fr: Frame) -> List[St]:
        if isinstance(t, ast.Name):
            s2 = st.copy()
            s2.env[t.id] = v
            return [s2]
        if isinstance(t, ast.Starred):
            return self.assign(t.value, typed("list"), st, fr)
        if isinstance(t, (ast.Tuple, ast.List)):
            els = self.elements(v, st)
            if els is not None and len(els) == len(t.elts) and not any(isinstance(x, ast.Starred) for x in t.elts):
                sts = [st]
                for x, e in zip(t.elts, els):
                    sts = [s3 for s2 in sts for s3 in self.assign(x, e, s2, fr)]
                return sts
            sts = [st]
            for x in t.elts:
                sts = [s3 for s2 in sts for s3 in self.assign(x, TOP, s2, fr)]
            return sts
        if isinstance(t, ast.Attribute):
            out = []
            for b, s2 in self.ev(t.value, st, fr):
                out.extend(self.setattr_(b, t.attr, v, s2, t, fr))
            return out
        if isinstance(t, ast.Subscript):
            out = []
            for b, s2 in self.ev(t.value, st, fr):
                for i, s3 in self.ev_index(t.slice, s2, fr):
                    hb = self.h(b, s3)
                    if b == NONE:
                        self.throw("implicit", "TypeError", s3, t, fr)
                        continue
                    if hb is not None and (hb.cls in ("dict",) or hb.cls in LISTLIKE):
                        s3 = self.own(b, s3).copy()
                        hb = s3.heap[b[1]]
                        if hb.elts is None:
                            out.append(s3)
                            continue
                        if hb.cls == "dict":
                            if self.hashable_known(i):
                                el = [(k, v if k == i else w) for k, w in hb.elts] + ([] if any(k == i for k, _ in hb.elts) else [(i, v)])
                                s3.heap[b[1]] = hb._replace(elts=tuple(el))
                            else:
                                s3.heap[b[1]] = hb._replace(elts=None)
                        elif is_const(i) and isinstance(i[2], int) and -len(hb.elts) <= i[2] < len(hb.elts):
                            el = list(hb.elts)
                            el[i[2]] = v
                            s3.heap[b[1]] = hb._replace(elts=tuple(el))
                        else:
                            s3.heap[b[1]] = hb._replace(elts=None)
                    else:
                        self.maybe(s3, t, fr)
                    out.append(s3)
            return out
        return [st]

    @staticmethod
    def hashable_known(v) -> bool:
        return v[0] in ("c", "enum", "cls", "fn", "fresh")

    def setattr_(self, b, name: str, v, st: St, node, fr: Frame) -> List[St]:
        name = self.mangle(name, fr)
        if b == NONE:
            self.throw("implicit", "AttributeError", st, node, fr)
            return []
        hb = self.h(b, st)
        if hb is None:
            return [st]
        c = self.prj.classes.get(hb.cls)
        if name == "__dict__" and self.dict_views:
            hv = self.h(v, st)
            st = self.own(b, st).copy()
            known = hv is not None and hv.cls == "dict" and hv.elts is not None and all(is_const(k) for k, _ in hv.elts)
            st.heap[b[1]] = st.heap[b[1]]._replace(attrs={k[2]: w for k, w in hv.elts} if known else {}, open=hb.open or not known)
            return [st]
        if c is not None:
            setter = c.find_setter(name)
            if setter is not None:
                return [s2 for _, s2 in self.invoke(setter, [b, v], {}, st, fr)]
        st = self.own(b, st)
        return [st.setattr(b[1], name, v)]

    def mangle(self, name: str, fr: Frame) -> str:
        return name

    # ------------------------------------------------------------ conditions
    def truth(self, v, st: St) -> Optional[bool]:
        k = v[0]
        if k == "c":
            return bool(v[2])
        if k == "num":
            lo, hi = v[1], v[2]
            if lo > 0 or hi < 0 or (lo == 0 and v[3]) or (hi == 0 and v[4]):
                return True
            return None
        if k in ("fresh", "cls", "fn", "bound", "clo", "mod", "ext", "extb", "raw", "vars", "partial"):
            return True
        if k == "enum":
            c = self.prj.classes.get(v[1])
            if c is not None and any(b.split(".")[-1] in ("str", "int", "IntEnum", "float") for b in c.base_quals):
                val = self.enum_value(c, v[2])
                return self.truth(val, st) if val[0] == "c" else None
            return True
        if k == "range":
            return len(range(*v[1])) > 0
        if k == "obj":
            h = self.h(v, st)
            if h is None:
                return None
            if h.cls == "ext:json":
                return True
            if h.cls in LISTLIKE or h.cls == "dict":
                return None if h.elts is None else len(h.elts) > 0
            c = self.prj.classes.get(h.cls)
            if c is not None and not h.open:
                if "#len" in h.attrs and not c.find("__bool__"):
                    return self.truth(h.attrs["#len"], st)
                return None if c.find("__len__") or c.find("__bool__") else (True if not c.ext_bases - SAFE_BASES else None)
            if "#truth" in h.attrs:
                return h.attrs["#truth"]
            if "#len" in h.attrs and c is not None and not c.find("__bool__"):
                return self.truth(h.attrs["#len"], st)
            if c is not None and not c.find("__len__") and not c.find("__bool__"):
                return True
            return None
        return None

    def cond(self, e: ast.AST, st: St, fr: Frame) -> List[Tuple[bool, St]]:
        self.tick()
        if isinstance(e, ast.UnaryOp) and isinstance(e.op, ast.Not):
            return [(not t, s) for t, s in self.cond(e.operand, st, fr)]
        if isinstance(e, ast.BoolOp):
            isand = isinstance(e.op, ast.And)
            out: List[Tuple[bool, St]] = []
            cur = [st]
            for i, v in enumerate(e.values):
                nxt = []
                for s in cur:
                    for t, s2 in self.cond(v, s, fr):
                        if t == isand:
                            nxt.append(s2)
                        else:
                            out.append((t, s2))
                cur = self.capst(nxt)
            out.extend((isand, s) for s in cur)
            return out
        if isinstance(e, ast.Compare):
            if len(e.ops) == 1:
                return self.compare1(e.left, e.ops[0], e.comparators[0], st, fr, e)
            parts = []
            left = e.left
            for op, r in zip(e.ops, e.comparators):
                parts.append(ast.copy_location(ast.Compare(left=left, ops=[op], comparators=[r]), e))
                left = r
            return self.cond(ast.copy_location(ast.BoolOp(op=ast.And(), values=parts), e), st, fr)
        if isinstance(e, ast.NamedExpr):
            out = []
            for v, s2 in self.ev(e.value, st, fr):
                for s3 in self.assign(e.target, v, s2, fr):
                    out.extend(self.cond(_as_load(e.target), s3, fr))
            return out
        if isinstance(e, ast.Call) and isinstance(e.func, ast.Name) and e.func.id == "isinstance" and len(e.args) == 2:
            return self.isinstance_(e, st, fr)
        if isinstance(e, ast.Call) and isinstance(e.func, ast.Name) and e.func.id in ("any", "all") and len(e.args) == 1 \
                and isinstance(e.args[0], (ast.GeneratorExp, ast.ListComp)):
            return self.anyall(e, st, fr)
        if isinstance(e, ast.Call) and isinstance(e.func, ast.Name) and e.func.id == "bool" and len(e.args) == 1:
            return self.cond(e.args[0], st, fr)
        out = []
        for v, s2 in self.ev(e, st, fr):
            t = self.truth(v, s2)
            if t is not None:
                out.append((t, s2))
                continue
            out.append((True, self.refine(e, self.assume_truthy(v, s2), s2, fr)))
            out.append((False, self.refine(e, self.assume_falsy(v, s2), s2, fr)))
        return out

    def assume_truthy(self, v, st):
        if v == TOP:
            return NN
        if v == typed("bool"):
            return TRUE
        return v

    def assume_falsy(self, v, st):
        if v == typed("bool"):
            return FALSE
        if v[0] == "num":
            return const(0)
        return v

    def refine(self, e: ast.AST, v, st: St, fr: Frame) -> St:
        if isinstance(e, ast.Name):
            if e.id in st.env and st.env[e.id] != v:
                s2 = st.copy()
                s2.env[e.id] = v
                return s2
            return st
        if isinstance(e, ast.NamedExpr):
            return self.refine(e.target, v, st, fr)
        if isinstance(e, ast.Attribute):
            b = self.peek(e.value, st, fr)
            if b is not None and b[0] == "obj":
                h = self.h(b, st)
                if h is not None and (e.attr in h.attrs or h.open) and h.attrs.get(e.attr) != v:
                    return self.own(b, st).setattr(b[1], e.attr, v)
        if isinstance(e, ast.Subscript):
            b = self.peek(e.value, st, fr)
            if b is not None and b[0] == "obj" and isinstance(e.slice, ast.Constant):
                h = self.h(b, st)
                if h is not None and h.elts is not None and h.cls == "dict":
                    k = const(e.slice.value)
                    if any(kk == k for kk, _ in h.elts):
                        s2 = self.own(b, st).copy()
                        s2.heap[b[1]] = h._replace(elts=tuple((kk, v if kk == k else w) for kk, w in h.elts))
                        return s2
        if isinstance(e, ast.Call) and isinstance(e.func, ast.Name) and e.func.id == "len" and len(e.args) == 1:
            b = self.peek(e.args[0], st, fr)
            if b is not None and b[0] == "obj":
                h = self.h(b, st)
                if h is not None and (h.cls.startswith("ext:") or h.open):
                    return self.own(b, st).setattr(b[1], "#len", v)
        return st

    def peek(self, e: ast.AST, st: St, fr: Frame):
        """value of a pure path, without effects; None when it is not one"""
        if isinstance(e, ast.Name):
            if e.id in st.env:
                return st.env[e.id]
            if fr.cell is not None and e.id in fr.cell:
                return fr.cell[e.id]
            return self.global_(fr.module, e.id)
        if isinstance(e, ast.Attribute):
            b = self.peek(e.value, st, fr)
            if b is None:
                return None
            if b[0] == "obj":
                h = self.h(b, st)
                return h.attrs.get(e.attr) if h is not None else None
            return None
        return None

    # -- comparisons
    def as_num(self, v):
        """(lo, hi, lo_open, hi_open, isint) or None"""
        if v[0] == "num":
            return v[1:]
        if v[0] == "c" and isinstance(v[2], (int, float)) and v[2] == v[2]:
            return (v[2], v[2], False, False, isinstance(v[2], int))
        if v[0] == "t" and v[1] in NPNUM:
            return (-INF, INF, False, False, v[1] == "int")
        return None

    def lt(self, a, b, strict: bool) -> Optional[bool]:
        x, y = self.as_num(a), self.as_num(b)
        if x is None or y is None:
            if is_const(a) and is_const(b):
                try:
                    return a[2] < b[2] if strict else a[2] <= b[2]
                except TypeError:
                    return None
            return None
        alo, ahi, alo_o, ahi_o, _ = x
        blo, bhi, blo_o, bhi_o, _ = y
        openness = ahi_o or blo_o
        # surely a < b (a <= b)
        if ahi < blo or (ahi == blo and (openness or not strict)):
            return True
        # surely not: a >= b (a > b)
        o2 = alo_o or bhi_o
        if alo > bhi or (alo == bhi and (o2 or strict)):
            return False
        return None

    def eq(self, a, b, st: St) -> Optional[bool]:
        if a == b and a[0] in ("c", "enum", "cls", "fn", "fresh", "obj", "ext", "mod"):
            if a[0] == "c" and isinstance(a[2], float) and a[2] != a[2]:
                return False
            return True
        ka, kb = a[0], b[0]
        if ka == "top" or kb == "top":
            return None
        for x, y in ((a, b), (b, a)):
            if x[0] == "enum":
                c = self.prj.classes.get(x[1])
                mixin = c is not None and any(q.split(".")[-1] in ("str", "int", "IntEnum", "StrEnum") for q in c.base_quals)
                if y[0] == "c":
                    if mixin:
                        return self.eq(self.enum_value(c, x[2]), y, st)
                    return False
                if y[0] == "enum":
                    return False if x[1] == y[1] else None
                if y[0] == "fresh":
                    return False
        if ka == "c" and kb == "c":
            try:
                return bool(a[2] == b[2])
            except Exception:
                return None
        if "fresh" in (ka, kb):
            o = b if ka == "fresh" else a
            if o[0] in ("c", "num", "enum", "cls", "fn", "fresh"):
                return False
            if o[0] == "obj":
                return False
            return None
        for x, y in ((a, b), (b, a)):
            if y == NONE and x[0] in ("nn", "num", "t", "obj", "cls", "fn", "ext", "bound", "clo", "range", "mod", "extb", "raw", "vars", "partial"):
                return False
        x, y = self.as_num(a), self.as_num(b)
        if x is not None and y is not None:
            if self.lt(a, b, True) is True or self.lt(b, a, True) is True:
                return False
            return None
        if (x is not None and kb == "c") or (y is not None and ka == "c"):
            return False
        ha, hb = self.h(a, st), self.h(b, st)
        if ha is not None and hb is not None and ha.elts is not None and hb.elts is not None and ha.cls == hb.cls and ha.cls in LISTLIKE:
            if ha.cls in ("set", "frozenset"):
                if all(self.hashable_known(v) for v in ha.elts + hb.elts):
                    return set(ha.elts) == set(hb.elts)
                return None
            if len(ha.elts) != len(hb.elts):
                return False
            rs = [self.eq(p, q, st) for p, q in zip(ha.elts, hb.elts)]
            return False if any(r is False for r in rs) else (True if all(r is True for r in rs) else None)
        for p, q in ((a, hb), (b, ha)):
            if p[0] == "c" and q is not None and (q.cls in LISTLIKE or q.cls == "dict"):
                return False
        if ka == "cls" and kb == "cls":
            return False
        if (ka, kb) in (("cls", "ext"), ("ext", "cls")):
            return False
        if ka == "ext" and kb == "ext":
            return False if all(x[1].startswith("builtins.") for x in (a, b)) else None
        if ka == "t" and kb == "c" and a[1] == "str" and not isinstance(b[2], str):
            return False
        if kb == "t" and ka == "c" and b[1] == "str" and not isinstance(a[2], str):
            return False
        return None

    def narrow(self, v, op: str, w):
        """v restricted to `v op w` (w constant)"""
        y = self.as_num(w)
        if y is None:
            return v
        x = self.as_num(v)
        if x is None:
            if v[0] not in ("top", "nn"):
                return v
            x = (-INF, INF, False, False, False)
        lo, hi, lo_o, hi_o, isint = x
        if op in ("<", "<=") and (y[1], ) < (hi, ) or (op in ("<", "<=") and y[1] == hi):
            o = op == "<" or y[3]
            hi, hi_o = y[1], (o or (hi_o if y[1] == hi else False))
        elif op in (">", ">=") and (y[0] > lo or y[0] == lo):
            o = op == ">" or y[2]
            lo, lo_o = y[0], (o or (lo_o if y[0] == lo else False))
        if isint:
            if hi != INF and hi_o and float(hi).is_integer():
                hi, hi_o = hi - 1, False
            if lo != -INF and lo_o and float(lo).is_integer():
                lo, lo_o = lo + 1, False
        if lo > hi:
            return v
        return num(lo, hi, lo_o, hi_o, isint)

    def compare1(self, l: ast.AST, op, r: ast.AST, st: St, fr: Frame, node) -> List[Tuple[bool, St]]:
        out: List[Tuple[bool, St]] = []
        for a, s1 in self.ev(l, st, fr):
            for b, s2 in self.ev(r, s1, fr):
                out.extend(self.compare_vals(a, op, b, s2, l, r, fr))
        return out

    def compare_vals(self, a, op, b, s2: St, l, r, fr: Frame) -> List[Tuple[bool, St]]:
        if isinstance(op, (ast.Is, ast.IsNot, ast.Eq, ast.NotEq)):
            pos = isinstance(op, (ast.Is, ast.Eq))
            t = self.eq(a, b, s2)
            if isinstance(op, (ast.Is, ast.IsNot)) and is_const(a) and is_const(b) and a[1] != b[1]:
                t = False
            if t is not None:
                return [(t if pos else not t, s2)]
            st_t, st_f = s2, s2
            for x, e, y in ((a, l, b), (b, r, a)):
                if y[0] in ("c", "enum", "cls", "fn") and x[0] in ("top", "nn", "num", "t"):
                    st_t = self.refine(e, y, st_t, fr)
                    if y == NONE and x == TOP:
                        st_f = self.refine(e, NN, st_f, fr)
                    if x == typed("bool") and y[1] == "bool":
                        st_f = self.refine(e, const(not y[2]), st_f, fr)
                    n = self.as_num(x) if x[0] == "num" else None
                    yn = self.as_num(y)
                    if n is not None and yn is not None:
                        if n[0] == yn[0] and not n[2]:
                            st_f = self.refine(e, self.narrow(x, ">", y), st_f, fr)
                        elif n[1] == yn[0] and not n[3]:
                            st_f = self.refine(e, self.narrow(x, "<", y), st_f, fr)
            return [(pos, st_t), (not pos, st_f)]
        if isinstance(op, (ast.In, ast.NotIn)):
            pos = isinstance(op, ast.In)
            t = self.contains(a, b, s2, fr)
            if t is not None:
                return [(t if pos else not t, s2)]
            st_t = s2
            if a == TOP:
                els = self.elements(b, s2)
                if els is not None and all(x != NONE for x in els):
                    st_t = self.refine(l, NN, s2, fr)
            return [(pos, st_t), (not pos, s2)]
        strict = isinstance(op, (ast.Lt, ast.Gt))
        x, y, lx, ry, o1, o2 = a, b, l, r, "<", ">"
        if isinstance(op, (ast.Gt, ast.GtE)):
            x, y, lx, ry = b, a, r, l
        # x < y  /  x <= y
        if x == NONE or y == NONE:
            self.throw("implicit", "TypeError", s2, l, fr)
            return []
        t = self.lt(x, y, strict)
        if t is not None:
            return [(t, s2)]
        so, sno = ("<", ">=") if strict else ("<=", ">")
        rev = {"<": ">", "<=": ">=", ">": "<", ">=": "<="}
        st_t = self.refine(lx, self.narrow(x, so, y), s2, fr)
        st_t = self.refine(ry, self.narrow(y, rev[so], x), st_t, fr)
        if x[0] in ("num", "c") or self.as_num(x) is not None or True:
            st_f = s2
            if self.as_num(x) is not None:
                st_f = self.refine(lx, self.narrow(x, sno, y), st_f, fr)
            if self.as_num(y) is not None:
                st_f = self.refine(ry, self.narrow(y, rev[sno], x), st_f, fr)
        return [(True, st_t), (False, st_f)]

    def contains(self, a, b, st: St, fr: Frame) -> Optional[bool]:
        els = self.elements(b, st, 400)
        if b[0] == "c" and isinstance(b[2], str):
            if a[0] == "c" and isinstance(a[2], str):
                return a[2] in b[2]
            return False if a[0] == "fresh" else None
        if b[0] == "range" and is_const(a):
            return a[2] in range(*b[1])
        if els is not None:
            if b[0] == "cls" and a[0] == "c":
                c = self.prj.classes[b[1]]
                return any(self.eq(self.enum_value(c, n), a, st) is True for n in self.enum_members(c))
            rs = [self.eq(a, x, st) for x in els]
            if any(r is True for r in rs):
                return True
            if all(r is False for r in rs):
                return False
            return None
        hb = self.h(b, st)
        if hb is not None and "#lacks" in hb.attrs and a in hb.attrs["#lacks"]:
            return False
        return None

    def type_test(self, v, t, st: St) -> Optional[bool]:
        """isinstance(v, t) for one type atom t"""
        if t == TOP or t == NN:
            return None
        if v == TOP or v == NN:
            return None
        name = None
        tc = None
        if t[0] == "cls":
            tc = self.prj.classes.get(t[1])
            name = t[1].split(".")[-1]
        elif t[0] == "ext":
            name = t[1].split(".")[-1]
            if t[1] in TYPING_TYPES:
                name = TYPING_TYPES[t[1]]
        elif t == NONE:
            return v == NONE
        if name is None:
            return None
        if v[0] == "c":
            if tc is not None:
                return False
            tn = v[1]
            if tn == name:
                return True
            if name in ("int", "Integral") and tn == "bool":
                return True
            if name in ("Number", "Real") and tn in ("int", "float", "bool"):
                return True
            if name in ("Hashable", "object"):
                return True
            if name in ("Sequence", "Iterable", "Collection", "Sized") and tn == "str":
                return True
            return False
        if v[0] == "num":
            if tc is not None:
                return False
            if name == "int":
                return True if v[5] else None
            if name == "float":
                return False if v[5] else None
            if name in ("Number", "Real"):
                return True
            return False if name in ("str", "list", "dict", "tuple", "set", "Series", "DataFrame", "bool") else None
        if v[0] in ("fresh",) or v == typed("str"):
            if tc is not None:
                return False
            return name in ("str", "Sequence", "Iterable", "Hashable", "object")
        if v[0] == "t":
            if tc is not None and v[1] in ("list", "dict", "tuple", "set", "int", "float", "bool"):
                return False
            if v[1] == name:
                return True
            if v[1] in KNOWN_TYPES and name in KNOWN_TYPES:
                return False if not (v[1] == "bool" and name == "int") else True
            return None
        if v[0] == "enum":
            c = self.prj.classes.get(v[1])
            if tc is not None:
                return tc in c.mro if c else None
            if name in ("Enum",):
                return True
            return any(b.split(".")[-1] == name for b in c.base_quals) if c else None
        if v[0] == "raw":
            f = self.prj.funcs[v[1]]
            return (f.is_static if name == "staticmethod" else f.is_classmethod if name == "classmethod" else None) if tc is None else False
        if v[0] in ("fn", "bound", "clo"):
            return name in ("Callable", "FunctionType") if (tc is None) else False
        if v[0] == "cls":
            return name == "type" if tc is None else None
        hv = self.h(v, st)
        if hv is not None:
            c = self.prj.classes.get(hv.cls)
            if c is not None:
                if tc is not None:
                    if tc in c.mro:
                        return True
                    if hv.open and c in tc.mro:
                        return None
                    return False
                if any(name == b.split(".")[-1] for k in c.mro for b in k.base_quals):
                    return True
                return False if name in KNOWN_TYPES or not (c.ext_bases - SAFE_BASES) else None
            own = hv.cls[4:].split(".")[-1] if hv.cls.startswith("ext:") else hv.cls
            if tc is not None:
                return False if own in KNOWN_TYPES else None
            if own == name:
                return True
            if own in SUPERTYPES and name in SUPERTYPES[own]:
                return True
            if own in KNOWN_TYPES and name in KNOWN_TYPES:
                return False
            return None
        return None

    def isinstance_(self, e: ast.Call, st: St, fr: Frame) -> List[Tuple[bool, St]]:
        out: List[Tuple[bool, St]] = []
        for v, s1 in self.ev(e.args[0], st, fr):
            for t, s2 in self.ev(e.args[1], s1, fr):
                ts = self.flat_types(t, s2)
                rs = [self.type_test(v, x, s2) for x in ts] if ts is not None else [None]
                if any(r is True for r in rs):
                    out.append((True, s2))
                elif all(r is False for r in rs):
                    out.append((False, s2))
                else:
                    s_t = s2
                    if v in (TOP, NN) and ts is not None and len(ts) == 1:
                        nv, s3 = self.instance_of(ts[0], s2)
                        s_t = self.refine(e.args[0], nv, s3, fr)
                    elif v == TOP:
                        s_t = self.refine(e.args[0], NN, s2, fr)
                    out.append((True, s_t))
                    out.append((False, s2))
        return out

    def flat_types(self, t, st: St) -> Optional[List[Any]]:
        els = self.elements(t, st) if t[0] == "obj" else None
        if els is not None:
            out = []
            for x in els:
                f = self.flat_types(x, st)
                if f is None:
                    return None
                out.extend(f)
            return out
        if t[0] in ("cls", "ext") or t == NONE:
            return [t]
        return None

    def instance_of(self, t, st: St):
        if t[0] == "cls":
            c = self.prj.classes.get(t[1])
            if c is not None and self.is_enum(c):
                return NN, st
            return self.alloc(st, t[1], None, None, True)
        name = t[1].split(".")[-1] if t[0] == "ext" else ""
        if name in ("int", "float"):
            return num(isint=name == "int"), st
        if name in ("str", "bool"):
            return typed(name), st
        if name in ("list", "tuple", "dict", "set"):
            return self.alloc(st, name, None, None, True)
        return self.alloc(st, "ext:" + (t[1] if t[0] == "ext" else "?"), None, None, True)

    def anyall(self, e: ast.Call, st: St, fr: Frame) -> List[Tuple[bool, St]]:
        isany = e.func.id == "any"
        comp = e.args[0]
        if len(comp.generators) == 1:
            g = comp.generators[0]
            out = []
            for it, s1 in self.ev(g.iter, st, fr):
                els = self.elements(it, s1)
                if els is None:
                    # elements unknown: both outcomes
                    self.maybe(s1, e, fr)
                    els2 = None
                    out.extend([(True, s1), (False, s1)])
                    continue
                res: Optional[bool] = not isany
                for x in els:
                    for s2 in self.assign(g.target, x, s1, fr)[:1]:
                        flt: Optional[bool] = True
                        for c in g.ifs:
                            ts = {t for t, _ in self.cond(c, s2, fr)}
                            flt = (flt and ts == {True}) if len(ts) == 1 and flt is not None else (False if ts == {False} else None)
                        if flt is False:
                            continue
                        ts = {t for t, _ in self.cond(comp.elt, s2, fr)}
                        if len(ts) == 1 and flt is True:
                            if ts == {isany}:
                                res = isany
                                break
                        elif ts and not ts <= {not isany}:
                            res = None
                    if res is isany and ts == {isany} and flt is True:
                        break
                if res is None:
                    out.extend([(True, s1), (False, s1)])
                else:
                    out.append((res, s1))
            return out
        return [(True, st), (False, st)]

    # ------------------------------------------------------------ expressions
    def evs(self, es: List[ast.AST], st: St, fr: Frame) -> List[Tuple[Tuple, St]]:
        cur: List[Tuple[Tuple, St]] = [((), st)]
        for e in es:
            nxt = []
            for vs, s in cur:
                for v, s2 in self.ev(e, s, fr):
                    nxt.append((vs + (v,), s2))
            if len(nxt) > self.cap:
                js = nxt[0][1]
                jv = list(nxt[0][0])
                for vs, s in nxt[1:]:
                    jv = [self.joinv(a, b, js, s) for a, b in zip(jv, vs)]
                    js = self.join(js, s)
                nxt = [(tuple(jv), js)]
            cur = nxt
        return cur

    def ev(self, e: Optional[ast.AST], st: St, fr: Frame) -> List[Tuple[Any, St]]:
        self.tick()
        if e is None:
            return [(NONE, st)]
        if isinstance(e, ast.Constant):
            return [(const(e.value), st)]
        if isinstance(e, ast.Name):
            return [(self.name(e, st, fr), st)]
        if isinstance(e, ast.Attribute) and isinstance(e.value, ast.Compare):
            return [(TOP, s2) for _, s2 in self.evs([e.value.left] + e.value.comparators, st, fr)]     # (a > b).any(): elementwise
        if isinstance(e, ast.Attribute):
            out = []
            for b, s2 in self.ev(e.value, st, fr):
                out.extend(self.attr(b, e.attr, s2, e, fr))
            return self.capv(out)
        if isinstance(e, ast.Call):
            return self.capv(self.call(e, st, fr))
        if isinstance(e, (ast.Compare,)) or (isinstance(e, ast.UnaryOp) and isinstance(e.op, ast.Not)):
            if isinstance(e, ast.Compare) and self.elementwise(e, st, fr):
                out = []
                for _, s2 in self.evs([e.left] + e.comparators, st, fr):
                    out.append((TOP, s2))
                return out
            return [(const(t), s) for t, s in self.cond(e, st, fr)]
        if isinstance(e, ast.BoolOp):
            isand = isinstance(e.op, ast.And)
            out = []
            cur = [st]
            for i, v in enumerate(e.values):
                nxt = []
                for s in cur:
                    for w, s2 in self.ev(v, s, fr):
                        if i == len(e.values) - 1:
                            out.append((w, s2))
                            continue
                        t = self.truth(w, s2)
                        if t is None:
                            ref = self.assume_truthy(w, s2) if isand else self.assume_falsy(w, s2)
                            stop = self.assume_falsy(w, s2) if isand else self.assume_truthy(w, s2)
                            nxt.append(self.refine(v, ref, s2, fr))
                            out.append((stop, self.refine(v, stop, s2, fr)))
                        elif t == isand:
                            nxt.append(s2)
                        else:
                            out.append((w, s2))
                cur = nxt
            return out
        if isinstance(e, ast.IfExp):
            return [r for t, s2 in self.cond(e.test, st, fr) for r in self.ev(e.body if t else e.orelse, s2, fr)]
        if isinstance(e, ast.NamedExpr):
            return [(v, s3) for v, s2 in self.ev(e.value, st, fr) for s3 in self.assign(e.target, v, s2, fr)]
        if isinstance(e, (ast.List, ast.Tuple, ast.Set)):
            kind = {"List": "list", "Tuple": "tuple", "Set": "set"}[e.__class__.__name__]
            if any(isinstance(x, ast.Starred) for x in e.elts):
                out = []
                for vs, s2 in self.evs([x.value if isinstance(x, ast.Starred) else x for x in e.elts], st, fr):
                    els: Optional[List[Any]] = []
                    for x, v in zip(e.elts, vs):
                        if isinstance(x, ast.Starred):
                            k = self.elements(v, s2)
                            if k is None:
                                els = None
                                break
                            els.extend(k)
                        else:
                            els.append(v)
                    out.append(self.alloc(s2, kind, None, tuple(els) if els is not None else None))
                return out
            return [self.alloc(s2, kind, None, vs) for vs, s2 in self.evs(e.elts, st, fr)]
        if isinstance(e, ast.Dict):
            ks = [k for k in e.keys if k is not None]
            out = []
            for vs, s2 in self.evs([x for k, v in zip(e.keys, e.values) for x in ((k, v) if k is not None else (v,))], st, fr):
                it = iter(vs)
                els: Optional[List] = []
                for k in e.keys:
                    if k is None:
                        m = next(it)
                        hm = self.h(m, s2)
                        if hm is None or hm.elts is None or hm.cls != "dict":
                            els = None
                            break
                        for kk, vv in hm.elts:
                            els = [(a, b) for a, b in els if a != kk] + [(kk, vv)]
                    else:
                        kk, vv = next(it), next(it)
                        els = [(a, b) for a, b in els if a != kk] + [(kk, vv)]
                out.append(self.alloc(s2, "dict", None, tuple(els) if els is not None else None))
            return out
        if isinstance(e, ast.Subscript):
            return self.capv(self.subscript(e, st, fr))
        if isinstance(e, ast.BinOp):
            return [r for r in (self.binop(e, a, b, s2, fr) for (a, b), s2 in self.evs([e.left, e.right], st, fr)) if r is not None]
        if isinstance(e, ast.UnaryOp):
            out = []
            for v, s2 in self.ev(e.operand, st, fr):
                if isinstance(e.op, ast.USub) and is_const(v) and isinstance(v[2], (int, float)):
                    out.append((const(-v[2]), s2))
                elif isinstance(e.op, ast.USub) and v[0] == "num":
                    out.append((num(-v[2], -v[1], v[4], v[3], v[5]), s2))
                elif isinstance(e.op, ast.UAdd):
                    out.append((v, s2))
                else:
                    out.append((TOP, s2))
            return out
        if isinstance(e, ast.JoinedStr):
            return self.fstring(e, st, fr)
        if isinstance(e, ast.Lambda):
            self.clos.append((e, st.env, fr))
            return [(("clo", len(self.clos) - 1), st)]
        if isinstance(e, (ast.ListComp, ast.SetComp, ast.GeneratorExp, ast.DictComp)):
            return self.comp(e, st, fr)
        if isinstance(e, ast.Starred):
            return self.ev(e.value, st, fr)
        if isinstance(e, ast.Slice):
            return [(TOP, s2) for _, s2 in self.evs([x for x in (e.lower, e.upper, e.step) if x is not None], st, fr)]
        if isinstance(e, (ast.Yield, ast.YieldFrom, ast.Await)):
            return [(TOP, s2) for _, s2 in self.ev(getattr(e, "value", None), st, fr)]
        return [(TOP, st)]

    def elementwise(self, e: ast.Compare, st: St, fr: Frame) -> bool:
        """a comparison whose result is an array, not a bool"""
        for x in [e.left] + e.comparators:
            if isinstance(x, ast.Call):
                d = self.prj.dotted(x.func, fr.module) or ""
                if d.split(".")[0] in ("numpy", "pandas") and d.split(".")[-1] in ("array", "asarray", "abs", "Series", "DataFrame", "zeros", "ones", "arange", "isin"):
                    return not any(isinstance(o, (ast.Is, ast.IsNot, ast.In, ast.NotIn)) for o in e.ops)
            v = self.peek(x, st, fr) if isinstance(x, (ast.Name, ast.Attribute)) else None
            if v is not None and v[0] == "obj":
                h = self.h(v, st)
                if h is not None and h.cls in ("ext:pandas.Series", "ext:pandas.DataFrame", "ext:numpy.ndarray"):
                    return not any(isinstance(o, (ast.Is, ast.IsNot, ast.In, ast.NotIn)) for o in e.ops)
        return False

    def name(self, e: ast.Name, st: St, fr: Frame):
        if e.id in st.env:
            return st.env[e.id]
        if fr.cell is not None and e.id in fr.cell:
            return fr.cell[e.id]
        return self.global_(fr.module, e.id)

    def global_(self, m: Module, n: str):
        k = (m.name, n)
        if k in self.gcache:
            return self.gcache[k]
        self.gcache[k] = TOP
        v = TOP
        if n in m.classes:
            v = ("cls", m.classes[n].qual)
        elif n in m.functions:
            v = ("fn", m.functions[n].qual)
        elif n in m.globals:
            g = self.try_global(m, n)
            if g is not None:
                v = self.eval_static(g, m)      # the optional package is there
            elif self.n_global_assigns(m, n) == 1:
                v = self.eval_static(m.globals[n], m)
        elif n in m.imports:
            v = self.dotted_value(m.imports[n])
        elif hasattr(builtins, n):
            v = ("ext", "builtins." + n) if not isinstance(getattr(builtins, n), (int, str, float, type(None))) else const(getattr(builtins, n))
        self.gcache[k] = v
        return v

    @staticmethod
    def try_global(m: Module, n: str) -> Optional[ast.AST]:
        for s in m.tree.body:
            if isinstance(s, ast.Try) and s.handlers:
                for k in s.body + s.orelse:
                    if isinstance(k, ast.Assign) and len(k.targets) == 1 and isinstance(k.targets[0], ast.Name) and k.targets[0].id == n:
                        return k.value
        return None

    def n_global_assigns(self, m: Module, n: str) -> int:
        k = 0
        for s in ast.walk(m.tree):
            if isinstance(s, (ast.Assign, ast.AnnAssign, ast.AugAssign)):
                ts = s.targets if isinstance(s, ast.Assign) else [s.target]
                if any(isinstance(t, ast.Name) and t.id == n for t in ts) and s in m.tree.body:
                    k += 1
            elif isinstance(s, ast.Global) and n in s.names:
                k += 2
        return max(k, 1) if n in m.globals else k

    def eval_static(self, e: ast.AST, m: Module):
        """value of a module or class level expression"""
        self.excs.append([])
        tr, self.in_try = self.in_try, 0
        try:
            rs = self.ev(e, St({}, {}), Frame(None, m, 0, None, None))
        finally:
            self.excs.pop()
            self.in_try = tr
        if len(rs) != 1:
            return TOP
        v, s = rs[0]
        self.gheap.update(s.heap)
        return v

    def dotted_value(self, d: str):
        d = self.prj._follow(d)
        if d in self.prj.classes:
            return ("cls", d)
        if d in self.prj.funcs:
            return ("fn", d)
        if d in self.prj.modules:
            return ("mod", d)
        mod, _, last = d.rpartition(".")
        if mod in self.prj.modules:
            m = self.prj.modules[mod]
            if last in m.globals or last in m.classes or last in m.functions:
                return self.global_(m, last)
            if f"{mod}.{last}" in self.prj.modules:
                return ("mod", f"{mod}.{last}")
            return TOP
        if d in ("numpy.inf", "math.inf"):
            return const(INF)
        if d in ("math.pi", "numpy.pi"):
            return const(math.pi)
        return ("ext", d)

    # enum support
    def is_enum(self, c: Cls) -> bool:
        return any(b.split(".")[-1] in ("Enum", "IntEnum", "StrEnum", "Flag", "IntFlag") for k in c.mro for b in k.base_quals)

    def enum_members(self, c: Cls) -> List[str]:
        return [n for n in c.class_attrs if not n.startswith("_")]

    def enum_value(self, c: Cls, n: str):
        e = c.class_attr(n)
        if e is None:
            return TOP
        if isinstance(e, ast.Call) and ast.unparse(e.func).endswith("auto"):
            return const(self.enum_members(c).index(n) + 1)
        return self.eval_static(e, c.module)

    def class_const(self, c: Cls, n: str):
        k = ("class " + c.qual, n)
        if k not in self.gcache:
            self.gcache[k] = TOP
            for kc in c.mro:
                if n in kc.class_attrs:
                    self.gcache[k] = self.eval_static(kc.class_attrs[n], kc.module) if kc.class_attrs[n] is not None else TOP
                    break
        return self.gcache[k]

    def attr(self, b, name: str, st: St, node, fr: Frame) -> List[Tuple[Any, St]]:
        k = b[0]
        if b == NONE:
            if name in ("__class__", "__doc__"):
                return [(TOP, st)]
            self.throw("implicit", "AttributeError", st, node, fr)
            return []
        if k == "obj":
            h = self.h(b, st)
            if h is None:
                return [(TOP, st)]
            c = self.prj.classes.get(h.cls)
            if c is not None:
                m = None
                for kc in c.mro:
                    if name in kc.methods:
                        m = kc.methods[name]
                        break
                    if name in kc.class_attrs or name in kc.class_annots and name in h.attrs:
                        break
                if m is not None and m.is_property and name not in h.attrs:
                    return self.invoke(m, [b], {}, st, fr, node)
                if name in h.attrs:
                    return [(h.attrs[name], st)]
                if m is not None:
                    if m.is_static:
                        return [(("fn", m.qual), st)]
                    if m.is_classmethod:
                        return [(("bound", ("cls", c.qual), m.qual), st)]
                    if any(d.split("(")[0].split(".")[-1] not in PASS_DECOS for d in m.decos):
                        return [(TOP, st)]
                    return [(("bound", b, m.qual), st)]
                if any(name in kc.class_attrs for kc in c.mro):
                    if h.open and b[1] in st.heap and self.reassigned(c, name):
                        return [(TOP, st.setattr(b[1], name, TOP))]
                    return [(self.class_const(c, name), st)]
                if name == "__class__":
                    return [(("cls", c.qual), st)]
                if name == "__dict__" and self.dict_views and not h.open:
                    return [self.alloc(st, "dict", {"#of": b}, tuple((const(a), v) for a, v in h.attrs.items() if not a.startswith("#")))]
                if name == "__dict__" or h.open or c.ext_bases - SAFE_BASES or name.startswith("__"):
                    if h.open and name != "__dict__" and b[1] in st.heap:
                        ty = c.class_annots.get(name)
                        return [(TOP, st.setattr(b[1], name, TOP))]
                    return [(TOP, st)]
                if c.find("__getattr__") is not None:
                    return [(TOP, st)]
                self.throw("implicit", "AttributeError", st, node, fr)
                return []
            if name in h.attrs:
                return [(h.attrs[name], st)]
            if h.cls in LISTLIKE or h.cls == "dict":
                return [(("bmeth", b, name), st)]
            return [(("extb", b, name), st)]
        if k == "cls":
            c = self.prj.classes.get(b[1])
            if c is None:
                return [(TOP, st)]
            if self.is_enum(c) and name in self.enum_members(c):
                return [(("enum", c.qual, name), st)]
            if name == "__members__":
                v, s2 = self.alloc(st, "dict", None, tuple((const(n), ("enum", c.qual, n)) for n in self.enum_members(c)))
                return [(v, s2)]
            if name == "__name__":
                return [(const(c.name), st)]
            m = c.find(name)
            if m is not None:
                if m.is_classmethod:
                    return [(("bound", b, m.qual), st)]
                return [(("fn", m.qual), st)]
            if any(name in kc.class_attrs for kc in c.mro):
                return [(self.class_const(c, name), st)]
            return [(TOP, st)]
        if k == "enum":
            c = self.prj.classes[b[1]]
            if name in ("value", "_value_"):
                return [(self.enum_value(c, b[2]), st)]
            if name in ("name", "_name_"):
                return [(const(b[2]), st)]
            m = c.find(name)
            if m is not None:
                if m.is_property:
                    return self.invoke(m, [b], {}, st, fr, node)
                return [(("bound", b, m.qual), st)]
            if any(q.split(".")[-1] == "str" for q in c.base_quals):
                return self.attr(self.enum_value(c, b[2]), name, st, node, fr)
            return [(TOP, st)]
        if k == "vars":
            return [(("bmeth", b, name), st)]
        if k == "mod":
            m = self.prj.modules.get(b[1])
            if m is not None:
                v = self.global_(m, name)
                if v == TOP and f"{b[1]}.{name}" in self.prj.modules:
                    v = ("mod", f"{b[1]}.{name}")
                return [(v, st)]
            return [(TOP, st)]
        if k == "ext":
            return [(self.dotted_value(f"{b[1]}.{name}"), st)]
        if k in ("c", "fresh") or b == typed("str"):
            if k == "c" and not hasattr(b[2], name) and b[2] is not Ellipsis:
                self.throw("implicit", "AttributeError", st, node, fr)
                return []
            return [(("bmeth", b, name), st)]
        self.maybe(st, node, fr)
        return [(TOP, st)]

    def reassigned(self, c: Cls, name: str) -> bool:
        """is the class attribute also stored on instances?"""
        k = ("reassigned " + c.qual, name)
        if k not in self.gcache:
            from .project import is_self_attr, own_nodes
            self.gcache[k] = any(
                isinstance(n, ast.Attribute) and isinstance(n.ctx, ast.Store) and m.self_name and is_self_attr(n, m.self_name) and n.attr == name
                for kc in list(c.mro) + c.all_subclasses() for m in kc.methods.values() for n in own_nodes(m.node))
        return self.gcache[k]

    def ev_index(self, s: ast.AST, st: St, fr: Frame):
        if isinstance(s, ast.Slice):
            out = []
            parts = [x for x in (s.lower, s.upper, s.step)]
            for vs, s2 in self.evs([x if x is not None else ast.Constant(value=None) for x in parts], st, fr):
                out.append((("slice",) + vs, s2))
            return out
        return self.ev(s, st, fr)

    def subscript(self, e: ast.Subscript, st: St, fr: Frame):
        out = []
        for b, s1 in self.ev(e.value, st, fr):
            for i, s2 in self.ev_index(e.slice, s1, fr):
                if b == NONE:
                    self.throw("implicit", "TypeError", s2, e, fr)
                    continue
                hb = self.h(b, s2)
                if hb is not None and hb.elts is not None:
                    if hb.cls == "dict":
                        if i[0] == "enum":
                            r = [v for k, v in hb.elts if self.eq(k, i, s2) is True]
                        else:
                            r = [v for k, v in hb.elts if self.eq(k, i, s2) is True]
                        if r:
                            out.append((r[-1], s2))
                            continue
                        if all(self.eq(k, i, s2) is False for k, v in hb.elts):
                            fac = hb.attrs.get("#factory") if hb.attrs else None
                            if fac is not None:
                                for v, s3 in self.apply(fac, [], {}, s2, fr, e):
                                    s4 = s3.copy()
                                    s4.heap[b[1]] = hb._replace(elts=hb.elts + ((i, v),))
                                    out.append((v, s4))
                                continue
                            self.throw("implicit", "KeyError", s2, e, fr)
                            continue
                        self.maybe(s2, e, fr)
                        if len(hb.elts) <= 24:
                            for k, v in hb.elts:
                                if self.eq(k, i, s2) is None:
                                    out.append((v, s2))
                        else:
                            out.append((TOP, s2))
                        continue
                    if hb.cls in ("list", "tuple"):
                        if is_const(i) and isinstance(i[2], int):
                            if -len(hb.elts) <= i[2] < len(hb.elts):
                                out.append((hb.elts[i[2]], s2))
                            else:
                                self.throw("implicit", "IndexError", s2, e, fr)
                            continue
                        if i[0] == "slice" and all(is_const(x) and (x[2] is None or isinstance(x[2], int)) for x in i[1:]):
                            out.append(self.alloc(s2, hb.cls, None, hb.elts[slice(*[x[2] for x in i[1:]])]))
                            continue
                    out.append((TOP, s2))
                    continue
                if hb is not None and hb.cls in self.prj.classes:
                    m = self.prj.classes[hb.cls].find("__getitem__")
                    if m is not None:
                        out.extend(self.invoke(m, [b, i if i[0] != "slice" else TOP], {}, s2, fr, e))
                        continue
                if b[0] == "cls":
                    c = self.prj.classes.get(b[1])
                    if c is not None and self.is_enum(c):
                        if is_const(i):
                            if i[2] in self.enum_members(c):
                                out.append((("enum", c.qual, i[2]), s2))
                            else:
                                self.throw("implicit", "KeyError", s2, e, fr)
                            continue
                        if i[0] == "fresh":
                            self.throw("implicit", "KeyError", s2, e, fr)
                            continue
                    out.append((b if not (c is not None and self.is_enum(c)) else TOP, s2))
                    continue
                if is_const(b) and isinstance(b[2], str) and is_const(i) and isinstance(i[2], int):
                    try:
                        out.append((const(b[2][i[2]]), s2))
                    except IndexError:
                        self.throw("implicit", "IndexError", s2, e, fr)
                    continue
                self.maybe(s2, e, fr)
                out.append((TOP, s2))
        return out

    def binop(self, e: ast.BinOp, a, b, st: St, fr: Frame):
        op = e.op
        if is_const(a) and is_const(b):
            try:
                f = BIN[type(op)]
                r = f(a[2], b[2])
                if isinstance(r, (int, float, str, bool)) and not (isinstance(r, str) and len(r) > 2000):
                    return const(r), st
            except Exception:
                self.maybe(st, e, fr)
                return TOP, st
        if isinstance(op, (ast.BitXor, ast.BitAnd, ast.BitOr)):
            known = [v[0] == "c" and isinstance(v[2], bool) for v in (a, b)]
            if all(q or v == typed("bool") for q, v in zip(known, (a, b))):
                for v, q in zip((a, b), known):
                    if q and v[2] is isinstance(op, ast.BitOr) and not isinstance(op, ast.BitXor):
                        return v, st
                return typed("bool"), st
        x, y = self.as_num(a), self.as_num(b)
        if x is not None and y is not None:
            if isinstance(op, ast.Add):
                return num(x[0] + y[0], x[1] + y[1], x[2] or y[2], x[3] or y[3], x[4] and y[4]) if not _nan(x[0] + y[0]) and not _nan(x[1] + y[1]) else num(), st
            if isinstance(op, ast.Sub):
                lo, hi = x[0] - y[1], x[1] - y[0]
                return (num(lo, hi, x[2] or y[3], x[3] or y[2], x[4] and y[4]) if not _nan(lo) and not _nan(hi) else num()), st
            if isinstance(op, ast.Mult) and y[0] == y[1] and y[0] not in (0, INF, -INF):
                x, y = (x, y)
                k = y[0]
                return (num(x[0] * k, x[1] * k, x[2], x[3], x[4] and y[4]) if k > 0 else num(x[1] * k, x[0] * k, x[3], x[2], x[4] and y[4])), st
            if isinstance(op, ast.Mult) and x[0] == x[1] and x[0] not in (0, INF, -INF):
                k = x[0]
                return (num(y[0] * k, y[1] * k, y[2], y[3], x[4] and y[4]) if k > 0 else num(y[1] * k, y[0] * k, y[3], y[2], x[4] and y[4])), st
            if isinstance(op, ast.Mult):
                sx = 1 if x[0] > 0 or (x[0] == 0 and x[2]) else -1 if x[1] < 0 or (x[1] == 0 and x[3]) else 0
                sy = 1 if y[0] > 0 or (y[0] == 0 and y[2]) else -1 if y[1] < 0 or (y[1] == 0 and y[3]) else 0
                if sx and sy:
                    return (num(0, INF, True, True) if sx * sy > 0 else num(-INF, 0, True, True)), st
            if isinstance(op, ast.Div) and y[0] == y[1] and y[0] not in (0, INF, -INF):
                k = y[0]
                return (num(x[0] / k, x[1] / k, x[2], x[3]) if k > 0 else num(x[1] / k, x[0] / k, x[3], x[2])), st
            return num(), st
        ha, hb = self.h(a, st), self.h(b, st)
        if isinstance(op, ast.Add) and ha is not None and hb is not None and ha.cls == hb.cls and ha.cls in ("list", "tuple"):
            if ha.elts is not None and hb.elts is not None:
                return self.alloc(st, ha.cls, None, ha.elts + hb.elts)
            return self.alloc(st, ha.cls, None, None)
        if isinstance(op, ast.Mult):
            for hl, k in ((ha, b), (hb, a)):
                if hl is not None and hl.cls in ("list", "tuple") and is_const(k) and isinstance(k[2], int):
                    n = max(int(k[2]), 0)
                    if hl.elts is not None and len(hl.elts) * n <= 64:
                        return self.alloc(st, hl.cls, None, hl.elts * n)
                    return self.alloc(st, hl.cls, None, None)
        if ha is not None and hb is not None and ha.cls == hb.cls == "set" and ha.elts is not None and hb.elts is not None \
                and all(self.hashable_known(v) for v in ha.elts + hb.elts):
            A, B = list(ha.elts), list(hb.elts)
            if isinstance(op, ast.Sub):
                return self.alloc(st, "set", None, tuple(v for v in A if v not in B))
            if isinstance(op, ast.BitAnd):
                return self.alloc(st, "set", None, tuple(v for v in A if v in B))
            if isinstance(op, ast.BitOr):
                return self.alloc(st, "set", None, tuple(A + [v for v in B if v not in A]))
        if isinstance(op, ast.Mod) and (is_const(a) and isinstance(a[2], str)):
            return typed("str"), st
        if isinstance(op, ast.Add) and any(v[0] == "c" and isinstance(v[2], str) for v in (a, b)):
            return (typed("str"), st)
        if a == NONE or b == NONE:
            other = b if a == NONE else a
            if other[0] in ("c", "num", "t"):
                self.throw("implicit", "TypeError", st, e, fr)
                return None
        self.maybe(st, e, fr)
        return TOP, st

    def fstring(self, e: ast.JoinedStr, st: St, fr: Frame):
        out = []
        parts = [p.value if isinstance(p, ast.FormattedValue) else p for p in e.values]
        for vs, s2 in self.evs(parts, st, fr):
            if all(is_const(v) for v in vs) and all(not isinstance(p, ast.FormattedValue) or (p.conversion in (-1, 115) and p.format_spec is None) for p in e.values):
                out.append((const("".join(str(v[2]) for v in vs)), s2))
            else:
                out.append((typed("str"), s2))
        return out

    def comp(self, e, st: St, fr: Frame):
        kind = {"ListComp": "list", "SetComp": "set", "GeneratorExp": "list", "DictComp": "dict"}[e.__class__.__name__]
        saved = dict(st.env)

        def rec(gi: int, s: St) -> Optional[List[Tuple[List[Any], St]]]:
            """[(elements, state)] or None = unknown"""
            if gi == len(e.generators):
                if kind == "dict":
                    return [([(k, v)], s2) for (k, v), s2 in self.evs([e.key, e.value], s, fr)]
                return [([v], s2) for v, s2 in self.ev(e.elt, s, fr)]
            g = e.generators[gi]
            its = self.ev(g.iter, s, fr)
            if len(its) != 1:
                return None
            it, s1 = its[0]
            els = self.elements(it, s1)
            if els is None:
                # run the body once for its effects and exceptions
                for s2 in self.assign(g.target, TOP, s1, fr):
                    ok = [s2]
                    for c in g.ifs:
                        ok = [s4 for s3 in ok for t, s4 in self.cond(c, s3, fr) if t]
                    for s3 in ok[:1]:
                        rec(gi + 1, s3)
                return None
            acc: List[Any] = []
            cur = s1
            for x in els:
                s2 = self.assign(g.target, x, cur, fr)[0]
                keep: Optional[bool] = True
                for c in g.ifs:
                    ts = self.cond(c, s2, fr)
                    tv = {t for t, _ in ts}
                    if tv == {True}:
                        s2 = ts[0][1]
                        continue
                    keep = False if tv == {False} else None
                    break
                if keep is False:
                    continue
                if keep is None:
                    return None
                r = rec(gi + 1, s2)
                if r == []:
                    return []       # the body always raises for this element
                if r is None or len(r) != 1:
                    return None
                acc.extend(r[0][0])
                cur = r[0][1]
            return [(acc, cur)]

        r = rec(0, st)
        if r is None:
            self.maybe(st, e, fr)
            v, s2 = self.alloc(st, kind, None, None)
            return [(v, s2)]
        out = []
        for els, s in r:
            s = s.copy()
            s.env = dict(saved)
            if kind == "set":
                els = [x for i, x in enumerate(els) if x not in els[:i]]
            if kind == "dict":
                d: List = []
                for k, v in els:
                    d = [(a, b) for a, b in d if a != k] + [(k, v)]
                els = d
            out.append(self.alloc(s, kind, None, tuple(els)))
        return out

    # ----------------------------------------------------------------- calls
    def call(self, e: ast.Call, st: St, fr: Frame) -> List[Tuple[Any, St]]:
        fx = e.func
        # super().m(...)
        if isinstance(fx, ast.Attribute) and isinstance(fx.value, ast.Call) and isinstance(fx.value.func, ast.Name) and fx.value.func.id == "super":
            return self.super_call(e, fx.attr, st, fr)
        if isinstance(fx, ast.Name) and fx.id not in st.env and hasattr(builtins, fx.id) and fx.id not in fr.module.functions:
            if fx.id in ("isinstance", "any", "all", "bool") and len(e.args) == {"isinstance": 2}.get(fx.id, 1) and not e.keywords:
                if fx.id == "isinstance" or (fx.id == "bool") or isinstance(e.args[0], (ast.GeneratorExp, ast.ListComp)):
                    return [(const(t), s) for t, s in self.cond(e, st, fr)]
        out: List[Tuple[Any, St]] = []
        for fv, s1 in self.ev(fx, st, fr):
            for av, s2 in self.evs([a.value if isinstance(a, ast.Starred) else a for a in e.args], s1, fr):
                for kv, s3 in self.evs([k.value for k in e.keywords], s2, fr):
                    args: List[Any] = []
                    unknown_star = False
                    for a, v in zip(e.args, av):
                        if isinstance(a, ast.Starred):
                            els = self.elements(v, s3)
                            if els is None:
                                unknown_star = True
                            else:
                                args.extend(els)
                        else:
                            args.append(v)
                    kw: Dict[str, Any] = {}
                    for k, v in zip(e.keywords, kv):
                        if k.arg is None:
                            hm = self.h(v, s3)
                            if hm is not None and hm.cls == "dict" and hm.elts is not None and all(is_const(x) for x, _ in hm.elts):
                                kw.update({x[2]: y for x, y in hm.elts})
                            else:
                                unknown_star = True
                        else:
                            kw[k.arg] = v
                    out.extend(self.apply(fv, args, kw, s3, fr, e, unknown_star))
        return out

    def super_call(self, e: ast.Call, name: str, st: St, fr: Frame):
        f = fr.f
        selfv = None
        if f is not None:
            g = f
            while g is not None and g.cls is None:
                g = g.parent
            sn = f.posargs[0] if f.posargs else None
            if sn is not None and sn in st.env:
                selfv = st.env[sn]
        out = []
        target: Optional[Func] = None
        ext_before = False
        if f is not None and f.cls is not None and selfv is not None:
            hv = self.h(selfv, st)
            mro = self.prj.classes[hv.cls].mro if hv is not None and hv.cls in self.prj.classes else f.cls.mro
            after = mro[mro.index(f.cls) + 1:] if f.cls in mro else []
            for kc in after:
                if name in kc.methods:
                    target = kc.methods[name]
                    break
        for av, s2 in self.evs([a.value if isinstance(a, ast.Starred) else a for a in e.args], st, fr):
            for kv, s3 in self.evs([k.value for k in e.keywords], s2, fr):
                star = any(isinstance(a, ast.Starred) for a in e.args)
                kw = {}
                for k, v in zip(e.keywords, kv):
                    if k.arg is None:
                        hm = self.h(v, s3)
                        if hm is not None and hm.cls == "dict" and hm.elts is not None and all(is_const(x) for x, _ in hm.elts):
                            kw.update({x[2]: y for x, y in hm.elts})
                        else:
                            star = True
                    else:
                        kw[k.arg] = v
                if target is None:
                    out.append((TOP, s3))
                elif target.is_property:
                    out.append((TOP, s3))
                else:
                    out.extend(self.invoke(target, [selfv] + list(av), kw, s3, fr, e, star))
        return out

    def apply(self, fv, args: List[Any], kw: Dict[str, Any], st: St, fr: Frame, node, star: bool = False) -> List[Tuple[Any, St]]:
        k = fv[0]
        if fv == NONE or (k == "c"):
            self.throw("implicit", "TypeError", st, node, fr)
            return []
        if k == "fn":
            return self.invoke(self.prj.funcs[fv[1]], args, kw, st, fr, node, star)
        if k == "bound":
            return self.invoke(self.prj.funcs[fv[2]], [fv[1]] + args, kw, st, fr, node, star)
        if k == "clo":
            return self.invoke_clo(fv[1], args, kw, st, fr, node, star)
        if k == "cls":
            return self.instantiate(fv[1], args, kw, st, fr, node, star)
        if k == "bmeth":
            return self.bmeth(fv[1], fv[2], args, kw, st, fr, node)
        if k == "ext":
            return self.ext_call(fv[1], args, kw, st, fr, node, star)
        if k == "extb":
            return self.ext_method(fv[1], fv[2], args, kw, st, fr, node)
        if k == "partial":
            return self.apply(fv[1], list(fv[2]) + args, {**dict(fv[3]), **kw}, st, fr, node, star)
        if k == "obj":
            h = self.h(fv, st)
            c = self.prj.classes.get(h.cls) if h is not None else None
            if c is not None and c.find("__call__") is not None:
                return self.invoke(c.find("__call__"), [fv] + args, kw, st, fr, node, star)
        self.maybe(st, node, fr)
        return [(TOP, st)]

    def bindargs(self, f: Func, args: List[Any], kw: Dict[str, Any], st: St, star: bool, fr: Frame, node):
        """env of the callee, or None when the call cannot bind"""
        env: Dict[str, Any] = {}
        a = f.node.args
        pos = [x.arg for x in a.posonlyargs + a.args]
        rest = list(args)
        for p in pos:
            if rest:
                env[p] = rest.pop(0)
        kw = dict(kw)
        for p in pos + [x.arg for x in a.kwonlyargs]:
            if p in kw:
                env[p] = kw.pop(p)
        if a.vararg:
            v, st = self.alloc(st, "tuple", None, tuple(rest) if not star else None)
            env[a.vararg.arg] = v
        elif rest:
            return None, st
        if a.kwarg:
            v, st = self.alloc(st, "dict", None, tuple((const(k), w) for k, w in kw.items()) if not star else None)
            env[a.kwarg.arg] = v
        elif kw:
            return None, st
        for p in pos + [x.arg for x in a.kwonlyargs]:
            if p in env:
                continue
            d = f.default(p) if isinstance(f, Func) else _lambda_default(f.node, p)
            if star:
                env[p] = TOP
            elif d is None:
                return None, st
            else:
                env[p] = self.eval_default(d, f)
        return env, st

    def eval_default(self, d: ast.AST, f: Func):
        if isinstance(d, ast.Constant):
            return const(d.value)
        if f.cls is not None and isinstance(d, ast.Name) and f.cls.class_attr(d.id) is not None:
            return self.class_const(f.cls, d.id)
        return self.eval_static(d, f.module)

    def invoke(self, f: Func, args: List[Any], kw: Dict[str, Any], st: St, fr: Frame, node=None, star: bool = False) -> List[Tuple[Any, St]]:
        if self.trace_calls is not None:
            self.trace_calls(f, args, kw, st, fr, node)
        stub = self.stubs.get(f.qual)
        if stub is not None:
            return stub(self, args, kw, st, fr, node)
        if self.near is not None and f.cls is not None and not self.near(f.cls.qual):
            self.maybe(st, node, fr)
            return [(TOP, st)]
        if f.qual in self.opaque_funcs or fr.depth >= self.max_depth or self.stack.count(f.qual) >= 2 or _is_gen(f):
            self.maybe(st, node, fr)
            return [(TOP, st)]
        if any(d.split("(")[0].split(".")[-1] not in PASS_DECOS for d in f.decos if not d.endswith(".setter")):
            self.maybe(st, node, fr)
            return [(TOP, st)]
        env, st = self.bindargs(f, args, kw, st, star, fr, node)
        if env is None:
            self.throw("implicit", "TypeError", st, node, fr)
            return []
        self.inlined.add(f.qual)
        self.stack.append(f.qual)
        n0 = len(self.excs[-1])
        try:
            res = self.block(f.node.body, St(env, st.heap), Frame(f, f.module, fr.depth + 1, None, f.cls))
        finally:
            self.stack.pop()
        self.back(n0, st)
        return self.leave(res, st)

    def back(self, n0: int, st: St) -> None:
        """exceptions leaving a call carry the callee's heap but the caller's variables"""
        ex = self.excs[-1]
        for i in range(n0, len(ex)):
            ex[i] = (ex[i][0], St(dict(st.env), ex[i][1].heap))

    def leave(self, res, st: St):
        out = []
        seen = set()
        many = len(res) > 4
        for ctl, v, s2 in res:
            if ctl in ("next", "return"):
                v = NONE if ctl == "next" else v
                if many:
                    k = (v, repr(s2.heap))
                    if k in seen:
                        continue
                    seen.add(k)
                out.append((v, St(dict(st.env), s2.heap)))
        # exceptions recorded meanwhile keep the callee's heap but the caller's env
        return self.capv(out)

    def invoke_clo(self, i: int, args, kw, st: St, fr: Frame, node, star: bool):
        g, env0, fr0 = self.clos[i]
        if fr.depth >= self.max_depth:
            return [(TOP, st)]
        if isinstance(g, ast.Lambda):
            f = _LambdaFunc(g, fr0)
            env, st = self.bindargs(f, args, kw, st, star, fr, node)
            if env is None:
                return [(TOP, st)]
            cell = {**(fr0.cell or {}), **env0}
            rs = self.ev(g.body, St(env, st.heap), Frame(fr0.f, fr0.module, fr.depth + 1, cell, fr0.defcls))
            return [(v, St(dict(st.env), s.heap)) for v, s in rs]
        if _is_gen(g) or self.stack.count(g.qual) >= 2:
            return [(TOP, st)]
        env, st = self.bindargs(g, args, kw, st, star, fr, node)
        if env is None:
            self.throw("implicit", "TypeError", st, node, fr)
            return []
        # the enclosing function's current locals, when it is the caller
        base = st.env if fr.f is fr0.f else env0
        cell = {**(fr0.cell or {}), **base}
        self.stack.append(g.qual)
        n0 = len(self.excs[-1])
        try:
            res = self.block(g.node.body, St(env, st.heap), Frame(g, g.module, fr.depth + 1, cell, fr0.defcls))
        finally:
            self.stack.pop()
        self.back(n0, st)
        return self.leave(res, st)

    def instantiate(self, qual: str, args, kw, st: St, fr: Frame, node, star: bool = False) -> List[Tuple[Any, St]]:
        c = self.prj.classes[qual]
        if self.is_enum(c):
            if len(args) == 1:
                v = args[0]
                if v[0] == "enum" and v[1] == qual:
                    return [(v, st)]
                res: List[Tuple[Any, St]] = []
                rs = [(n, self.eq(self.enum_value(c, n), v, st)) for n in self.enum_members(c)]
                for n, r in rs:
                    if r is True:
                        return [(("enum", qual, n), st)]
                if all(r is False for _, r in rs):
                    self.throw("explicit", "ValueError", st, node, fr)
                    return []
                self.maybe(st, node, fr)
                return [(NN, st)]
            return [(NN, st)]
        stub = self.stubs.get(qual)
        if stub is not None:
            return stub(self, args, kw, st, fr, node)
        if qual in self.opaque_ctors or (self.near is not None and not self.near(qual)):
            v, s2 = self.alloc(st, qual, None, None, True)
            self.maybe(st, node, fr)
            return [(v, s2)]
        deco = [ast.unparse(d) for d in c.node.decorator_list]
        v, s2 = self.alloc(st, qual)
        own = c.find("__init__")
        if any("dataclass" in d for d in deco) and not (own is not None and own.cls is c) or any(b.split(".")[-1] == "NamedTuple" for b in c.base_quals):
            names = []
            for kc in reversed(c.mro):
                names += [n for n in kc.class_annots if n not in names]
            at: Dict[str, Any] = {}
            for n, a in zip(names, args):
                at[n] = a
            for n, a in kw.items():
                at[n] = a
            for n in names:
                if n not in at:
                    at[n] = self.class_const(c, n) if any(n in kc.class_attrs for kc in c.mro) and not star else TOP
            s2 = s2.copy()
            s2.heap[v[1]] = HObj(qual, at, None, star)
            post = c.find("__post_init__") if deco else None
            if post is not None:
                return [(v, s3) for _, s3 in self.invoke(post, [v], {}, s2, fr, node)]
            return [(v, s2)]
        init = c.find("__init__")
        if init is None:
            if c.ext_bases - SAFE_BASES:
                s2.heap[v[1]] = s2.heap[v[1]]._replace(open=True)
            self.class_defaults(c)
            return [(v, s2)]
        return [(v, s3) for _, s3 in self.invoke(init, [v] + args, kw, s2, fr, node, star)]

    def class_defaults(self, c: Cls) -> None:
        return None

    # builtin container / string methods
    def bmeth(self, b, name: str, args, kw, st: St, fr: Frame, node) -> List[Tuple[Any, St]]:
        if b[0] == "vars":
            if name in ("get", "__getitem__") and args and is_const(args[0]):
                c = self.prj.classes[b[1]]
                m = c.methods.get(args[0][2])
                if m is not None:
                    return [(("raw", m.qual) if m.is_static or m.is_classmethod else ("fn", m.qual), st)]
                if args[0][2] not in c.class_attrs and not c.ext_bases - SAFE_BASES:
                    if name == "get":
                        return [(args[1] if len(args) > 1 else NONE, st)]
                    self.throw("implicit", "KeyError", st, node, fr)
                    return []
            self.maybe(st, node, fr)
            return [(TOP, st)]
        if b[0] == "fresh":
            if name in ("lower", "upper", "strip", "casefold", "title", "capitalize", "lstrip", "rstrip"):
                return [(b, st)]
            if name in ("startswith", "endswith", "isdigit", "isnumeric"):
                return [(FALSE, st)]
            if name == "split":
                return [self.alloc(st, "list", None, (b,))]
            return [(typed("str"), st)]
        if b == typed("str"):
            return [(TOP if name in ("split", "find", "index", "encode") else typed("str"), st)] if name not in ("startswith", "endswith", "isdigit") else [(typed("bool"), st)]
        if b[0] == "c":
            if isinstance(b[2], str) and name in STR_METHODS and all(is_const(a) for a in args) and not kw:
                try:
                    r = getattr(b[2], name)(*[a[2] for a in args])
                    if isinstance(r, list):
                        return [self.alloc(st, "list", None, tuple(const(x) for x in r))]
                    return [(const(r), st)]
                except Exception:
                    self.throw("implicit", "TypeError", st, node, fr)
                    return []
            if isinstance(b[2], str) and name == "join" and args:
                els = self.elements(args[0], st)
                if els is not None and all(is_const(x) and isinstance(x[2], str) for x in els):
                    return [(const(b[2].join(x[2] for x in els)), st)]
            return [(typed("str") if isinstance(b[2], str) and name in ("format", "join", "replace") else TOP, st)]
        h = self.h(b, st)
        if h is None:
            return [(TOP, st)]

        def upd(elts):
            s = self.own(b, st).copy()
            if h.cls == "dict" and "#of" in h.attrs:
                o = h.attrs["#of"]
                for k, v in elts or ():
                    s = s.setattr(o[1], k[2] if is_const(k) else "?", v)
                s = s.copy()
            s.heap[b[1]] = s.heap[b[1]]._replace(elts=elts)
            return s

        if h.cls == "dict":
            if name == "get" and args:
                d = args[1] if len(args) > 1 else kw.get("default", NONE)
                if h.elts is None:
                    if "#lacks" in h.attrs and args[0] in h.attrs["#lacks"]:
                        return [(d, st)]
                    return [(TOP, st)]
                rs = [(v, self.eq(k, args[0], st)) for k, v in h.elts]
                hit = [v for v, r in rs if r is True]
                if hit:
                    return [(hit[-1], st)]
                if all(r is False for _, r in rs):
                    return [(d, st)]
                poss = [v for v, r in rs if r is None]
                if len(poss) > 12:
                    return [(TOP, st)]
                return [(v, st) for v in poss] + [(d, st)]
            if h.elts is not None:
                if name == "keys":
                    return [self.alloc(st, "list", None, tuple(k for k, _ in h.elts))]
                if name == "values":
                    return [self.alloc(st, "list", None, tuple(v for _, v in h.elts))]
                if name == "items":
                    els = []
                    for k, v in h.elts:
                        t, st = self.alloc(st, "tuple", None, (k, v))
                        els.append(t)
                    return [self.alloc(st, "list", None, tuple(els))]
                if name == "copy":
                    return [self.alloc(st, "dict", None, h.elts)]
                if name == "pop" and args and self.hashable_known(args[0]):
                    hit = [v for k, v in h.elts if k == args[0]]
                    if hit:
                        return [(hit[0], upd(tuple((k, v) for k, v in h.elts if k != args[0])))]
                    if all(self.eq(k, args[0], st) is False for k, _ in h.elts):
                        if len(args) > 1:
                            return [(args[1], st)]
                        self.throw("implicit", "KeyError", st, node, fr)
                        return []
                if name == "setdefault" and args and self.hashable_known(args[0]):
                    hit = [v for k, v in h.elts if k == args[0]]
                    if hit:
                        return [(hit[0], st)]
                    d = args[1] if len(args) > 1 else NONE
                    return [(d, upd(h.elts + ((args[0], d),)))]
                if name == "update":
                    hm = self.h(args[0], st) if args else None
                    new = list(kw.items())
                    if (not args or (hm is not None and hm.cls == "dict" and hm.elts is not None)):
                        els = list(h.elts)
                        for k, v in (list(hm.elts) if hm is not None else []) + [(const(k), v) for k, v in new]:
                            els = [(x, y) for x, y in els if x != k] + [(k, v)]
                        return [(NONE, upd(tuple(els)))]
                    return [(NONE, upd(None))]
            if name in ("update", "clear", "pop", "popitem", "setdefault"):
                return [(TOP if name != "update" else NONE, upd(() if name == "clear" else None))]
            if name in ("keys", "values", "items"):
                return [self.alloc(st, "list", None, None)]
            return [(TOP, st)]
        els = h.elts
        if name in ("append", "add"):
            if els is None:
                return [(NONE, st)]
            if name == "add" and args[0] in els:
                return [(NONE, st)]
            return [(NONE, upd(els + (args[0],)))]
        if name in ("extend", "update"):
            k = self.elements(args[0], st) if args else None
            return [(NONE, upd(els + tuple(k) if els is not None and k is not None else None))]
        if name == "copy":
            return [self.alloc(st, h.cls, None, els)]
        if els is not None and name == "index" and args:
            for i, x in enumerate(els):
                r = self.eq(x, args[0], st)
                if r is True:
                    return [(const(i), st)]
                if r is None:
                    return [(num(0, INF, isint=True), st)]
            self.throw("implicit", "ValueError", st, node, fr)
            return []
        if els is not None and name == "count" and args:
            rs = [self.eq(x, args[0], st) for x in els]
            if None not in rs:
                return [(const(sum(1 for r in rs if r)), st)]
        if els is not None and name in ("issubset", "issuperset", "difference", "intersection", "union", "isdisjoint") and len(args) == 1:
            o = self.elements(args[0], st)
            if o is not None and all(self.hashable_known(x) for x in list(els) + o):
                A, B = set(els), set(o)
                if name == "issubset":
                    return [(const(A <= B), st)]
                if name == "issuperset":
                    return [(const(A >= B), st)]
                if name == "isdisjoint":
                    return [(const(not (A & B)), st)]
                r = {"difference": [x for x in els if x not in B], "intersection": [x for x in els if x in B],
                     "union": list(els) + [x for x in o if x not in A]}[name]
                return [self.alloc(st, "set", None, tuple(r))]
        if name in ("insert", "pop", "remove", "clear", "sort", "reverse", "discard"):
            if name == "pop" and els and not args:
                return [(els[-1], upd(els[:-1]))]
            return [(TOP if name == "pop" else NONE, upd(() if name == "clear" else None))]
        return [(TOP, st)]

    def ext_method(self, b, name: str, args, kw, st: St, fr: Frame, node) -> List[Tuple[Any, St]]:
        h = self.h(b, st)
        if h is not None and h.cls == "ext:json":           # text that stands for a value (rule S03)
            return [(b, st)]
        self.maybe(st, node, fr)
        if name in ("copy",) and h is not None:
            return [self.alloc(st, h.cls, h.attrs, None, True)]
        return [(TOP, st)]

    def ext_call(self, d: str, args, kw, st: St, fr: Frame, node, star: bool = False) -> List[Tuple[Any, St]]:
        stub = self.ext_stubs.get(d)
        if stub is not None:
            return stub(self, args, kw, st, fr, node)
        n = d.split(".")[-1]
        if d == "builtins.dict.fromkeys" and args and self.elements(args[0], st) is not None and all(self.hashable_known(k) for k in self.elements(args[0], st)):
            dv = args[1] if len(args) > 1 else NONE
            return [self.alloc(st, "dict", None, tuple((k, dv) for k in dict.fromkeys(self.elements(args[0], st))))]
        if d.startswith("builtins."):
            return self.builtin(n, args, kw, st, fr, node)
        if d in ("copy.copy", "copy.deepcopy") and args:
            v = args[0]
            h = self.h(v, st)
            if h is not None:
                return [self.alloc(st, h.cls, h.attrs, h.elts, h.open)]
            return [(v, st)]
        if d.startswith("logging.") or d.startswith("warnings."):
            return [(NONE if n != "getLogger" else NN, st)]
        if d == "collections.defaultdict":
            return [self.alloc(st, "dict", {"#factory": args[0]} if args and args[0] != NONE else None, () if len(args) < 2 and not kw else None)]
        if d == "typing.cast" and len(args) == 2:
            return [(args[1], st)]
        if d == "inspect.signature" and len(args) == 1 and args[0][0] in ("fn", "bound"):
            f = self.prj.funcs[args[0][-1]]
            ps = list(f.posargs)[1 if args[0][0] == "bound" else 0:] + [x for x in (f.vararg,) if x] + list(f.kwonly) + [x for x in (f.kwarg,) if x]
            ps_v, st = self.alloc(st, "dict", None, tuple((const(x), NN) for x in ps))
            return [self.alloc(st, "ext:inspect.Signature", {"parameters": ps_v}, None, True)]
        if d == "functools.partial" and args:
            return [(("partial", args[0], tuple(args[1:]), tuple(sorted(kw.items()))), st)]
        if d in ("numpy.isnan", "math.isnan", "pandas.isna", "pandas.isnull") and args and is_const(args[0]):
            x = args[0][2]
            if isinstance(x, (int, float)):
                return [(const(x != x), st)]
            if x is None:
                return [(TRUE, st)] if d.startswith("pandas") else [(TOP, st)]
            return [(FALSE, st)]
        if n in BUILTIN_EXC:
            return [self.alloc(st, "ext:" + n, None, None, True)]
        if d in ("numpy.all", "numpy.any") and len(args) == 1 and not kw:
            if is_const(args[0]):
                return [(const(bool(args[0][2])), st)]
            if self.elements(args[0], st) is not None:
                return self.builtin(n, args, kw, st, fr, node)
        if d in ("numpy.logical_and", "numpy.logical_or") and len(args) == 2 and not kw:
            ts = [self.truth(x, st) if x[0] in ("c", "num") else None for x in args]
            if None not in ts:
                return [(const(all(ts) if n.endswith("and") else any(ts)), st)]
        if d == "numpy.logical_not" and len(args) == 1 and args[0][0] in ("c", "num"):
            t = self.truth(args[0], st)
            if t is not None:
                return [(const(not t), st)]
        if d in ("numpy.abs", "math.fabs", "numpy.absolute") and len(args) == 1 and args[0][0] in ("c", "num"):
            return self.builtin("abs", args, kw, st, fr, node)
        if d in ("numpy.minimum", "numpy.maximum") and len(args) == 2 and all(x[0] in ("c", "num") for x in args):
            return self.builtin(n[:3], args, kw, st, fr, node)
        if d == "numpy.clip" and len(args) == 3 and not kw and all(x[0] in ("c", "num") for x in args):
            return [r for v, s2 in self.builtin("max", args[:2], {}, st, fr, node) for r in self.builtin("min", [v, args[2]], {}, s2, fr, node)]
        self.maybe(st, node, fr)
        if n in ("Series", "DataFrame", "ndarray", "DatetimeIndex", "Timestamp", "Timedelta") and n[0].isupper():
            return [self.alloc(st, "ext:" + d, None, None, True)]
        if d.split(".")[0] == "numpy" and n in ("array", "zeros", "ones", "empty", "arange", "linspace", "full"):
            return [self.alloc(st, "ext:numpy.ndarray", None, None, True)]
        if n[:1].isupper():
            return [self.alloc(st, "ext:" + d, None, None, True)]
        return [(TOP, st)]

    def builtin(self, n: str, args, kw, st: St, fr: Frame, node) -> List[Tuple[Any, St]]:
        a = args[0] if args else None
        if n in BUILTIN_EXC:
            return [self.alloc(st, "ext:" + n, None, None, True)]
        if n == "len" and a is not None:
            if a == NONE or (is_const(a) and not isinstance(a[2], str)):
                self.throw("implicit", "TypeError", st, node, fr)
                return []
            if is_const(a):
                return [(const(len(a[2])), st)]
            els = self.elements(a, st, 10 ** 6)
            if els is not None:
                return [(const(len(els)), st)]
            h = self.h(a, st)
            if h is not None:
                if "#len" in h.attrs:
                    return [(h.attrs["#len"], st)]
                c = self.prj.classes.get(h.cls)
                if c is not None and c.find("__len__") is not None:
                    return self.invoke(c.find("__len__"), [a], {}, st, fr, node)
            return [(num(0, INF, isint=True), st)]
        if n == "hasattr" and len(args) == 2 and is_const(args[1]):
            h = self.h(a, st)
            if a == NONE:
                return [(FALSE, st)]
            if h is not None and h.cls in self.prj.classes:
                c = self.prj.classes[h.cls]
                if args[1][2] in h.attrs or c.find(args[1][2]) or c.class_attr(args[1][2]) is not None:
                    return [(TRUE, st)]
                if not h.open and not (c.ext_bases - SAFE_BASES):
                    return [(FALSE, st)]
            return [(typed("bool"), st)]
        if n == "next" and args and not kw:
            els = self.elements(a, st) if isinstance(getattr(node, "args", [None])[0], (ast.GeneratorExp, ast.Call)) else None
            if els is not None:
                if els:
                    return [(els[0], st)]
                if len(args) > 1:
                    return [(args[1], st)]
                self.throw("implicit", "StopIteration", st, node, fr)
                return []
        if n == "vars" and self.dict_views and len(args) == 1 and a[0] == "obj":
            return self.attr(a, "__dict__", st, node, fr)
        if n == "vars" and len(args) == 1 and a[0] == "cls" and a[1] in self.prj.classes:
            return [(("vars", a[1]), st)]
        if n == "getattr" and len(args) >= 2:
            if is_const(args[1]):
                nm = args[1][2]
                h = self.h(a, st)
                if len(args) == 3:
                    if a == NONE:
                        return [(args[2], st)]
                    if h is not None and h.cls in self.prj.classes:
                        c = self.prj.classes[h.cls]
                        if nm not in h.attrs and not c.find(nm) and c.class_attr(nm) is None and not h.open and not (c.ext_bases - SAFE_BASES):
                            return [(args[2], st)]
                    return self.attr(a, nm, st, node, fr) if a[0] in ("obj", "cls", "mod") else [(TOP, st)]
                return self.attr(a, nm, st, node, fr)
            if args[1][0] == "fresh" and a[0] in ("mod", "cls"):
                self.throw("implicit", "AttributeError", st, node, fr)
                return []
            self.maybe(st, node, fr)
            return [(TOP, st)]
        if n == "setattr" and len(args) == 3:
            if is_const(args[1]):
                return [(NONE, s) for s in self.setattr_(a, args[1][2], args[2], st, node, fr)]
            if a[0] == "obj":
                s = self.own(a, st).copy()
                h = s.heap[a[1]]
                s.heap[a[1]] = h._replace(open=True, attrs={})
                return [(NONE, s)]
            return [(NONE, st)]
        if n in ("list", "tuple", "set", "frozenset", "sorted", "reversed") :
            kind = {"sorted": "list", "reversed": "list", "frozenset": "set"}.get(n, n)
            if a is None:
                return [self.alloc(st, kind, None, ())]
            els = self.elements(a, st)
            if a == NONE:
                self.throw("implicit", "TypeError", st, node, fr)
                return []
            if els is not None and n == "sorted" and not kw and all(is_const(x) for x in els):
                try:
                    els = sorted(els, key=lambda x: x[2])
                except TypeError:
                    pass
            if els is not None and n == "reversed":
                els = els[::-1]
            if els is not None and kind == "set":
                els = [x for i, x in enumerate(els) if x not in els[:i]]
            if els is None:
                self.maybe(st, node, fr)
            return [self.alloc(st, kind, None, tuple(els) if els is not None else None)]
        if n == "dict":
            if a is None:
                return [self.alloc(st, "dict", None, tuple((const(k), v) for k, v in kw.items()))]
            h = self.h(a, st)
            if h is not None and h.cls == "dict" and h.elts is not None:
                els = list(h.elts)
                for k, v in kw.items():
                    els = [(x, y) for x, y in els if x != const(k)] + [(const(k), v)]
                return [self.alloc(st, "dict", None, tuple(els))]
            return [self.alloc(st, "dict", None, None)]
        if n == "range" and args and all(is_const(x) and isinstance(x[2], int) for x in args):
            return [(("range", tuple(x[2] for x in args)), st)]
        if n in ("zip", "enumerate") and args:
            cols = [self.elements(x, st) for x in args] if n == "zip" else [self.elements(a, st)]
            if all(c is not None for c in cols):
                if n == "enumerate":
                    off = args[1][2] if len(args) > 1 and is_const(args[1]) else 0
                    cols = [[const(i + off) for i in range(len(cols[0]))], cols[0]]
                els = []
                for row in zip(*cols):
                    t, st = self.alloc(st, "tuple", None, tuple(row))
                    els.append(t)
                return [self.alloc(st, "list", None, tuple(els))]
            return [self.alloc(st, "list", None, None)]
        if n in ("any", "all") and a is not None:
            els = self.elements(a, st)
            if els is not None:
                ts = [self.truth(x, st) for x in els]
                if n == "any":
                    r = True if True in ts else (None if None in ts else False)
                else:
                    r = False if False in ts else (None if None in ts else True)
                if r is not None:
                    return [(const(r), st)]
            return [(typed("bool"), st)]
        if n in ("min", "max") and args:
            vals = list(args) if len(args) > 1 else self.elements(a, st)
            if vals and not kw.get("key"):
                ns = [self.as_num(v) for v in vals]
                if all(x is not None for x in ns):
                    f = min if n == "min" else max
                    lo, hi = f(x[0] for x in ns), f(x[1] for x in ns)
                    lo_o = all(x[2] for x in ns if x[0] == lo)
                    hi_o = all(x[3] for x in ns if x[1] == hi)
                    return [(num(lo, hi, lo_o, hi_o, all(x[4] for x in ns)), st)]
            return [(TOP, st)]
        if n == "sum" and a is not None:
            els = self.elements(a, st)
            if els is not None and all(is_const(x) and isinstance(x[2], (int, float)) for x in els):
                return [(const(sum(x[2] for x in els)), st)]
            return [(TOP, st)]
        if n == "abs" and a is not None:
            x = self.as_num(a)
            if x is not None:
                if is_const(a):
                    return [(const(abs(a[2])), st)]
                if x[0] >= 0:
                    return [(a, st)]
                if x[1] <= 0:
                    return [(num(-x[1], -x[0], x[3], x[2], x[4]), st)]
                return [(num(0, max(-x[0], x[1]), isint=x[4]), st)]
            return [(TOP, st)]
        if n in ("int", "float", "str", "bool", "round") and a is not None:
            if n == "bool":
                t = self.truth(a, st)
                return [(const(t) if t is not None else typed("bool"), st)]
            if n == "str":
                if is_const(a) and isinstance(a[2], (str, int, float, bool)):
                    return [(const(str(a[2])), st)]
                return [(a if a[0] == "fresh" else typed("str"), st)]
            if is_const(a):
                try:
                    return [(const({"int": int, "float": float, "round": round}[n](*[x[2] for x in args if is_const(x)])), st)]
                except ValueError:
                    self.throw("implicit", "ValueError", st, node, fr)
                    return []
                except Exception:
                    self.throw("implicit", "TypeError", st, node, fr)
                    return []
            if a[0] == "fresh":
                self.throw("implicit", "ValueError", st, node, fr)
                return []
            x = self.as_num(a)
            if x is not None and n == "float":
                return [(num(x[0], x[1], x[2], x[3], False), st)]
            if x is not None and n in ("int", "round") and x[4]:
                return [(a, st)]
            self.maybe(st, node, fr)
            return [(num(isint=n == "int"), st)]
        if n == "type" and len(args) == 1:
            h = self.h(a, st)
            if h is not None:
                if h.cls in self.prj.classes:
                    return [(("cls", h.cls), st)] if not h.open else [(TOP, st)]
                return [(("ext", h.cls[4:] if h.cls.startswith("ext:") else "builtins." + h.cls), st)]
            if is_const(a):
                return [(("ext", "builtins." + a[1]), st)]
            if a[0] == "fresh":
                return [(("ext", "builtins.str"), st)]
            if a[0] == "enum":
                return [(("cls", a[1]), st)]
            return [(TOP, st)]
        if n == "callable" and a is not None:
            if a[0] in ("fn", "bound", "clo", "cls", "partial"):
                return [(TRUE, st)]
            if is_const(a) or a[0] in ("fresh", "num", "t", "enum"):
                return [(FALSE, st)]
            return [(typed("bool"), st)]
        if n == "issubclass" and len(args) == 2:
            if args[0][0] == "cls":
                c = self.prj.classes.get(args[0][1])
                ts = self.flat_types(args[1], st)
                if ts is not None and c is not None:
                    if any(t[0] == "cls" and self.prj.classes.get(t[1]) in c.mro for t in ts):
                        return [(TRUE, st)]
                    if not (c.ext_bases - SAFE_BASES):
                        return [(FALSE, st)]
            return [(typed("bool"), st)]
        if n in ("print",):
            return [(NONE, st)]
        if n in ("map", "filter") and len(args) == 2:
            els = self.elements(args[1], st)
            if els is not None and n == "map":
                acc, cur = [], st
                for x in els:
                    rs = self.apply(args[0], [x], {}, cur, fr, node)
                    if len(rs) != 1:
                        return [self.alloc(st, "list", None, None)]
                    acc.append(rs[0][0])
                    cur = St(st.env, rs[0][1].heap)
                return [self.alloc(cur, "list", None, tuple(acc))]
            return [self.alloc(st, "list", None, None)]
        if n == "vars" or n == "super" or n == "object":
            return [(TOP, st)]
        if n in ("id", "hash", "ord"):
            return [(num(isint=True), st)]
        if n in ("repr", "format", "chr"):
            return [(typed("str"), st)]
        self.maybe(st, node, fr)
        return [(TOP, st)]

    # ------------------------------------------------------------- entry point
    def run(self, thunk: Callable[[], List[Tuple[Any, St]]]):
        """evaluate with a fresh exception collector: (returns, raises)"""
        self.excs.append([])
        tr, self.in_try = self.in_try, 0
        try:
            rs = thunk()
        finally:
            ex = self.excs.pop()
            self.in_try = tr
        return rs, [(e, s) for e, s in ex if e.kind != "maybe"]


TYPING_TYPES = {"typing.List": "list", "typing.Dict": "dict", "typing.Set": "set", "typing.Tuple": "tuple", "typing.FrozenSet": "frozenset"}
SAFE_BASES = {"ABC", "abc.ABC", "object", "Generic", "typing.Generic", "Protocol", "typing.Protocol"}
PASS_DECOS = {"staticmethod", "classmethod", "property", "abstractmethod", "jit", "overload", "cached_property", "wraps", "lru_cache", "cache"}
KNOWN_TYPES = {"str", "int", "float", "bool", "list", "dict", "tuple", "set", "Series", "DataFrame", "ndarray", "DatetimeIndex", "NoneType",
               "Timestamp", "Timedelta", "datetime", "Callable", "Index"}
SUPERTYPES = {"DatetimeIndex": {"Index"}, "list": {"Sequence", "Iterable", "Collection", "Sized"}, "dict": {"Mapping", "Iterable", "Collection", "Sized"},
              "tuple": {"Sequence", "Iterable"}, "Timestamp": {"datetime"}}
BIN: Dict[type, Callable] = {
    ast.Add: lambda a, b: a + b, ast.Sub: lambda a, b: a - b, ast.Mult: lambda a, b: a * b if not (isinstance(a, str) or isinstance(b, str)) else None,
    ast.Div: lambda a, b: a / b, ast.FloorDiv: lambda a, b: a // b, ast.Mod: lambda a, b: a % b,
    ast.Pow: lambda a, b: a ** b if abs(b) < 64 else None, ast.BitAnd: lambda a, b: a & b, ast.BitOr: lambda a, b: a | b, ast.BitXor: lambda a, b: a ^ b,
}


class _LambdaFunc:
    def __init__(self, node: ast.Lambda, fr: Frame) -> None:
        self.node = node
        self.cls = None
        self.module = fr.module
        self.qual = "<lambda>"

    def default(self, p: str):
        return _lambda_default(self.node, p)


def _lambda_default(node, p: str):
    a = node.args
    pos = a.posonlyargs + a.args
    off = len(pos) - len(a.defaults)
    for i, x in enumerate(pos):
        if x.arg == p:
            return a.defaults[i - off] if i >= off else None
    return None


def _nan(x) -> bool:
    return x != x


def _as_load(t: ast.AST) -> ast.AST:
    if isinstance(t, ast.Name):
        return ast.copy_location(ast.Name(id=t.id, ctx=ast.Load()), t)
    if isinstance(t, ast.Attribute):
        return ast.copy_location(ast.Attribute(value=t.value, attr=t.attr, ctx=ast.Load()), t)
    if isinstance(t, ast.Subscript):
        return ast.copy_location(ast.Subscript(value=t.value, slice=t.slice, ctx=ast.Load()), t)
    return t


_GEN: Dict[int, bool] = {}


def _is_gen(f) -> bool:
    k = id(f.node)
    if k not in _GEN:
        from .project import own_nodes
        _GEN[k] = any(isinstance(n, (ast.Yield, ast.YieldFrom)) for n in own_nodes(f.node))
    return _GEN[k]
