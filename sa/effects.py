"""Interprocedural alias-and-effect analysis (flow-sensitive inside a function,
summaries across functions, fixpoint over the call graph).

Abstract value  = frozenset of entries (loc, mode)
  loc   symbolic place: 'p', 'p.value', 'p.items[]', 'self.data', or a fresh
        object '#<func>:<line>:<col>' created at an allocation site
  mode  'o'  the very object at loc
        'b'  a distinct wrapper/view that shares loc's data buffer
        'e'  a shallow copy: distinct container holding loc's members
Effects        = Mut(loc, kind, attr, site); kind 'obj' (attribute / container
                 content / in-place pandas operation on the object) or 'buf'
                 (element store into the data buffer).
"""
from __future__ import annotations

import ast
from typing import Any, Dict, FrozenSet, List, NamedTuple, Optional, Set, Tuple

from .project import Func, Project, own_nodes

Entry = Tuple[str, str]
AV = FrozenSet[Entry]
EMPTY: AV = frozenset()
MAXDEPTH = 4


class Mut(NamedTuple):
    loc: str
    kind: str      # 'obj' | 'buf'
    attr: str      # attribute stored / operation
    site: str      # file:line in function (original site)
    what: str


class Summary:
    def __init__(self) -> None:
        self.muts: Dict[Tuple[str, str, str, str], Mut] = {}
        self.ret: AV = EMPTY
        self.stores: Dict[Tuple[str, str], AV] = {}      # (loc, attr) -> AV   (param-rooted)
        self.strong: Set[Tuple[str, str]] = set()
        self.store_sites: Dict[Tuple[str, str], str] = {}
        self.heap: Dict[Tuple[str, str], AV] = {}       # fresh objects reachable from ret

    def key(self):
        return (frozenset(self.muts), self.ret, tuple(sorted((k, tuple(sorted(v))) for k, v in self.stores.items())),
                tuple(sorted((k, tuple(sorted(v))) for k, v in self.heap.items())), tuple(sorted(self.strong)))


LISTLIKE = {"list", "dict", "set", "tuple"}
BUFTYPES = {"numpy.ndarray", "pandas.Series", "pandas.DataFrame"}
MUTABLE = BUFTYPES | {"list", "dict", "set"}
SCALAR = {"int", "float", "str", "bool", "None", "bytes", "complex", "pandas.Timestamp", "pandas.Timedelta", "callable"}

OBJ_METHODS = {  # in-place on builtin containers
    "extend", "insert", "remove", "clear", "pop", "popitem", "setdefault", "discard", "reverse",
    "sort", "append", "add", "update", "difference_update", "intersection_update", "__setitem__", "__delitem__",
    "move_to_end", "appendleft", "popleft",
}
# which of those are in place for pandas / numpy receivers
PANDAS_INPLACE = {"update", "insert", "pop", "__setitem__", "__delitem__"}
NDARRAY_INPLACE = {"sort", "fill", "put", "itemset", "partition", "resize", "setflags", "byteswap", "__setitem__"}
VIEW_METHODS = {"to_numpy", "squeeze", "head", "tail", "view", "ravel", "reshape", "swapaxes", "transpose", "to_frame",
                "set_axis", "__getitem__", "xs", "get_values"}
VIEW_ATTRS = {"values", "T", "iloc", "loc", "at", "iat", "array", "flat", "real", "imag", "base", "_values"}
ELEM_METHODS = {"get", "pop", "setdefault", "values", "items", "popitem", "popleft"}
SCALAR_ATTRS = {"name", "time_col_name", "shape", "size", "dtype", "dtypes", "ndim", "empty", "tz", "freq", "__name__",
                "__class__", "__type__"}
VIEW_FUNCS = {
    "numpy.asarray", "numpy.asanyarray", "numpy.ascontiguousarray", "numpy.ravel", "numpy.reshape", "numpy.squeeze",
    "numpy.transpose", "numpy.atleast_1d", "numpy.atleast_2d", "numpy.expand_dims", "numpy.broadcast_to", "numpy.swapaxes",
    "numpy.rollaxis", "numpy.moveaxis", "numpy.lib.stride_tricks.as_strided", "numpy.lib.stride_tricks.sliding_window_view",
    "pandas.DataFrame", "pandas.Series", "torch.from_numpy", "torch.as_tensor", "numpy.split", "numpy.array_split",
    "numpy.flip", "numpy.diagonal", "numpy.nditer",
}
SHALLOW_FUNCS = {"list", "dict", "set", "tuple", "sorted", "copy.copy", "collections.OrderedDict", "frozenset",
                 "collections.deque", "builtins.list", "builtins.dict"}
SAME_FUNCS = {"typing.cast"}
ITER_FUNCS = {"zip", "enumerate", "reversed", "iter", "filter", "map", "itertools.chain", "itertools.islice", "next",
              "itertools.product"}
ARG_MUT_FUNCS = {  # external functions that write into argument 0
    "numpy.copyto": 0, "numpy.put": 0, "numpy.place": 0, "numpy.putmask": 0, "numpy.fill_diagonal": 0,
    "numpy.random.shuffle": 0, "random.shuffle": 0, "setattr": 0, "delattr": 0, "numpy.put_along_axis": 0,
    "heapq.heappush": 0, "heapq.heapify": 0, "heapq.heappop": 0, "bisect.insort": 0, "numpy.add.at": 0,
}


def _gloc(mod: str, name: str) -> str:
    return f"global:{mod.replace('.', '/')}:{name}"


def is_fresh(loc: str) -> bool:
    return loc.startswith("#")


class Effects:
    """fixpoint driver"""

    def __init__(self, prj: Project, fresh_ctors: Tuple[str, ...] = (), fresh_funcs: Tuple[str, ...] = (), shared: bool = False) -> None:
        self.p = prj
        self.shared = shared        # follow module-level and class-level objects under all their names
        self.fresh_ctors = set(fresh_ctors)
        self.fresh_funcs = set(fresh_funcs)
        self.sum: Dict[str, Summary] = {q: Summary() for q in prj.funcs}
        self.rounds = 0
        self.owner_attrs: Dict[str, Dict[str, AV]] = {}

    def run(self, max_rounds: int = 12) -> None:
        callers: Dict[str, Set[str]] = {}
        self.callgraph: Dict[str, Set[str]] = {}
        for q, f in self.p.funcs.items():
            cs: Set[str] = set()
            for n in own_nodes(f.node):
                if isinstance(n, ast.Call):
                    for g in self.p.resolve_call(n, f):
                        cs.add(g.qual)
                    for x in n.args:
                        if isinstance(x, (ast.Name, ast.Attribute)):     # callbacks
                            for g in self.p.resolve_call(ast.copy_location(ast.Call(func=x, args=[], keywords=[]), n), f):
                                cs.add(g.qual)
                elif isinstance(n, ast.Attribute):
                    for t in self.p.expr_types(n.value, f):
                        c = self.p.classes.get(t)
                        if c:
                            m = c.find(n.attr)
                            if m is not None and m.is_property:
                                cs.add(m.qual)
                            s = c.find_setter(n.attr)
                            if s is not None:
                                cs.add(s.qual)
                elif isinstance(n, ast.BinOp) or isinstance(n, ast.Subscript):
                    pass
            cs |= {g.qual for g in f.inner.values()}
            self.callgraph[q] = cs
            for c in cs:
                callers.setdefault(c, set()).add(q)
        # bottom-up order
        order: List[str] = []
        seen: Set[str] = set()

        def dfs(q: str) -> None:
            stack = [(q, iter(sorted(self.callgraph.get(q, ()))))]
            seen.add(q)
            while stack:
                cur, it = stack[-1]
                for n in it:
                    if n not in seen and n in self.callgraph:
                        seen.add(n)
                        stack.append((n, iter(sorted(self.callgraph.get(n, ())))))
                        break
                else:
                    order.append(cur)
                    stack.pop()
        for q in sorted(self.p.funcs):
            if q not in seen:
                dfs(q)
        work = list(order)
        for r in range(max_rounds):
            self.rounds = r + 1
            nxt: Set[str] = set()
            for q in work:
                f = self.p.funcs[q]
                old = self.sum[q].key()
                s = FuncAnalysis(self, f).analyse()
                self.sum[q] = s
                if s.key() != old:
                    nxt |= callers.get(q, set())
            if not nxt:
                break
            work = [q for q in order if q in nxt]


class State:
    __slots__ = ("env", "heap")

    def __init__(self, env=None, heap=None) -> None:
        self.env: Dict[str, AV] = dict(env or {})
        self.heap: Dict[Tuple[str, str], AV] = dict(heap or {})

    def copy(self) -> "State":
        return State(self.env, self.heap)


def join(a: Optional[State], b: Optional[State]) -> Optional[State]:
    if a is None:
        return b
    if b is None:
        return a
    out = State()
    for k in set(a.env) | set(b.env):
        out.env[k] = a.env.get(k, EMPTY) | b.env.get(k, EMPTY)
    for k in set(a.heap) | set(b.heap):
        if k[1].startswith("<'") and (k in a.heap) != (k in b.heap) and (k[0], "[]") in a.heap and (k[0], "[]") in b.heap:
            continue        # a key known on one path only: fall back to the container's contents
        x = a.heap.get(k)
        y = b.heap.get(k)
        if k[1].startswith("!") and (x is None or y is None):
            if any(h[0] == k[0] for h in (a.heap if x is None else b.heap)):
                continue    # rebound on one path only
        dflt = frozenset({(_cat(k[0], k[1]), "o")}) if not is_fresh(k[0]) else EMPTY
        out.heap[k] = (x if x is not None else dflt) | (y if y is not None else dflt)
    return out


def _cat(loc: str, attr: str) -> str:
    comp = attr if attr == "[]" else "." + attr
    n = loc.count(".") + loc.count("[]")
    if n >= MAXDEPTH or loc.endswith(comp + comp) or (attr == "[]" and loc.endswith("[]")):
        return loc
    return loc + comp


class FuncAnalysis:
    def __init__(self, eff: Effects, f: Func) -> None:
        self.e = eff
        self.p = eff.p
        self.f = f
        self.s = Summary()
        self.final: Optional[State] = None
        self.loop_break: List[List[State]] = []
        self.loop_cont: List[List[State]] = []
        self.bool_vars: Set[str] = set()
        self.yields: AV = EMPTY
        self.item_types: Dict[str, Set[str]] = {}
        self.ct = 0

    # ------------------------------------------------------------ driver
    def analyse(self) -> Summary:
        f = self.f
        st = State()
        for p in f.posargs + f.kwonly:
            t = self.p.local_types(f).get(p, set())
            st.env[p] = frozenset({(p, "o")})
        for p in (f.vararg, f.kwarg):
            if p:
                loc = f"#{p}"
                st.env[p] = frozenset({(loc, "o")})
                st.heap[(loc, "[]")] = frozenset({(f"{p}[]", "o")})
        if isinstance(f.node, ast.Lambda):
            return self.s
        out = self.block(f.node.body, st)
        self.final = join(self.final, out)
        # summarise stores
        if self.final is not None:
            for (loc, attr), av in self.final.heap.items():
                if is_fresh(loc):
                    self.s.heap[(loc, attr)] = av
                else:
                    if av != frozenset({(_cat(loc, attr), "o")}):
                        self.s.stores[(loc, attr)] = av
                        self.s.strong.add((loc, attr))
            # keep only heap reachable from ret/stores
            reach: Set[str] = set()
            work = [l for l, _ in self.s.ret] + [l for v in self.s.stores.values() for l, _ in v]
            while work:
                l = work.pop()
                if l in reach:
                    continue
                reach.add(l)
                for (hl, a), v in self.s.heap.items():
                    if hl == l:
                        work.extend(x for x, _ in v)
            self.s.heap = {k: v for k, v in self.s.heap.items() if k[0] in reach}
        return self.s

    # -------------------------------------------------------- statements
    def block(self, body: List[ast.stmt], st: Optional[State]) -> Optional[State]:
        for x in body:
            if st is None:
                return None
            st = self.stmt(x, st)
        return st

    def stmt(self, n: ast.stmt, st: State) -> Optional[State]:
        if isinstance(n, ast.Expr):
            self.ev(n.value, st)
            return st
        if isinstance(n, ast.Assign):
            v = self.ev(n.value, st)
            for t in n.targets:
                self.assign(t, v, st, n.value)
            return st
        if isinstance(n, ast.AnnAssign):
            if n.value is not None:
                v = self.ev(n.value, st)
                self.assign(n.target, v, st, n.value)
            return st
        if isinstance(n, ast.AugAssign):
            self.augassign(n, st)
            return st
        if isinstance(n, ast.Return):
            if n.value is not None:
                self.s.ret = self.s.ret | self.ev(n.value, st)
            self.final = join(self.final, st)
            return None
        if isinstance(n, ast.Raise):
            if n.exc is not None:
                self.ev(n.exc, st)
            return None
        if isinstance(n, ast.If):
            self.ev(n.test, st)
            a = self.block(n.body, st.copy())
            b = self.block(n.orelse, st.copy())
            return join(a, b)
        if isinstance(n, (ast.For, ast.AsyncFor, ast.While)):
            return self.loop(n, st)
        if isinstance(n, (ast.With, ast.AsyncWith)):
            for it in n.items:
                v = self.ev(it.context_expr, st)
                if it.optional_vars is not None:
                    self.assign(it.optional_vars, v, st, it.context_expr)
            return self.block(n.body, st)
        if isinstance(n, ast.Try):
            pre = st.copy()
            a = self.block(n.body, st.copy())
            if a is not None and n.orelse:
                a = self.block(n.orelse, a)
            res = a
            h0 = join(pre, a)
            for h in n.handlers:
                hs = h0.copy() if h0 else pre.copy()
                if h.name:
                    hs.env[h.name] = EMPTY
                res = join(res, self.block(h.body, hs))
            if n.finalbody:
                base = res if res is not None else (h0 or pre).copy()
                fin = self.block(n.finalbody, base)
                res = fin if res is not None else None
            return res
        if isinstance(n, (ast.FunctionDef, ast.AsyncFunctionDef)):
            st.env[n.name] = EMPTY
            return st
        if isinstance(n, ast.Delete):
            for t in n.targets:
                if isinstance(t, ast.Subscript):
                    self.mutate(self.ev(t.value, st), "obj", "del []", n, self.types(t.value))
                elif isinstance(t, ast.Attribute):
                    self.mutate(self.ev(t.value, st), "obj", f"del .{t.attr}", n, set())
                elif isinstance(t, ast.Name):
                    st.env.pop(t.id, None)
            return st
        if isinstance(n, ast.Break):
            if self.loop_break:
                self.loop_break[-1].append(st)
            return None
        if isinstance(n, ast.Continue):
            if self.loop_cont:
                self.loop_cont[-1].append(st)
            return None
        if isinstance(n, ast.Assert):
            self.ev(n.test, st)
            return st
        if isinstance(n, ast.ClassDef):
            return st
        if hasattr(ast, "Match") and isinstance(n, ast.Match):
            self.ev(n.subject, st)
            res = st.copy()
            for c in n.cases:
                res = join(res, self.block(c.body, st.copy()))
            return res
        return st

    def loop(self, n, st: State) -> Optional[State]:
        self.loop_break.append([])
        cur: Optional[State] = st
        for _ in range(3):
            self.loop_cont.append([])
            s0 = cur.copy()
            if isinstance(n, ast.While):
                self.ev(n.test, s0)
            else:
                it = self.ev(n.iter, s0)
                self.assign_iter(n.target, n.iter, it, s0)
            out = self.block(n.body, s0)
            for c in self.loop_cont.pop():
                out = join(out, c)
            new = join(cur.copy(), out)
            if new.env == cur.env and new.heap == cur.heap:
                cur = new
                break
            cur = new
        res: Optional[State] = cur
        if n.orelse:
            res = self.block(n.orelse, res.copy())
        for b in self.loop_break.pop():
            res = join(res, b)
        return res

    def assign_iter(self, target, it_expr, it: AV, st: State) -> None:
        """bind loop target(s) of iterating it_expr"""
        if isinstance(it_expr, ast.Call) and isinstance(target, ast.Tuple):
            d = self.p.dotted(it_expr.func, self.f.module) if isinstance(it_expr.func, (ast.Name, ast.Attribute)) else None
            if d == "zip" and len(target.elts) == len(it_expr.args):
                for t, a in zip(target.elts, it_expr.args):
                    self.assign_iter(t, a, self.ev(a, st), st)
                return
            if d == "enumerate" and it_expr.args and len(target.elts) == 2:
                self.assign(target.elts[0], EMPTY, st, None)
                self.assign_iter(target.elts[1], it_expr.args[0], self.ev(it_expr.args[0], st), st)
                return
            if isinstance(it_expr.func, ast.Attribute) and it_expr.func.attr == "items" and len(target.elts) == 2:
                base = self.ev(it_expr.func.value, st)
                self.assign(target.elts[0], EMPTY, st, None)
                self.assign(target.elts[1], self.elem(base, st), st, None)
                return
            if isinstance(it_expr.func, ast.Attribute) and it_expr.func.attr in ("iterrows", "itertuples"):
                for t in target.elts:
                    self.assign(t, EMPTY, st, None)
                return
        v = self.elem(it, st)
        self.assign(target, v, st, None)

    def assign(self, t: ast.AST, v: AV, st: State, src: Optional[ast.AST]) -> None:
        if isinstance(t, ast.Name):
            st.env[t.id] = v
            if src is not None and self._boolish(src):
                self.bool_vars.add(t.id)
            return
        if isinstance(t, ast.Starred):
            self.assign(t.value, v, st, None)
            return
        if isinstance(t, (ast.Tuple, ast.List)):
            if src is not None and isinstance(src, (ast.Tuple, ast.List)) and len(src.elts) == len(t.elts):
                vals = [self.ev(x, st) for x in src.elts]
                for a, b, sx in zip(t.elts, vals, src.elts):
                    self.assign(a, b, st, sx)
                return
            for i, a in enumerate(t.elts):
                got = EMPTY
                for (l, m) in v:
                    k = (l, f"<{i}>")
                    if k in st.heap:
                        got |= st.heap[k]
                    else:
                        got |= self.elem(frozenset({(l, m)}), st)
                self.assign(a, got, st, None)
            return
        if isinstance(t, ast.Attribute):
            base = self.ev(t.value, st)
            self.store_attr(base, t.attr, v, st, t)
            return
        if isinstance(t, ast.Subscript):
            base = self.ev(t.value, st)
            self.ev(t.slice, st)
            self.store_item(t.value, base, v, st, t)
            if src is not None:
                for l, _ in base:
                    self.item_types.setdefault(l, set()).update(self.types(src) or {"?"})
            return

    def _is_own_self(self, loc: str) -> bool:
        return loc == self.f.self_name

    def store_attr(self, base: AV, attr: str, v: AV, st: State, node) -> None:
        # property setter?
        objs = [(l, m) for l, m in base if m == "o"]
        for l, m in base:
            if m == "o":
                if not is_fresh(l):
                    self.add_mut(Mut(l, "obj", attr, self.f.where(node), f"stores attribute .{attr}"))
                k = (l, attr)
                if len(base) == 1:
                    st.heap[k] = v
                else:
                    old = st.heap.get(k)
                    if old is None:
                        old = EMPTY if is_fresh(l) else frozenset({(_cat(l, attr), "o")})
                    st.heap[k] = old | v
                self.s.store_sites.setdefault(k, self.f.where(node))
            elif m == "e":
                # shallow copy: rebinding an attribute of the copy leaves the original's attribute alone
                fr = [x for x, mm in base if mm == "o" and x.endswith(":s")]
                if len(fr) == 1 and all(mm == "e" or x == fr[0] for x, mm in base):
                    st.heap[(fr[0], attr)] = v
                    st.heap[(fr[0], "!" + attr)] = EMPTY
        # setters run code: apply only value alias of TimeSeriesData time/value (kept as plain attributes)

    def store_item(self, basexpr: ast.AST, base: AV, v: AV, st: State, node) -> None:
        ty = self.types(basexpr)
        # through .iloc/.loc/.at/.values ... -> buffer store
        if isinstance(basexpr, ast.Attribute) and basexpr.attr in ("iloc", "loc", "at", "iat", "values", "flat"):
            self.mutate(base, "buf", "[]=", node, ty)
            return
        if ty & {"pandas.DataFrame"} and "numpy.ndarray" not in ty:
            kind = "obj"
        elif ty and ty <= (LISTLIKE | {t for t in ty if t.startswith("elem:")}):
            kind = "obj"
        elif ty & BUFTYPES:
            kind = "buf"
        else:
            kind = "buf" if not any(m == "b" for _, m in base) else "obj"
            if any(m == "b" for _, m in base) and not ty:
                kind = "buf"
        self.mutate(base, kind, "[]=", node, ty)
        key = node.slice if isinstance(node, ast.Subscript) else None
        for l, m in base:
            if isinstance(key, ast.Constant) and isinstance(key.value, str):
                kk = (l, f"<{key.value!r}>")
                if kk in st.heap:
                    st.heap[kk] = st.heap[kk] | v
            else:
                self._forget_keys(l, st)
        for l, m in base:
            if m in ("o",) and v and (is_fresh(l) or kind == "obj"):
                k = (l, "[]")
                old = st.heap.get(k, EMPTY if is_fresh(l) else frozenset({(_cat(l, "[]"), "o")}))
                if not (ty & BUFTYPES):
                    st.heap[k] = old | v

    def _forget_keys(self, l: str, st: State) -> None:
        for k in [k for k in st.heap if k[0] == l and k[1].startswith("<'")]:
            del st.heap[k]

    def augassign(self, n: ast.AugAssign, st: State) -> None:
        self.ev(n.value, st)
        t = n.target
        if isinstance(t, ast.Name):
            ty = self.types(t)
            av = st.env.get(t.id, EMPTY)
            if self._augment_mutates(t, ty, av):
                self.mutate(av, "buf" if ty & BUFTYPES or not ty & LISTLIKE else "obj", "augmented assignment", n, ty)
            else:
                st.env[t.id] = EMPTY
        elif isinstance(t, ast.Attribute):
            ty = self.types(t)
            av = self.ev(t, st)
            base = self.ev(t.value, st)
            if self._augment_mutates(t, ty, av):
                self.mutate(av, "buf", "augmented assignment", n, ty)
            self.store_attr(base, t.attr, av if ty & MUTABLE else EMPTY, st, t)
        elif isinstance(t, ast.Subscript):
            base = self.ev(t.value, st)
            self.ev(t.slice, st)
            ty = self.types(t)
            for l, _ in base:
                ty = ty | self.item_types.get(l, set())
            if ty & MUTABLE and not ty & {"?", "int", "float", "str", "bool"}:
                # d[k] += x on a member that is an array or a list changes the member itself
                self.mutate(self.elem(base, st), "buf" if ty & BUFTYPES else "obj", "augmented assignment", n, ty)
            self.store_item(t.value, base, EMPTY, st, t)

    def _augment_mutates(self, t, ty: Set[str], av: AV) -> bool:
        if ty & MUTABLE:
            return True
        if ty & SCALAR:
            return False
        # an untyped name whose value is the data member of a series object
        return any(l.endswith((".value", ".time", "._value", "._time")) or m == "b" for l, m in av)

    # ------------------------------------------------------- mutation log
    def add_mut(self, m: Mut) -> None:
        k = (m.loc, m.kind, m.attr, m.site)
        if k not in self.s.muts and len(self.s.muts) < 400:
            self.s.muts[k] = m

    def mutate(self, av: AV, kind: str, op: str, node, ty: Set[str], site: Optional[str] = None, what: str = "") -> None:
        for l, m in av:
            if is_fresh(l):
                continue
            if m == "o" or (m == "b" and kind == "buf"):
                self.add_mut(Mut(l, kind, op, site or self.f.where(node), what or f"{op} on {ast.unparse(_strip(node))[:70]}"))

    # -------------------------------------------------------- expressions
    def types(self, e: ast.AST) -> Set[str]:
        return {t for t in self.p.expr_types(e, self.f)}

    def _boolish(self, e: ast.AST) -> bool:
        if isinstance(e, (ast.Compare,)):
            return True
        if isinstance(e, ast.UnaryOp) and isinstance(e.op, (ast.Invert, ast.Not)):
            return True
        if isinstance(e, ast.BinOp) and isinstance(e.op, (ast.BitAnd, ast.BitOr, ast.BitXor)):
            return self._boolish(e.left) or self._boolish(e.right)
        if isinstance(e, ast.Call) and isinstance(e.func, ast.Attribute) and e.func.attr in (
                "isna", "isnull", "notna", "notnull", "isin", "between", "duplicated", "isnan", "where", "argsort", "nonzero",
                "flatnonzero", "searchsorted", "array", "asarray", "any", "all", "permutation", "choice"):
            return True
        return isinstance(e, ast.Name) and e.id in self.bool_vars

    def _copy_index(self, s: ast.AST) -> bool:
        if isinstance(s, (ast.List, ast.ListComp)):
            return True
        if isinstance(s, ast.Tuple):
            return any(self._copy_index(x) for x in s.elts)
        if self._boolish(s):
            return True
        if isinstance(s, (ast.Name, ast.Attribute)):
            t = self.types(s)
            return bool(t & {"list", "numpy.ndarray", "pandas.Series", "pandas.DatetimeIndex", "pandas.Index"})
        return False

    def elem(self, av: AV, st: State) -> AV:
        out: Set[Entry] = set()
        for l, m in av:
            if (l, "[]") in st.heap:
                out |= st.heap[(l, "[]")]
            elif is_fresh(l):
                continue
            elif m == "b":
                out.add((l, "b"))
            else:
                out.add((_cat(l, "[]"), "o"))
        return frozenset(out)

    def attr(self, av: AV, a: str, st: State, ty: Set[str]) -> AV:
        out: Set[Entry] = set()
        if a in SCALAR_ATTRS:
            return EMPTY
        own = [x for x, mm in av if mm == "o" and (x, "!" + a) in st.heap]
        for l, m in av:
            if m == "e" and own:
                continue         # the shallow copy has its own attribute by now
            if a in VIEW_ATTRS and (ty & BUFTYPES or m == "b" or l.endswith((".value", ".time", "._value")) or not ty):
                out.add((l, "b"))
                continue
            k = (l, a)
            if k in st.heap:
                out |= st.heap[k]
            elif is_fresh(l):
                continue
            elif m == "b":
                out.add((l, "b"))
            else:
                out.add((_cat(l, a), "o"))
        return frozenset(out)

    def _shared(self, e: ast.AST) -> AV:
        """objects shared by all users of a module or class, under whatever name they are reached"""
        if not self.e.shared:
            return EMPTY
        f = self.f
        x = e
        while isinstance(x, ast.Attribute):
            x = x.value
        if isinstance(x, ast.Name) and (x.id in f.params or x.id in self.p.local_types(f)) and \
                not (f.is_classmethod and f.params and x.id == f.posargs[0]):
            return EMPTY
        if isinstance(e, ast.Attribute):
            c = None
            v = e.value
            if isinstance(v, ast.Name) and f.is_classmethod and f.posargs and v.id == f.posargs[0]:
                c = f.cls
            elif f.self_name and isinstance(v, ast.Attribute) and v.attr == "__class__" and isinstance(v.value, ast.Name) and v.value.id == f.self_name:
                c = f.cls
            elif f.self_name and isinstance(v, ast.Call) and isinstance(v.func, ast.Name) and v.func.id == "type" and len(v.args) == 1 \
                    and isinstance(v.args[0], ast.Name) and v.args[0].id == f.self_name:
                c = f.cls
            elif isinstance(v, (ast.Name, ast.Attribute)):
                c = self.p.resolve_class(self.p.dotted(v, f.module))
            if c is not None:
                for k in c.mro:
                    if e.attr in k.class_attrs:
                        return frozenset({(_gloc(k.module.name, f"{k.name}#{e.attr}"), "o")})
                return EMPTY
        if isinstance(x, ast.Name):
            d = self.p.dotted(e, f.module)
            if d and "." in d:
                mod, _, nm = d.rpartition(".")
                m = self.p.modules.get(mod)
                if m is not None and nm in m.globals:
                    return frozenset({(_gloc(mod, nm), "o")})
        return EMPTY

    def ev(self, e: Optional[ast.AST], st: State) -> AV:
        if e is None:
            return EMPTY
        if isinstance(e, ast.Name):
            if e.id in st.env:
                return st.env[e.id]
            f = self.f.parent
            while f is not None:
                if e.id in f.posargs + f.kwonly or e.id in self.p.local_types(f):
                    return frozenset({(f"free:{e.id}", "o")})
                f = f.parent
            if self.f.parent is not None and e.id not in self.f.module.imports and e.id not in self.f.module.globals \
                    and e.id not in self.f.module.functions and e.id not in self.f.module.classes:
                return frozenset({(f"free:{e.id}", "o")})
            if e.id in self.f.module.globals:
                return frozenset({(_gloc(self.f.module.name, e.id), "o")})
            return self._shared(e)
        if isinstance(e, ast.Constant):
            return EMPTY
        if isinstance(e, ast.Attribute):
            if self.e.shared:
                g = self._shared(e)
                if g:
                    return g
            base = self.ev(e.value, st)
            # properties of project classes
            for t in self.types(e.value):
                c = self.p.classes.get(t)
                if c is None:
                    continue
                m = c.find(e.attr)
                if m is not None and m.is_property and not (c.name == "TimeSeriesData"):
                    r = self.apply(m, {m.self_name: base}, e, st)
                    return r
            return self.attr(base, e.attr, st, self.types(e.value))
        if isinstance(e, ast.Subscript):
            base = self.ev(e.value, st)
            self.ev(e.slice, st)
            ty = self.types(e.value)
            for t in ty:
                c = self.p.classes.get(t)
                if c is not None and c.find("__getitem__") is not None:
                    if c.is_a("TimeSeriesData"):
                        return EMPTY
                    return self.apply(c.find("__getitem__"), {c.find("__getitem__").self_name: base}, e, st)
            if self._copy_index(e.slice) and not (ty and ty <= LISTLIKE):
                return EMPTY
            if isinstance(e.slice, ast.Constant) and isinstance(e.slice.value, (int, str)):
                out = EMPTY
                hit = bool(base)
                for l, m in base:
                    if (l, f"<{e.slice.value!r}>") in st.heap:
                        out |= st.heap[(l, f"<{e.slice.value!r}>")]
                    else:
                        hit = False
                if hit:
                    return out
            view = ty & BUFTYPES or any(m == "b" for _, m in base) or \
                any(l.endswith((".value", ".time", "._value", "._time")) for l, _ in base)
            if isinstance(e.slice, ast.Slice):
                if ty & {"list", "tuple", "str"} and not ty & BUFTYPES:
                    return self._shallow(base, st, e)
                if view:
                    return frozenset((l, "b") for l, _ in base)
                return frozenset((l, "b") for l, _ in base)
            if view:
                if ("pandas.Series" in ty and "pandas.DataFrame" not in ty or any(l.endswith((".time", "._time")) for l, _ in base)) \
                        and not isinstance(e.value, ast.Attribute) or self._scalar_pick(e):
                    return EMPTY     # one element of a one-dimensional series: an immutable scalar
                return frozenset((l, "b") for l, _ in base)
            return self.elem(base, st)
        if isinstance(e, ast.Call):
            return self.call(e, st)
        if isinstance(e, ast.IfExp):
            self.ev(e.test, st)
            return self.ev(e.body, st) | self.ev(e.orelse, st)
        if isinstance(e, ast.BoolOp):
            out = EMPTY
            for v in e.values:
                out |= self.ev(v, st)
            return out
        if isinstance(e, ast.NamedExpr):
            v = self.ev(e.value, st)
            self.assign(e.target, v, st, e.value)
            return v
        if isinstance(e, (ast.Tuple, ast.List, ast.Set)):
            loc = self._alloc(e) + ":L"
            tot = EMPTY
            for i, x in enumerate(e.elts):
                v = self.ev(x.value if isinstance(x, ast.Starred) else x, st)
                if isinstance(x, ast.Starred):
                    v = self.elem(v, st)
                else:
                    if isinstance(e, ast.Tuple):
                        st.heap[(loc, f"<{i!r}>")] = v
                tot |= v
            st.heap[(loc, "[]")] = tot
            return frozenset({(loc, "o")})
        if isinstance(e, ast.Dict):
            loc = self._alloc(e)
            tot = EMPTY
            for k, v in zip(e.keys, e.values):
                if k is not None:
                    self.ev(k, st)
                    vv = self.ev(v, st)
                    tot |= vv
                    if isinstance(k, ast.Constant) and isinstance(k.value, str):
                        st.heap[(loc, f"<{k.value!r}>")] = vv
                else:
                    tot |= self.elem(self.ev(v, st), st)
            st.heap[(loc, "[]")] = tot
            return frozenset({(loc, "o")})
        if isinstance(e, (ast.ListComp, ast.SetComp, ast.GeneratorExp, ast.DictComp)):
            saved = dict(st.env)
            for g in e.generators:
                it = self.ev(g.iter, st)
                self.assign_iter(g.target, g.iter, it, st)
                for c in g.ifs:
                    self.ev(c, st)
            loc = self._alloc(e) + ("" if isinstance(e, ast.DictComp) else ":L")
            if isinstance(e, ast.DictComp):
                self.ev(e.key, st)
                v = self.ev(e.value, st)
            else:
                v = self.ev(e.elt, st)
            st.env = saved
            st.heap[(loc, "[]")] = st.heap.get((loc, "[]"), EMPTY) | v
            return frozenset({(loc, "o")})
        if isinstance(e, ast.BinOp):
            l = self.ev(e.left, st)
            r = self.ev(e.right, st)
            ty = self.types(e.left) | self.types(e.right)
            if isinstance(e.op, ast.Add) and "list" in ty and not ty & BUFTYPES:
                return self._shallow(l | r, st, e)
            return EMPTY
        if isinstance(e, ast.Lambda):
            return EMPTY
        if isinstance(e, ast.Starred):
            return self.elem(self.ev(e.value, st), st)
        if isinstance(e, (ast.Yield, ast.YieldFrom)):
            # the values a generator hands out are the members of what calling it returns
            if e.value is not None:
                v = self.ev(e.value, st)
                loc = f"#{self.f.qual}:yield"
                if isinstance(e, ast.YieldFrom):
                    v = self.elem(v, st)
                self.yields = self.yields | v
                st.heap[(loc, "[]")] = self.yields
                self.s.ret = self.s.ret | frozenset({(loc, "o")})
            return EMPTY
        for c in ast.iter_child_nodes(e):
            if isinstance(c, ast.expr):
                self.ev(c, st)
        return EMPTY

    def _scalar_pick(self, e: ast.Subscript) -> bool:
        """s.iloc[i] / s.values[i] / s[i] of a one-dimensional `.time` series"""
        v = e.value
        while isinstance(v, ast.Attribute) and v.attr in VIEW_ATTRS:
            v = v.value
        return isinstance(v, ast.Attribute) and v.attr in ("time", "_time")

    def _alloc(self, e: ast.AST) -> str:
        return f"#{self.f.qual}:{getattr(e, 'lineno', 0)}:{getattr(e, 'col_offset', 0)}"

    def _shallow(self, base: AV, st: State, e) -> AV:
        """shallow copy of containers; members shared"""
        loc = self._alloc(e) + ":s"
        el = EMPTY
        out: Set[Entry] = set()
        for l, m in base:
            el |= self.elem(frozenset({(l, m)}), st)
            for (hl, a), v in list(st.heap.items()):
                if hl == l and a != "[]":
                    st.heap[(loc, a)] = st.heap.get((loc, a), EMPTY) | v
            if not is_fresh(l):
                out.add((l, "e"))
        st.heap[(loc, "[]")] = el
        out.add((loc, "o"))
        return frozenset(out)

    # --------------------------------------------------------------- calls
    def call(self, e: ast.Call, st: State) -> AV:
        f = self.f
        fn = e.func
        d = self.p.dotted(fn, f.module) if isinstance(fn, (ast.Name, ast.Attribute)) else None
        argv = [self.ev(a.value if isinstance(a, ast.Starred) else a, st) for a in e.args]
        kwv = {k.arg: self.ev(k.value, st) for k in e.keywords if k.arg is not None}
        for k in e.keywords:
            if k.arg is None:
                self.ev(k.value, st)
        recv: AV = EMPTY
        rty: Set[str] = set()
        if isinstance(fn, ast.Attribute):
            recv = self.ev(fn.value, st)
            rty = self.types(fn.value)

        # project callees
        gs = self.p.resolve_call(e, f)
        gs = [g for g in gs]
        if gs:
            if self.e.shared and len(gs) == 1 and any(x.split("(")[0].split(".")[-1] in ("lru_cache", "cache") for x in gs[0].decos):
                return frozenset({(_gloc(gs[0].module.name, gs[0].name + "()"), "o")})
            out = EMPTY
            pres = st
            for g in gs:
                binding, _ = self.p.bind(e, g)
                amap: Dict[str, AV] = {}
                for name, ex in binding.items():
                    if name.startswith("**"):
                        continue
                    amap[name] = self._lookup_actual(ex, e, argv, kwv)
                self._bind_stars(e, g, argv, amap, st)
                is_ctor = g.name == "__init__" and g.cls is not None and not (
                    isinstance(fn, ast.Attribute) and fn.attr == "__init__")
                if g.kwarg:
                    loc = self._alloc(e) + ":kw"
                    acc = EMPTY
                    for k, v in kwv.items():
                        if k not in g.posargs and k not in g.kwonly:
                            acc |= v
                    st.heap[(loc, "[]")] = acc
                    amap[g.kwarg + "[]"] = acc
                if is_ctor:
                    cls = self._ctor_class(e, g)
                    loc = self._alloc(e)
                    me = frozenset({(loc, "o")})
                    amap[g.self_name] = me
                    if cls in self.e.fresh_ctors:
                        self.apply(g, amap, e, st, effects_only=True)
                        out |= me
                    else:
                        self.apply(g, amap, e, st)
                        out |= me
                else:
                    if g.cls is not None and g.parent is None and not g.is_static and g.posargs:
                        if isinstance(fn, ast.Subscript) and g.cls is f.cls and f.self_name:
                            amap[g.self_name] = st.env.get(f.self_name, EMPTY)      # bound method from a dispatch table
                        if isinstance(fn, ast.Attribute):
                            if isinstance(fn.value, ast.Call) and isinstance(fn.value.func, ast.Name) and fn.value.func.id == "super":
                                amap[g.self_name] = st.env.get(f.self_name or "self", EMPTY)
                            elif g.is_classmethod:
                                amap[g.self_name] = EMPTY
                            else:
                                amap[g.self_name] = recv
                    if g.qual in self.e.fresh_funcs:
                        self.apply(g, amap, e, st, effects_only=True)
                    else:
                        out |= self.apply(g, amap, e, st)
            return out

        inplace = any(k.arg == "inplace" and not (isinstance(k.value, ast.Constant) and k.value.value is False) for k in e.keywords)
        outkw = kwv.get("out")
        if outkw:
            self.mutate(outkw, "buf", "out=", e, set())
        if isinstance(fn, ast.Attribute) and not self._module_func(fn, st):
            a = fn.attr
            if a in ("map", "apply", "applymap", "transform", "agg", "aggregate", "pipe", "filter") and e.args:
                if a == "pipe":
                    arg = recv
                elif a in ("map", "applymap") or (a == "apply" and "pandas.Series" in rty and "pandas.DataFrame" not in rty):
                    # the callback sees the stored objects themselves
                    arg = self.elem(frozenset(x for x in recv if x[1] != "b"), st) | \
                        frozenset((_cat(l, "[]"), "o") for l, m in recv if m == "b")
                else:
                    arg = self.elem(recv, st) | recv
                r = self._callback(e.args[0], arg, st, e)
                if r is not None:
                    loc = self._alloc(e) + ":m"
                    st.heap[(loc, "[]")] = r
                    return frozenset({(loc, "o")})
            if inplace:
                buf = a in ("fillna", "interpolate", "replace", "clip", "mask", "where", "ffill", "bfill", "eval", "update")
                self.mutate(recv, "buf" if buf else "obj", f"{a}(inplace)", e, rty)
                return EMPTY
            known_pd = bool(rty & BUFTYPES)
            cont = bool(rty & LISTLIKE)
            if a in OBJ_METHODS:
                if known_pd and not cont:
                    if "numpy.ndarray" in rty and a in NDARRAY_INPLACE:
                        self.mutate(recv, "buf", f".{a}()", e, rty)
                    elif a in PANDAS_INPLACE and rty & {"pandas.Series", "pandas.DataFrame"}:
                        self.mutate(recv, "buf" if a == "update" else "obj", f".{a}()", e, rty)
                elif rty and rty <= SCALAR:
                    pass
                elif a in ("append", "add") and not cont:
                    # pandas append/add and unknown receivers: not in place unless a container
                    if not rty and isinstance(e, ast.Call) and not self._used_value(e):
                        self.mutate(recv, "obj", f".{a}()", e, rty)
                elif not cont and rty and not any(t in self.p.classes for t in rty) and not rty & {"list", "dict", "set"} \
                        and not any(t.endswith(("DataFrame", "Series")) for t in rty) and rty - {"None"}:
                    pass
                else:
                    self.mutate(recv, "obj", f".{a}()", e, rty)
                # contents flow into container
                tot = EMPTY
                for v in argv:
                    tot |= v
                for v in kwv.values():
                    tot |= v
                if a in ("extend", "update"):
                    tot = self.elem(tot, st) | EMPTY
                if tot:
                    for l, m in recv:
                        if m == "o":
                            k = (l, "[]")
                            old = st.heap.get(k, EMPTY if is_fresh(l) else frozenset({(_cat(l, "[]"), "o")}))
                            st.heap[k] = old | tot
                            self._forget_keys(l, st)
                if a in ELEM_METHODS:
                    return self.elem(recv, st)
                return EMPTY
            if a in NDARRAY_INPLACE and (not rty or "numpy.ndarray" in rty) and a in ("fill", "itemset", "partition", "put", "sort"):
                self.mutate(recv, "buf", f".{a}()", e, rty)
                return EMPTY
            if a in ELEM_METHODS and not known_pd:
                return self.elem(recv, st)
            if a in VIEW_METHODS:
                if a == "to_numpy" and any(k.arg == "copy" and isinstance(k.value, ast.Constant) and k.value.value is True for k in e.keywords):
                    return EMPTY
                return frozenset((l, "b") for l, _ in recv)
            if a in ("astype", "rename", "reindex", "tz_localize", "tz_convert", "infer_objects") and any(
                    k.arg == "copy" and isinstance(k.value, ast.Constant) and k.value.value is False for k in e.keywords):
                return frozenset((l, "b") for l, _ in recv)
            if a == "copy":
                if known_pd or any(l.endswith((".value", ".time")) for l, _ in recv):
                    if any(k.arg == "deep" and isinstance(k.value, ast.Constant) and k.value.value is False for k in e.keywords):
                        return frozenset((l, "b") for l, _ in recv)
                    return EMPTY
                if cont:
                    return self._shallow(recv, st, e)
                return EMPTY
            if a == "__setattr__" or (a == "update" and False):
                self.mutate(recv, "obj", f".{a}()", e, rty)
        if d is not None:
            if d in SAME_FUNCS and len(argv) >= 2:
                return argv[1]
            if d in SHALLOW_FUNCS and argv:
                return self._shallow(argv[0], st, e)
            if d in ("copy.deepcopy",):
                return EMPTY
            if d in ARG_MUT_FUNCS and argv:
                self.mutate(argv[0], "buf" if d.startswith("numpy") else "obj", d, e, set())
                return EMPTY
            if d in ("map", "filter", "functools.reduce") and len(argv) >= 2:
                tot = EMPTY
                for v in argv[1:]:
                    tot |= self.elem(v, st)
                r = self._callback(e.args[0], tot, st, e)
                loc = self._alloc(e)
                st.heap[(loc, "[]")] = r if r is not None and d == "map" else tot
                return frozenset({(loc, "o")})
            if d in ITER_FUNCS:
                tot = EMPTY
                for v in argv:
                    tot |= self.elem(v, st)
                if d == "next":
                    return tot
                loc = self._alloc(e)
                st.heap[(loc, "[]")] = tot
                return frozenset({(loc, "o")})
            if d == "getattr" and len(e.args) >= 2:
                if isinstance(e.args[1], ast.Constant):
                    return self.attr(argv[0], str(e.args[1].value), st, self.types(e.args[0]))
                return frozenset((_cat(l, "*"), "o") for l, m in argv[0] if m != "b" and not is_fresh(l))
            if d == "vars" and argv:
                return argv[0]
            if d in VIEW_FUNCS and (argv or kwv):
                src = argv[0] if argv else kwv.get("data", EMPTY)
                if any(k.arg == "copy" and isinstance(k.value, ast.Constant) and k.value.value is True for k in e.keywords):
                    return EMPTY
                # wrapper around a list/dict literal holds views of its members
                out: Set[Entry] = set()
                aty = self.types(e.args[0]) if e.args else set()
                if "list" in aty and not aty & BUFTYPES:
                    return EMPTY      # building an array/frame from a python list copies
                for l, m in src:
                    if l.endswith(":L"):
                        continue     # an array or frame built from a list copies its members
                    if is_fresh(l):
                        # pd.DataFrame({...}) consolidates (copies) unless copy=False
                        if any(k.arg == "copy" and isinstance(k.value, ast.Constant) and k.value.value is False for k in e.keywords):
                            for x, mm in st.heap.get((l, "[]"), EMPTY):
                                out.add((x, "b"))
                        elif (l, "[]") not in st.heap:
                            pass
                    else:
                        out.add((l, "b"))
                return frozenset(out)
            if d == "numpy.array" and argv and any(k.arg == "copy" and isinstance(k.value, ast.Constant) and k.value.value is False for k in e.keywords):
                return frozenset((l, "b") for l, _ in argv[0])
            if d == "pandas.concat" and any(k.arg == "copy" and isinstance(k.value, ast.Constant) and k.value.value is False for k in e.keywords):
                if any(k.arg == "axis" and isinstance(k.value, ast.Constant) and k.value.value in (1, "columns") for k in e.keywords):
                    return frozenset((l, "b") for l, m in self.elem(argv[0] if argv else EMPTY, st))
                return EMPTY
        return EMPTY

    def _module_func(self, fn: ast.Attribute, st: State) -> bool:
        """a function of an imported module (copy.copy, np.sort), not a method of a value"""
        x: ast.AST = fn
        while isinstance(x, ast.Attribute):
            x = x.value
        return isinstance(x, ast.Name) and x.id not in st.env and x.id in self.f.module.imports and \
            self.p.resolve_class(self.p.dotted(fn.value, self.f.module)) is None

    def _callback(self, fx: ast.AST, arg: AV, st: State, node) -> Optional[AV]:
        """effects and result of calling fx(arg); None when fx is not understood"""
        if isinstance(fx, ast.Lambda):
            if not fx.args.args:
                return EMPTY
            saved = dict(st.env)
            st.env[fx.args.args[0].arg] = arg
            out = self.ev(fx.body, st)
            st.env = saved
            return out
        if not isinstance(fx, (ast.Name, ast.Attribute)):
            return None
        d = self.p.dotted(fx, self.f.module)
        if d in ("copy.deepcopy", "float", "int", "str", "bool", "len", "ast.literal_eval"):
            return EMPTY
        if d in SHALLOW_FUNCS:
            return arg
        g: Optional[Func] = None
        q: Optional[Func] = self.f
        while q is not None and g is None and isinstance(fx, ast.Name):
            g = q.inner.get(fx.id)
            q = q.parent
        gs = [g] if g is not None else []
        if not gs:
            gs = self.p.resolve_call(ast.copy_location(ast.Call(func=fx, args=[], keywords=[]), node), self.f)
        if not gs:
            return None
        out = EMPTY
        for g in gs:
            pos = g.posargs[1:] if g.cls is not None and g.parent is None and not g.is_static else g.posargs
            amap: Dict[str, AV] = {}
            if pos:
                amap[pos[0]] = arg
            if g.self_name and g.parent is None and isinstance(fx, ast.Attribute):
                amap[g.self_name] = self.ev(fx.value, st)
            out |= self.apply(g, amap, node, st)
        return out

    def _used_value(self, e: ast.Call) -> bool:
        """is the call's value used (not a bare expression statement)?"""
        for n in own_nodes(self.f.node):
            if isinstance(n, ast.Expr) and n.value is e:
                return False
        return True

    def _lookup_actual(self, ex: ast.AST, call: ast.Call, argv, kwv) -> AV:
        for a, v in zip(call.args, argv):
            if a is ex:
                return v
        for k in call.keywords:
            if k.value is ex and k.arg is not None:
                return kwv[k.arg]
        return EMPTY

    def _bind_stars(self, e: ast.Call, g: Func, argv, amap: Dict[str, AV], st: State) -> None:
        """f(*xs): the members of xs go to the positional parameters that are left, extra positionals to *args"""
        if not (g.vararg or any(isinstance(a, ast.Starred) for a in e.args)):
            return
        pos = list(g.posargs)
        if g.cls is not None and g.parent is None and not g.is_static:
            pos = pos[1:]
        rest = EMPTY
        i: Optional[int] = 0
        for a, v in zip(e.args, argv):
            if isinstance(a, ast.Starred):
                for j in range(i or 0, len(pos)):
                    got = EMPTY
                    for l, m in v:
                        k = (l, f"<{j - (i or 0)}>")
                        got |= st.heap[k] if k in st.heap else self.elem(frozenset({(l, m)}), st)
                    if pos[j] not in {k.arg for k in e.keywords}:
                        amap[pos[j]] = amap.get(pos[j], EMPTY) | got
                rest |= self.elem(v, st)
                i = None
            elif i is None or i >= len(pos):
                rest |= v
                if i is None:
                    for q in pos:
                        if q not in {k.arg for k in e.keywords}:
                            amap[q] = amap.get(q, EMPTY) | v
            if i is not None:
                i += 1
        if g.vararg:
            amap.pop(g.vararg, None)
            amap[g.vararg + "[]"] = rest

    def _ctor_class(self, e: ast.Call, g: Func) -> str:
        c = self.p.resolve_class(self.p.dotted(e.func, self.f.module)) if isinstance(e.func, (ast.Name, ast.Attribute)) else None
        return c.qual if c is not None else g.cls.qual

    def apply(self, g: Func, amap: Dict[str, AV], node, st: State, effects_only: bool = False) -> AV:
        s = self.e.sum.get(g.qual)
        if s is None:
            return EMPTY

        def tr_loc(loc: str) -> AV:
            if is_fresh(loc):
                return frozenset({(loc, "o")})
            if loc.startswith("global:"):
                return frozenset({(loc, "o")})
            root, comps = _split(loc)
            if root.startswith("free:"):
                nm = root[5:]
                if nm in st.env:
                    cur = st.env[nm]
                elif self.f.parent is not None:
                    cur = frozenset({(root, "o")})
                else:
                    cur = EMPTY
            else:
                cur = amap.get(root, EMPTY)
                if comps and comps[0] == "[]" and root + "[]" in amap:
                    cur = amap[root + "[]"]
                    comps = comps[1:]
            for c in comps:
                if c == "[]":
                    cur = self.elem(cur, st)
                else:
                    cur = self.attr(cur, c, st, set() if c not in VIEW_ATTRS else {"?"})
            return cur

        def tr(av: AV) -> AV:
            out: Set[Entry] = set()
            for l, m in av:
                if is_fresh(l):
                    out.add((l, m))
                    continue
                for l2, m2 in tr_loc(l):
                    mm = m2 if m == "o" else ("b" if m == "b" or m2 == "b" else "e")
                    out.add((l2, mm))
            return frozenset(out)

        # effects on entry locations
        for m in list(s.muts.values()):
            for l, md in tr_loc(m.loc):
                if is_fresh(l):
                    continue
                if md == "o" or (md == "b" and m.kind == "buf"):
                    self.add_mut(Mut(l, m.kind, m.attr, m.site, m.what))
        if effects_only:
            return EMPTY
        # heap of fresh objects
        new_stores: List[Tuple[Tuple[str, str], AV]] = []
        for (l, a), v in s.heap.items():
            new_stores.append(((l, a), tr(v)))
        upd: List[Tuple[Entry, str, AV, bool]] = []
        for (l, a), v in s.stores.items():
            tl = tr_loc(l)
            tv = tr(v)
            for l2, m2 in tl:
                if m2 == "o":
                    upd.append(((l2, m2), a, tv, len(tl) == 1 and (l, a) in s.strong))
        for k, v in new_stores:
            st.heap[k] = st.heap.get(k, EMPTY) | v
        for (l2, m2), a, tv, strong in upd:
            k = (l2, a)
            if strong:
                st.heap[k] = tv
            else:
                old = st.heap.get(k)
                if old is None:
                    old = EMPTY if is_fresh(l2) else frozenset({(_cat(l2, a), "o")})
                st.heap[k] = old | tv
            self.s.store_sites.setdefault(k, s.store_sites.get(k, g.where()))
        return tr(s.ret)


def _split(loc: str) -> Tuple[str, List[str]]:
    root = ""
    i = 0
    while i < len(loc) and loc[i] not in ".[":
        root += loc[i]
        i += 1
    comps: List[str] = []
    while i < len(loc):
        if loc.startswith("[]", i):
            comps.append("[]")
            i += 2
        elif loc[i] == ".":
            j = i + 1
            while j < len(loc) and loc[j] not in ".[":
                j += 1
            comps.append(loc[i + 1:j])
            i = j
        else:
            i += 1
    return root, comps


def _strip(node):
    if isinstance(node, ast.Assign):
        return node.targets[0]
    return node
