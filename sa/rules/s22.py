"""S22: work spread over workers gives what doing the same items in sequence gives."""
from __future__ import annotations

import ast
from typing import Dict, Iterator, List, Optional, Set, Tuple

from ..project import Cls, Func, Project, own_nodes
from ..report import Ctx

SURE = {"starmap", "imap", "imap_unordered", "apply_async", "map_async", "starmap_async"}
MAYBE = {"map", "submit", "apply"}
POOLS = {"Pool", "ThreadPool", "ProcessPoolExecutor", "ThreadPoolExecutor"}
MUTATORS = {"append", "extend", "insert", "update", "add", "remove", "pop", "clear", "setdefault", "discard", "popitem", "sort", "reverse"}
NODRAW = {"seed", "RandomState", "default_rng", "Generator", "get_state", "set_state", "SeedSequence", "Random", "SystemRandom", "setstate", "getstate", "mtrand"}
TRAIN = {"fit", "train"}


def names(e: ast.AST) -> Set[str]:
    return {n.id for n in ast.walk(e) if isinstance(n, ast.Name)}


def targets(t: ast.AST) -> Set[str]:
    return {n.id for n in ast.walk(t) if isinstance(n, ast.Name)}


class View:
    """one function: single assignments, loop variables, parents"""

    def __init__(self, f: Func) -> None:
        self.f = f
        self.par: Dict[int, ast.AST] = {}
        for p in ast.walk(f.node):
            for ch in ast.iter_child_nodes(p):
                self.par[id(ch)] = p
        self.one: Dict[str, Optional[ast.AST]] = {}
        self.varying: Set[str] = set()
        self.withs: Dict[str, ast.AST] = {}
        for n in own_nodes(f.node):
            if isinstance(n, ast.Assign):
                for t in n.targets:
                    if isinstance(t, ast.Name):
                        self.one[t.id] = None if t.id in self.one else n.value
                    else:
                        for x in targets(t) if isinstance(t, (ast.Tuple, ast.List)) else ():
                            self.one[x] = None
            elif isinstance(n, ast.AnnAssign) and isinstance(n.target, ast.Name) and n.value is not None:
                self.one[n.target.id] = None if n.target.id in self.one else n.value
            elif isinstance(n, ast.AugAssign) and isinstance(n.target, ast.Name):
                self.one[n.target.id] = None
            elif isinstance(n, (ast.For, ast.comprehension)):
                self.varying |= targets(n.target)
            elif isinstance(n, ast.withitem) and isinstance(n.optional_vars, ast.Name):
                self.withs[n.optional_vars.id] = n.context_expr
        # what is computed inside a loop from a loop variable varies too
        grew = True
        while grew:
            grew = False
            for n in own_nodes(f.node):
                if isinstance(n, (ast.Assign, ast.AugAssign)) and names(n.value) & self.varying:
                    if self.in_loop(n):
                        for t in n.targets if isinstance(n, ast.Assign) else [n.target]:
                            new = {t.id} - self.varying if isinstance(t, ast.Name) else targets(t) - self.varying if isinstance(t, ast.Tuple) else set()
                            if new:
                                self.varying |= new
                                grew = True
                elif isinstance(n, ast.AugAssign) and isinstance(n.target, ast.Name) and self.in_loop(n) and n.target.id not in self.varying:
                    self.varying.add(n.target.id)
                    grew = True

    def in_loop(self, n: ast.AST) -> bool:
        p = self.par.get(id(n))
        while p is not None and p is not self.f.node:
            if isinstance(p, (ast.For, ast.While)):
                return True
            p = self.par.get(id(p))
        return False

    def deref(self, e: ast.AST, depth: int = 0) -> ast.AST:
        while isinstance(e, ast.Name) and self.one.get(e.id) is not None and depth < 5:
            e = self.one[e.id]
            depth += 1
        return e

    def facts(self, n: ast.AST) -> Dict[str, bool]:
        """what is known of self.<flag> where n stands"""
        out: Dict[str, bool] = {}
        child, p = n, self.par.get(id(n))
        while p is not None:
            if isinstance(p, (ast.If, ast.IfExp)):
                body = p.body if isinstance(p.body, list) else [p.body]
                other = p.orelse if isinstance(p.orelse, list) else [p.orelse]
                if any(child is b for b in body):
                    self.learn(p.test, True, out)
                elif any(child is b for b in other):
                    self.learn(p.test, False, out)
            for fld in ("body", "orelse", "finalbody"):
                blk = getattr(p, fld, None)
                if isinstance(blk, list) and any(b is child for b in blk):
                    for b in blk:
                        if b is child:
                            break
                        if isinstance(b, ast.If):
                            if leaves(b.body):
                                self.learn(b.test, False, out)
                            elif b.orelse and leaves(b.orelse):
                                self.learn(b.test, True, out)
            if p is self.f.node:
                break
            child, p = p, self.par.get(id(p))
        return out

    def learn(self, t: ast.AST, val: bool, out: Dict[str, bool]) -> None:
        t = self.deref(t)
        if isinstance(t, ast.UnaryOp) and isinstance(t.op, ast.Not):
            self.learn(t.operand, not val, out)
        elif isinstance(t, ast.BoolOp):
            if isinstance(t.op, ast.And) == val:
                for v in t.values:
                    self.learn(v, val, out)
        elif isinstance(t, ast.Compare) and len(t.ops) == 1 and isinstance(t.comparators[0], ast.Constant) and isinstance(t.comparators[0].value, bool):
            same = isinstance(t.ops[0], (ast.Is, ast.Eq))
            self.learn(t.left, (t.comparators[0].value == val) if same else (t.comparators[0].value != val), out)
        elif isinstance(t, ast.Attribute) and isinstance(t.value, ast.Name) and t.value.id == self.f.self_name:
            out[t.attr] = val


def leaves(body: List[ast.stmt]) -> bool:
    return bool(body) and isinstance(body[-1], (ast.Return, ast.Raise, ast.Continue, ast.Break))


def live(f: Func, facts: Dict[str, bool]) -> Iterator[ast.AST]:
    """the nodes of f that can run under what is known of self's flags"""
    v = View(f)

    def walk(stmts: List[ast.stmt]) -> Iterator[ast.AST]:
        for s in stmts:
            if isinstance(s, ast.If):
                got: Dict[str, bool] = {}
                no: Dict[str, bool] = {}
                v.learn(s.test, True, got)
                v.learn(s.test, False, no)
                yield from own_expr(s.test)
                t = not any(facts.get(k) == (not b) for k, b in got.items())
                e = not any(facts.get(k) == (not b) for k, b in no.items())
                if t:
                    yield from walk(s.body)
                if e:
                    yield from walk(s.orelse)
                if (t and not e and leaves(s.body)) or (e and not t and leaves(s.orelse)):
                    return
            elif isinstance(s, (ast.FunctionDef, ast.ClassDef, ast.AsyncFunctionDef)):
                yield s
            else:
                yield s
                for fld, val in ast.iter_fields(s):
                    if fld in ("body", "orelse", "finalbody") and isinstance(val, list) and val and isinstance(val[0], ast.stmt):
                        yield from walk(val)
                    elif fld == "handlers":
                        for h in val:
                            yield from walk(h.body)
                    else:
                        for x in (val if isinstance(val, list) else [val]):
                            if isinstance(x, ast.AST):
                                yield from own_expr(x)

    def own_expr(e: ast.AST) -> Iterator[ast.AST]:
        yield e
        yield from own_nodes(e)
    yield from walk(f.node.body)


class Site:
    def __init__(self, v: View, call: ast.Call, kind: str) -> None:
        self.v, self.call, self.kind = v, call, kind
        self.f = v.f
        self.how = call.func.attr
        a = call.args
        kw = {k.arg: k.value for k in call.keywords}
        self.fn = a[0] if a else kw.get("func") or kw.get("fn")
        self.rest = a[1:]
        self.kw = kw


class Par:
    def __init__(self, prj: Project) -> None:
        self.prj = prj
        self.n = {"places where work is spread over workers": 0, "workers followed": 0, "workers that cannot be resolved": 0,
                  "attributes workers change": 0, "draws of random numbers in workers": 0, "options given in parallel and in sequence": 0}
        self.found: List[Tuple[str, str, str, str]] = []
        self.loads: Dict[str, Set[str]] = {}
        for f in prj.funcs.values():
            for n in own_nodes(f.node):
                if isinstance(n, ast.Attribute) and isinstance(n.ctx, ast.Load):
                    self.loads.setdefault(n.attr, set()).add(f.qual)
        self.log: List[str] = []

    def note(self, rule: str, f: Func, what: str, node: ast.AST, why: str) -> None:
        self.found.append((rule, f"{f.qual}|{what}", f.where(node), why))

    # -- sites
    def pool_kind(self, e: Optional[ast.AST], v: View, depth: int = 0) -> Optional[str]:
        if e is None or depth > 4:
            return None
        if isinstance(e, ast.Name):
            if e.id in v.withs:
                return self.pool_kind(v.withs[e.id], v, depth + 1)
            if v.one.get(e.id) is not None:
                return self.pool_kind(v.one[e.id], v, depth + 1)
            return None
        if isinstance(e, ast.Call):
            last = e.func.attr if isinstance(e.func, ast.Attribute) else e.func.id if isinstance(e.func, ast.Name) else ""
            if last in POOLS:
                d = self.prj.dotted(e.func, v.f.module) or last
                if last.startswith("Thread") or ".dummy." in d or d.endswith("multiprocessing.dummy.Pool"):
                    return "thread"
                return "process"
            for g in self.prj.resolve_call(e, v.f):
                gv = View(g)
                for n in own_nodes(g.node):
                    if isinstance(n, ast.Return) and n.value is not None:
                        k = self.pool_kind(n.value, gv, depth + 1)
                        if k:
                            return k
            if last == "enter_context" and e.args:
                return self.pool_kind(e.args[0], v, depth + 1)
        return None

    def sites(self) -> Iterator[Site]:
        for f in list(self.prj.funcs.values()):
            if isinstance(f.node, ast.Lambda):
                continue
            cand = [n for n in own_nodes(f.node) if isinstance(n, ast.Call) and isinstance(n.func, ast.Attribute) and n.func.attr in SURE | MAYBE]
            if not cand:
                continue
            v = View(f)
            for n in cand:
                k = self.pool_kind(n.func.value, v)
                if k is None and n.func.attr in MAYBE:
                    continue
                if not n.args and not any(x.arg in ("func", "fn") for x in n.keywords):
                    continue
                yield Site(v, n, k or "unknown")

    def workers(self, e: Optional[ast.AST], v: View, depth: int = 0) -> List[Func]:
        e = v.deref(e) if e is not None else None
        if e is None or depth > 4:
            return []
        f = v.f
        if isinstance(e, ast.Call):
            last = e.func.attr if isinstance(e.func, ast.Attribute) else e.func.id if isinstance(e.func, ast.Name) else ""
            if last in ("deepcopy", "copy", "partial", "wraps") and e.args:
                return self.workers(e.args[0], v, depth + 1)
            return []
        if isinstance(e, ast.Attribute) and isinstance(e.value, ast.Name) and e.value.id == f.self_name:
            c = self.owner(f)
            out: List[Func] = []
            if c is not None:
                for k in [c] + list(c.all_subclasses()):
                    m = k.find(e.attr)
                    if m is not None and m not in out:
                        out.append(m)
            return out
        if isinstance(e, ast.Name):
            g: Optional[Func] = f
            while g is not None:
                if e.id in g.inner:
                    return [g.inner[e.id]]
                g = g.parent
        d = self.prj.dotted(e, f.module)
        g = self.prj.resolve_func(d) if d else None
        return [g] if g is not None else []

    def owner(self, f: Func) -> Optional[Cls]:
        while f.parent is not None:
            f = f.parent
        return f.cls

    def closure(self, w: Func, facts: Dict[str, bool]) -> List[Func]:
        seen, todo = [w], [w]
        while todo:
            g = todo.pop()
            c = self.owner(g)
            for n in live(g, facts):
                if not isinstance(n, ast.Call):
                    continue
                h: List[Func] = []
                if isinstance(n.func, ast.Attribute) and isinstance(n.func.value, ast.Name) and c is not None and n.func.value.id == g.self_name:
                    m = c.find(n.func.attr)
                    h = [m] if m is not None else []
                elif isinstance(n.func, ast.Name):
                    d = self.prj.dotted(n.func, g.module)
                    m = g.inner.get(n.func.id) or (self.prj.resolve_func(d) if d else None)
                    h = [m] if m is not None else []
                for x in h:
                    if x not in seen and len(seen) < 60:
                        seen.append(x)
                        todo.append(x)
        return seen

    # -- rules
    def one(self, s: Site) -> None:
        self.n["places where work is spread over workers"] += 1
        facts = s.v.facts(s.call)
        ws = self.workers(s.fn, s.v)
        self.order(s)
        self.keyed(s)
        if not ws:
            self.n["workers that cannot be resolved"] += 1
            self.log.append(f"{s.f.where(s.call)}: worker not resolved")
        for w in ws:
            self.n["workers followed"] += 1
            cl = self.closure(w, facts)
            self.state(s, w, cl, facts)
            self.random(s, w, cl, facts)
            self.trained(s, w, facts)
            self.options(s, w)
            self.returned(s, w, facts)

    def order(self, s: Site) -> None:
        if s.how == "imap_unordered":
            p = s.v.par.get(id(s.call))
            ok = False
            if isinstance(p, ast.comprehension) and isinstance(p.target, (ast.Tuple, ast.List)):
                comp = s.v.par.get(id(p))
                ok = isinstance(comp, ast.DictComp) and bool(names(comp.key) & targets(p.target))
            elif isinstance(p, ast.comprehension):
                comp = s.v.par.get(id(p))
                ok = isinstance(comp, ast.DictComp) and bool(names(comp.key) & targets(p.target))
            elif isinstance(p, ast.For):
                loop = targets(p.target)
                ok = any(isinstance(n, ast.Subscript) and isinstance(n.ctx, ast.Store) and names(n.slice) & loop for b in p.body for n in ast.walk(b))
                ok = ok and not any(isinstance(n, ast.Call) and isinstance(n.func, ast.Attribute) and n.func.attr in ("append", "extend") for b in p.body for n in ast.walk(b))
            if not ok:
                self.note("order", s.f, "imap_unordered", s.call, "results are taken in the order the workers finish, not in the order of the items")
        cb = s.kw.get("callback")
        if s.how.endswith("_async") and cb is not None and isinstance(cb, ast.Attribute) and cb.attr in ("append", "extend"):
            self.note("order", s.f, "callback", s.call, "results are collected in the order the workers finish, not in the order of the items")
        # as_completed
    def keyed(self, s: Site) -> None:
        """apply_async stored under a key that does not tell the items apart"""
        if s.how != "apply_async":
            return
        p = s.v.par.get(id(s.call))
        if not (isinstance(p, ast.Assign) and len(p.targets) == 1 and isinstance(p.targets[0], ast.Subscript)):
            return
        loops: Set[str] = set()
        q = s.v.par.get(id(p))
        while q is not None and q is not s.f.node:
            if isinstance(q, ast.For):
                loops |= targets(q.target)
            q = s.v.par.get(id(q))
        if loops and not (names(p.targets[0].slice) & (loops | s.v.varying)):
            self.note("pairing", s.f, "key", s.call, "the results of all items are stored under one and the same key")

    def state(self, s: Site, w: Func, cl: List[Func], facts: Dict[str, bool]) -> None:
        inside = {g.qual for g in cl}
        for g in cl:
            sn = g.self_name
            if sn is None or self.owner(g) is None or g.name == "__init__":
                continue
            done: Set[str] = set()
            for n in live(g, facts):
                attr, how = self.write(n, sn)
                if attr is None or attr in done:
                    continue
                done.add(attr)
                self.n["attributes workers change"] += 1
                readers = self.loads.get(attr, set()) - inside
                if s.kind == "process" and readers and how != "none":
                    self.note("lost", s.f, f"{w.name}.{attr}", n,
                              f"{g.short} runs in a worker process, on a copy of the object: what it puts into {attr} is lost to the caller, who reads it afterwards")
                elif s.kind == "thread" and how in ("rebind", "append") and (readers or any(attr in {x.attr for x in ast.walk(h.node) if isinstance(x, ast.Attribute) and isinstance(x.ctx, ast.Load)} for h in cl)):
                    self.note("race", s.f, f"{w.name}.{attr}", n,
                              f"{g.short} runs in several threads at once on one object: what it puts into {attr} for one item is read for another, or in the order the threads finish")

    def write(self, n: ast.AST, sn: str) -> Tuple[Optional[str], str]:
        def root(t: ast.AST) -> Optional[str]:
            while isinstance(t, (ast.Subscript, ast.Attribute)):
                if isinstance(t, ast.Attribute) and isinstance(t.value, ast.Name) and t.value.id == sn:
                    return t.attr
                t = t.value
            return None
        if isinstance(n, (ast.Assign, ast.AugAssign, ast.AnnAssign)):
            if isinstance(n, ast.AnnAssign) and n.value is None:
                return None, ""
            ts = n.targets if isinstance(n, ast.Assign) else [n.target]
            for t in [y for x in ts for y in (x.elts if isinstance(x, (ast.Tuple, ast.List)) else [x])]:
                r = root(t)
                if r is not None:
                    return r, "item" if isinstance(t, ast.Subscript) else "rebind"
        if isinstance(n, ast.Call) and isinstance(n.func, ast.Attribute) and n.func.attr in MUTATORS:
            r = root(n.func.value) if isinstance(n.func.value, (ast.Attribute, ast.Subscript)) else None
            if r is not None:
                return r, "append"
        return None, ""

    def actuals(self, s: Site, w: Func) -> Optional[Dict[str, ast.AST]]:
        """the worker's parameter -> the expression that gives it for one item"""
        pos = list(w.posargs)
        if w.cls is not None and w.parent is None and not w.is_static:
            pos = pos[1:]
        fn = s.v.deref(s.fn)
        out: Dict[str, ast.AST] = {}
        pre: List[ast.AST] = []
        while isinstance(fn, ast.Call):
            last = fn.func.attr if isinstance(fn.func, ast.Attribute) else fn.func.id if isinstance(fn.func, ast.Name) else ""
            if last == "partial":
                pre = list(fn.args[1:]) + pre
                for k in fn.keywords:
                    if k.arg is None:
                        return None
                    out[k.arg] = k.value
            fn = s.v.deref(fn.args[0]) if fn.args else None
        if s.how in ("apply_async", "apply"):
            a = s.kw.get("args", s.rest[0] if s.rest else None)
            kwds = s.kw.get("kwds", s.rest[1] if len(s.rest) > 1 else None)
            a = s.v.deref(a) if a is not None else None
            if a is not None and not isinstance(a, (ast.Tuple, ast.List)):
                return None
            vals = pre + (list(a.elts) if a is not None else [])
            if kwds is not None:
                kwds = s.v.deref(kwds)
                if not isinstance(kwds, ast.Dict) or not all(isinstance(k, ast.Constant) for k in kwds.keys):
                    return None
                out.update({k.value: x for k, x in zip(kwds.keys, kwds.values)})
        elif s.how == "submit":
            vals = pre + list(s.rest)
            out.update({k: x for k, x in s.kw.items() if k not in (None, "fn")})
        elif s.how in ("starmap", "starmap_async"):
            it = s.kw.get("iterable", s.rest[0] if s.rest else None)
            it = s.v.deref(it) if it is not None else None
            if isinstance(it, ast.Call) and isinstance(it.func, ast.Name) and it.func.id in ("list", "tuple") and it.args:
                it = s.v.deref(it.args[0])
            if isinstance(it, ast.Call) and isinstance(it.func, ast.Name) and it.func.id == "zip":
                vals = pre + [ast.Starred(x) for x in it.args]
            elif isinstance(it, (ast.ListComp, ast.GeneratorExp)) and isinstance(it.elt, (ast.Tuple, ast.List)):
                vals = pre + list(it.elt.elts)
            else:
                return None
        else:
            it = s.kw.get("iterable", s.rest[0] if s.rest else None)
            if it is None:
                return None
            vals = pre + [ast.Starred(it)]
        for p, x in zip(pos, vals):
            out[p] = x
        return out

    def varies(self, e: ast.AST, v: View) -> bool:
        if isinstance(e, ast.Starred):
            return True
        return bool(names(e) & v.varying) or any(isinstance(n, ast.Call) for n in ast.walk(e))

    def options(self, s: Site, w: Func) -> None:
        act = self.actuals(s, w)
        if act is None:
            return
        for n in own_nodes(s.f.node):
            if not isinstance(n, ast.Call) or n is s.call:
                continue
            if w not in self.workers(n.func, s.v):
                continue
            ser, star = self.prj.bind(n, w)
            if star:
                continue
            for p in sorted(set(act) | set(ser)):
                if "seed" in p:
                    continue
                a, b = act.get(p), ser.get(p)
                da, db = (x if x is not None else w.default(p) for x in (a, b))
                if (a is not None and self.varies(a, s.v)) or (b is not None and self.varies(b, s.v)):
                    if (a is None or b is None) and w.default(p) is not None and not self.same(da, db, s.v):
                        if not (a is None and isinstance(b, ast.Name) and False):
                            self.note("option", s.f, f"{w.name}.{p}", s.call, f"{p} of {w.short} is given on one of the parallel and the serial path only")
                    continue
                self.n["options given in parallel and in sequence"] += 1
                if da is None or db is None or not self.same(da, db, s.v):
                    self.note("option", s.f, f"{w.name}.{p}", s.call, f"{p} of {w.short} is not the same on the parallel and on the serial path")

    def same(self, a: Optional[ast.AST], b: Optional[ast.AST], v: View) -> bool:
        if a is None or b is None:
            return a is b
        return ast.dump(v.deref(a)) == ast.dump(v.deref(b)) or ast.dump(a) == ast.dump(b)

    def random(self, s: Site, w: Func, cl: List[Func], facts: Dict[str, bool]) -> None:
        if s.kind != "process":
            return
        seeded = False
        act = self.actuals(s, w)
        wv = View(w)
        for n in live(w, facts):
            if isinstance(n, ast.Call) and n.args:
                d = self.prj.dotted(n.func, w.module) or ""
                if d.split(".")[-1] == "seed" and "random" in d:
                    ps = set()
                    todo = names(n.args[0])
                    for _ in range(4):
                        ps |= todo
                        todo = set().union(*[names(wv.one[x]) for x in todo if wv.one.get(x) is not None]) if todo else set()
                    got = ps & set(w.params)
                    if act is None or any(p in act and self.varies(act[p], s.v) for p in got) or "os" in ps or not got:
                        seeded = seeded or bool(got) or "os" in ps
        for g in cl:
            for n in live(g, facts):
                if not isinstance(n, ast.Call):
                    continue
                d = self.prj.dotted(n.func, g.module) or ""
                bits = d.split(".")
                draw = (d.startswith("numpy.random.") and len(bits) == 3 and bits[-1] not in NODRAW) or (len(bits) == 2 and bits[0] == "random" and bits[1] not in NODRAW)
                if not draw:
                    continue
                self.n["draws of random numbers in workers"] += 1
                if not seeded:
                    self.note("random", s.f, f"{w.name}|{d}", n,
                              f"{g.short} draws random numbers in a worker process without a seed of its own: workers forked from one process all draw the same ones")

    def trained(self, s: Site, w: Func, facts: Dict[str, bool]) -> None:
        if s.kind != "process":
            return
        ps = set(w.params) - {w.self_name}
        wv = View(w)
        back: Set[str] = set()
        for n in live(w, facts):
            if isinstance(n, ast.Return) and n.value is not None:
                inner = {id(x.func.value) for x in ast.walk(n.value) if isinstance(x, ast.Call) and isinstance(x.func, ast.Attribute) and x.func.attr in TRAIN}
                back |= {x.id for x in ast.walk(n.value) if isinstance(x, ast.Name) and id(x) not in inner}
                if isinstance(n.value, ast.Name) and isinstance(wv.deref(n.value), ast.Name):
                    back.add(wv.deref(n.value).id)
        for n in live(w, facts):
            if isinstance(n, ast.Call) and isinstance(n.func, ast.Attribute) and n.func.attr in TRAIN and isinstance(n.func.value, ast.Name) \
                    and n.func.value.id in ps and n.func.value.id not in back:
                gs = self.prj.resolve_call(n, w)
                if not gs or any(isinstance(x, ast.Return) and isinstance(x.value, ast.Name) and x.value.id == g.self_name for g in gs for x in own_nodes(g.node)):
                    continue        # unknown, or it hands itself back
                self.note("lost", s.f, f"{w.name}|{n.func.value.id}.{n.func.attr}", n,
                          f"{w.short} trains {n.func.value.id} in a worker process and does not hand it back: the caller's own copy stays untrained")

    def returned(self, s: Site, w: Func, facts: Dict[str, bool]) -> None:
        p = s.v.par.get(id(s.call))
        if isinstance(p, ast.Expr) or w.is_abstract:
            return
        body = [x for x in w.node.body if not (isinstance(x, ast.Expr) and isinstance(x.value, ast.Constant))]
        if all(isinstance(x, (ast.Pass, ast.Raise)) for x in body):
            return
        if not any(isinstance(n, (ast.Return, ast.Yield, ast.YieldFrom)) and n.value is not None
                   and not (isinstance(n.value, ast.Constant) and n.value.value is None) for n in live(w, facts)):
            self.note("lost", s.f, f"{w.name}|result", s.call, f"{w.short} returns nothing where its result is collected from the workers")


def as_completed(prj: Project, par: Par) -> None:
    for f in prj.funcs.values():
        if isinstance(f.node, ast.Lambda):
            continue
        v = None
        for n in own_nodes(f.node):
            if isinstance(n, ast.Call) and (prj.dotted(n.func, f.module) or "").endswith("futures.as_completed"):
                v = v or View(f)
                p = v.par.get(id(n))
                bad = isinstance(p, ast.comprehension) and isinstance(v.par.get(id(p)), (ast.ListComp, ast.GeneratorExp))
                if isinstance(p, ast.For):
                    bad = any(isinstance(x, ast.Call) and isinstance(x.func, ast.Attribute) and x.func.attr in ("append", "extend") for b in p.body for x in ast.walk(b))
                if bad:
                    par.note("order", f, "as_completed", n, "results are taken in the order the workers finish, not in the order of the items")


SELF = '''
import numpy as np
import random
from multiprocessing import Pool
from multiprocessing.dummy import Pool as TPool
from concurrent.futures import ThreadPoolExecutor
class G:
    def __init__(self): self.net=None
    def train(self, x):
        self.net = x
        return {}
class A:
    def __init__(self, multi, k): self.multi=multi; self.k=k; self.res=[]; self.tmp=0
    def w_ok(self, i, k=1):
        if not self.multi:
            self.res.append(i)
        else:
            return i*k
    def good(self, k):
        if not self.multi:
            return [self.w_ok(i, k) for i in range(3)]
        with Pool(2) as p:
            return p.starmap(self.w_ok, [(i, k) for i in range(3)])
    def drop_option(self, k):
        if self.multi:
            with Pool(2) as p:
                return p.starmap(self.w_ok, [(i, 2) for i in range(3)])
        return [self.w_ok(i, k) for i in range(3)]
    def w_lost(self, i):
        self.res.append(i)
        return i
    def lost(self):
        p = Pool(2)
        r = [p.apply_async(self.w_lost, args=(i,)) for i in range(3)]
        return [x.get() for x in r], self.res
    def w_rand(self, i):
        return np.random.normal()+i
    def rand(self):
        with Pool(2) as p:
            return p.map(self.w_rand, range(3))
    def w_seeded(self, i, seed):
        np.random.seed(seed)
        return np.random.normal()+i
    def seeded(self):
        s = np.random.randint(1, 9, 3)
        with Pool(2) as p:
            return p.starmap(self.w_seeded, [(i, s[i]) for i in range(3)])
    def unseeded(self):
        with Pool(2) as p:
            return p.starmap(self.w_seeded, [(i, 5) for i in range(3)])
    def unordered(self):
        with Pool(2) as p:
            return list(p.imap_unordered(self.w_id, range(3)))
    def w_id(self, i):
        return i
    def w_train(self, gm: "G", x):
        return gm.train(x)
    def trained(self, gms):
        with Pool(2) as p:
            return p.starmap(self.w_train, [(g, 1) for g in gms])
    def w_none(self, i):
        i + 1
    def none(self):
        with Pool(2) as p:
            r = p.map(self.w_none, range(3))
        return r
'''
WANT = {("option", "drop_option"), ("lost", "lost"), ("random", "rand"), ("random", "unseeded"), ("order", "unordered"), ("lost", "trained"), ("lost", "none")}


def run(c: Ctx) -> None:
    c.rules.append("S22: every place that hands work to a pool is found; the worker is followed through the methods of its object. Results keep the order or the "
                   "key of their item; a worker process leaves nothing the caller reads afterwards in its own copy of an object and returns what it trained; "
                   "threads do not pass values through attributes they share; a worker process that draws random numbers seeds them with a value of its own; "
                   "options have one value on the parallel and on the serial path.")
    c.assumptions += ["Pool.map, starmap, imap and results fetched from a list or dictionary of pending results keep the order of the items",
                      "worker processes are forked", "workers held in an attribute (a user's callable) are not followed"]
    t = Par(Project(sources={"kats.x": SELF}))
    for s in t.sites():
        t.one(s)
    got = {(r, k.split("|")[0].split(".")[-1]) for r, k, _, _ in t.found}
    c.selftest("planted examples", got == WANT)
    p = Par(c.prj)
    for s in p.sites():
        p.one(s)
        c.sample(f"{s.f.where(s.call)}: {s.how} in a {s.kind} pool, worker {', '.join(w.short for w in p.workers(s.fn, s.v)) or 'not resolved'}")
    as_completed(c.prj, p)
    for r, k, w, y in p.found:
        c.find(r, k, w, y)
    for k, n in p.n.items():
        c.counts[k] = n
    c.notes["not followed"] = p.log
    c.floor("places where work is spread over workers", 1)
