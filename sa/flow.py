"""Path facts over the syntax tree: how a block may be left, dead stores."""
from __future__ import annotations

import ast
from typing import Dict, List, Optional, Set, Tuple

from .project import Func, Project, own_nodes


class Flow:
    """`exits(block)`: the ways a statement list may be left, out of
    raise/return/break/continue/fall; calls of functions that always raise count
    as a raise."""

    def __init__(self, prj: Project) -> None:
        self.prj = prj
        self.noreturn: Set[str] = set()
        for _ in range(4):
            before = len(self.noreturn)
            for f in prj.funcs.values():
                if f.qual in self.noreturn or f.is_abstract or isinstance(f.node, ast.Lambda):
                    continue
                if any(isinstance(n, (ast.Yield, ast.YieldFrom)) for n in own_nodes(f.node)):
                    continue
                if self.exits(f.node.body, f) == {"raise"} and not self._stub(f):
                    self.noreturn.add(f.qual)
            if len(self.noreturn) == before:
                break

    @staticmethod
    def _stub(f: Func) -> bool:
        """a method that only says 'not implemented here'"""
        return any(isinstance(n, ast.Raise) and n.exc is not None and "NotImplemented" in ast.unparse(n.exc)
                   for n in own_nodes(f.node)) and f.cls is not None

    def exits(self, body: List[ast.stmt], f: Func) -> Set[str]:
        out: Set[str] = set()
        for s in body:
            k = self.stmt(s, f)
            out |= k - {"fall"}
            if "fall" not in k:
                return out
        out.add("fall")
        return out

    def _noreturn_call(self, e: ast.AST, f: Func) -> bool:
        if not isinstance(e, ast.Call):
            return False
        gs = self.prj.resolve_call(e, f)
        return bool(gs) and all(g.qual in self.noreturn for g in gs)

    def stmt(self, s: ast.stmt, f: Func) -> Set[str]:
        if isinstance(s, ast.Raise):
            return {"raise"}
        if isinstance(s, ast.Return):
            return {"raise"} if s.value is not None and self._noreturn_call(s.value, f) else {"return"}
        if isinstance(s, ast.Break):
            return {"break"}
        if isinstance(s, ast.Continue):
            return {"continue"}
        if isinstance(s, ast.Assert):
            if isinstance(s.test, ast.Constant) and not s.test.value:
                return {"raise"}
            return {"fall", "raise"}
        if isinstance(s, (ast.Expr, ast.Assign, ast.AnnAssign, ast.AugAssign)):
            v = s.value
            if v is not None and self._noreturn_call(v, f):
                return {"raise"}
            return {"fall"}
        if isinstance(s, ast.If):
            return self.exits(s.body, f) | self.exits(s.orelse, f)
        if isinstance(s, (ast.For, ast.AsyncFor, ast.While)):
            b = self.exits(s.body, f)
            forever = isinstance(s, ast.While) and isinstance(s.test, ast.Constant) and bool(s.test.value)
            out = b & {"raise", "return"}
            if not forever:
                out |= self.exits(s.orelse, f)
            if "break" in b:
                out.add("fall")
            return out
        if isinstance(s, (ast.With, ast.AsyncWith)):
            return self.exits(s.body, f)
        if isinstance(s, ast.Try):
            b = self.exits(s.body, f)
            out = b - {"fall"}
            if "raise" in b and s.handlers and any(h.type is None for h in s.handlers):
                out.discard("raise")
            if "fall" in b:
                out |= self.exits(s.orelse, f)
            for h in s.handlers:
                out |= self.exits(h.body, f)
            if s.finalbody:
                fb = self.exits(s.finalbody, f)
                if "fall" not in fb:
                    return fb
                out |= fb - {"fall"}
            return out
        return {"fall"}

    def exits_after(self, target: ast.stmt, f: Func) -> Set[str]:
        """ways the function may be left once `target` has completed normally"""
        def block(body: List[ast.stmt]) -> Optional[Set[str]]:
            for i, s in enumerate(body):
                if s is target:
                    return self.exits(body[i + 1:], f)
                r = inside(s)
                if r is not None:
                    if "fall" in r:
                        r = (r - {"fall"}) | self.exits(body[i + 1:], f)
                    return r
            return None

        def inside(s: ast.stmt) -> Optional[Set[str]]:
            for fld in ("body", "orelse", "finalbody"):
                b = getattr(s, fld, None)
                if isinstance(b, list) and b and isinstance(b[0], ast.stmt) and not isinstance(s, (ast.FunctionDef, ast.ClassDef)):
                    r = block(b)
                    if r is not None:
                        if isinstance(s, (ast.For, ast.While, ast.AsyncFor)) and fld == "body":
                            if r & {"fall", "break", "continue"}:
                                r = (r - {"fall", "break", "continue"}) | {"fall"}
                        if isinstance(s, ast.Try) and fld == "body" and "raise" in r and any(
                                h.type is None or ast.unparse(h.type) in ("Exception", "BaseException") for h in s.handlers):
                            r = set(r)
                            for h in s.handlers:
                                r |= self.exits(h.body, f)
                        return r
            for h in getattr(s, "handlers", []) or []:
                r = block(h.body)
                if r is not None:
                    return r
            return None

        return block(f.node.body) or {"fall"}


def enclosing(fn: ast.AST, target: ast.AST) -> List[ast.AST]:
    """ancestors of target inside fn, innermost first"""
    par: Dict[ast.AST, ast.AST] = {}
    for n in ast.walk(fn):
        for c in ast.iter_child_nodes(n):
            par[c] = n
    out, n = [], target
    while n in par and par[n] is not fn:
        n = par[n]
        out.append(n)
    return out


def dead_stores(f: Func) -> List[Tuple[ast.stmt, str]]:
    """assignments to a plain local whose value can never be read: (statement, name)"""
    nonlocal_: Set[str] = set()
    closure: Set[str] = set()
    for n in own_nodes(f.node):
        if isinstance(n, (ast.Global, ast.Nonlocal)):
            nonlocal_ |= set(n.names)
        if isinstance(n, (ast.FunctionDef, ast.AsyncFunctionDef, ast.Lambda, ast.ClassDef,
                          ast.ListComp, ast.SetComp, ast.DictComp, ast.GeneratorExp)):
            for m in ast.walk(n):
                if isinstance(m, ast.Name) and isinstance(m.ctx, ast.Load):
                    closure.add(m.id)
        if isinstance(n, ast.Call) and isinstance(n.func, ast.Name) and n.func.id in ("locals", "vars", "eval", "exec"):
            return []
    dead: List[Tuple[ast.stmt, str]] = []
    final = [False]

    def uses(e: Optional[ast.AST]) -> Set[str]:
        if e is None:
            return set()
        return {m.id for m in ast.walk(e) if isinstance(m, ast.Name) and isinstance(m.ctx, (ast.Load, ast.Del))}

    def target(t: ast.AST, live: Set[str], s: ast.stmt, val) -> Set[str]:
        if isinstance(t, ast.Name):
            if final[0] and t.id not in live and t.id not in nonlocal_ and t.id not in closure:
                dead.append((s, t.id))
            return live - {t.id}
        if isinstance(t, (ast.Tuple, ast.List)):
            names = {x.id for x in ast.walk(t) if isinstance(x, ast.Name) and isinstance(x.ctx, ast.Store)}
            return (live - names) | uses(t)
        return live | uses(t)

    def block(body: List[ast.stmt], live: Set[str], ex: Dict[str, Set[str]]) -> Set[str]:
        for s in reversed(body):
            live = stmt(s, live, ex)
        return live

    def stmt(s: ast.stmt, live: Set[str], ex: Dict[str, Set[str]]) -> Set[str]:
        if isinstance(s, ast.Assign):
            live = set(live)
            for t in s.targets:
                live = target(t, live, s, s.value)
            return live | uses(s.value) | ex["exc"]
        if isinstance(s, ast.AnnAssign):
            if s.value is None:
                return live
            return target(s.target, set(live), s, s.value) | uses(s.value) | ex["exc"]
        if isinstance(s, ast.AugAssign):
            return live | uses(s.value) | uses(s.target) | ({s.target.id} if isinstance(s.target, ast.Name) else set()) | ex["exc"]
        if isinstance(s, ast.Return):
            return uses(s.value) | ex["fin"] | ex["exc"]
        if isinstance(s, ast.Raise):
            return uses(s.exc) | uses(s.cause) | ex["exc"] | ex["fin"]
        if isinstance(s, ast.Break):
            return set(ex["brk"])
        if isinstance(s, ast.Continue):
            return set(ex["cont"])
        if isinstance(s, ast.If):
            return block(s.body, live, ex) | block(s.orelse, live, ex) | uses(s.test)
        if isinstance(s, (ast.For, ast.AsyncFor, ast.While)):
            after = block(s.orelse, live, ex)
            head = set(after)
            fin = final[0]
            final[0] = False
            for _ in range(30):
                e2 = dict(ex, brk=set(live), cont=head)
                b = block(s.body, head, e2)
                if isinstance(s, ast.While):
                    nh = b | after | uses(s.test)
                else:
                    nh = target_quiet(s.target, b) | after
                if nh <= head:
                    break
                head = head | nh
            final[0] = fin
            if fin:
                block(s.body, head, dict(ex, brk=set(live), cont=head))
            return head | (uses(s.iter) if not isinstance(s, ast.While) else uses(s.test))
        if isinstance(s, (ast.With, ast.AsyncWith)):
            l = block(s.body, live, ex)
            for i in s.items:
                l = l | uses(i.context_expr)
            return l
        if isinstance(s, ast.Try):
            fb = block(s.finalbody, live, ex) if s.finalbody else set(live)
            ex2 = dict(ex, fin=ex["fin"] | (fb if s.finalbody else set()))
            hs: Set[str] = set()
            for h in s.handlers:
                hs |= block(h.body, fb, ex2)
            el = block(s.orelse, fb, ex2)
            e3 = dict(ex2, exc=ex["exc"] | hs | (fb if s.finalbody else set()))
            return block(s.body, el, e3) | hs
        if isinstance(s, (ast.FunctionDef, ast.AsyncFunctionDef, ast.ClassDef)):
            return live
        return live | uses(s) | ex["exc"]

    def target_quiet(t: ast.AST, live: Set[str]) -> Set[str]:
        names = {x.id for x in ast.walk(t) if isinstance(x, ast.Name) and isinstance(x.ctx, ast.Store)}
        return (live - names) | uses(t)

    if isinstance(f.node, ast.Lambda):
        return []
    final[0] = True
    block(f.node.body, set(), {"brk": set(), "cont": set(), "exc": set(), "fin": set()})
    return dead
