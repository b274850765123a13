"""Control-flow graph of one function with exception edges and inlined `finally` blocks.

A node is one simple statement, the test of a branch, the iterable of a loop, the items of a `with`
or the end of a `with` body. `finally` blocks are copied once per way of reaching them, so a path in
the graph is a path of the program."""
from __future__ import annotations

import ast
from typing import Callable, Dict, FrozenSet, Iterator, List, Optional, Set, Tuple


class Node:
    __slots__ = ("kind", "ast", "succ", "exc", "true", "false", "wid")

    def __init__(self, kind: str, a: Optional[ast.AST]) -> None:
        self.kind = kind            # stmt / test / iter / with / endwith / handler / exit / raise
        self.ast = a
        self.succ: List["Node"] = []
        self.exc: List["Node"] = []     # where an exception raised here goes
        self.true: Optional["Node"] = None
        self.false: Optional["Node"] = None

    def line(self) -> int:
        return getattr(self.ast, "lineno", 0)


class _K:
    """where control goes: one target per kind of exit"""

    def __init__(self, ret: Node, exc: List[Node], brk: Optional[Node], cont: Optional[Node]) -> None:
        self.ret, self.exc, self.brk, self.cont = ret, exc, brk, cont

    def but(self, **k) -> "_K":
        n = _K(self.ret, self.exc, self.brk, self.cont)
        for a, v in k.items():
            setattr(n, a, v)
        return n


class CFG:
    def __init__(self, body: List[ast.stmt]) -> None:
        self.nodes: List[Node] = []
        self.exit = Node("exit", None)
        self.raised = Node("raise", None)
        self.by_ast: Dict[ast.AST, List[Node]] = {}
        self.entry = self._block(body, self.exit, _K(self.exit, [self.raised], None, None))

    def _new(self, kind: str, a: ast.AST, k: _K) -> Node:
        n = Node(kind, a)
        n.exc = list(k.exc)
        self.nodes.append(n)
        self.by_ast.setdefault(a, []).append(n)
        return n

    def _block(self, body: List[ast.stmt], nxt: Node, k: _K) -> Node:
        for s in reversed(body):
            nxt = self._stmt(s, nxt, k)
        return nxt

    def _stmt(self, s: ast.stmt, nxt: Node, k: _K) -> Node:
        if isinstance(s, ast.Return):
            n = self._new("stmt", s, k)
            n.succ = [k.ret]
            return n
        if isinstance(s, ast.Raise):
            n = self._new("stmt", s, k)
            return n
        if isinstance(s, ast.Break) and k.brk is not None:
            n = self._new("stmt", s, k)
            n.succ = [k.brk]
            return n
        if isinstance(s, ast.Continue) and k.cont is not None:
            n = self._new("stmt", s, k)
            n.succ = [k.cont]
            return n
        if isinstance(s, ast.If):
            n = self._new("test", s, k)
            n.true = self._block(s.body, nxt, k)
            n.false = self._block(s.orelse, nxt, k)
            n.succ = [n.true, n.false]
            return n
        if isinstance(s, ast.While):
            n = self._new("test", s, k)
            n.true = self._block(s.body, n, k.but(brk=nxt, cont=n))
            n.false = self._block(s.orelse, nxt, k)
            n.succ = [n.true] if isinstance(s.test, ast.Constant) and s.test.value else [n.true, n.false]
            return n
        if isinstance(s, (ast.For, ast.AsyncFor)):
            n = self._new("iter", s, k)
            n.true = self._block(s.body, n, k.but(brk=nxt, cont=n))
            n.false = self._block(s.orelse, nxt, k)
            n.succ = [n.true, n.false]
            return n
        if isinstance(s, (ast.With, ast.AsyncWith)):
            def end(to: Node) -> Node:
                e = self._new("endwith", s, k)
                e.succ = [to]
                return e
            ek = k.but(ret=end(k.ret), exc=[end(x) for x in k.exc],
                       brk=end(k.brk) if k.brk is not None else None, cont=end(k.cont) if k.cont is not None else None)
            if any(_absorbs(i.context_expr) for i in s.items):
                ek.exc = ek.exc + [end(nxt)]
            n = self._new("with", s, k)
            n.succ = [self._block(s.body, end(nxt), ek)]
            return n
        if isinstance(s, ast.Try):
            if s.finalbody:
                memo: Dict[int, Node] = {}

                def fin(to: Optional[Node]) -> Optional[Node]:
                    if to is None:
                        return None
                    if id(to) not in memo:
                        memo[id(to)] = self._block(s.finalbody, to, k)
                    return memo[id(to)]
                ik = k.but(ret=fin(k.ret), exc=[fin(x) for x in k.exc], brk=fin(k.brk), cont=fin(k.cont))
                nx = fin(nxt)
            else:
                ik, nx = k, nxt
            hs: List[Node] = []
            caught = False
            for h in s.handlers:
                hn = self._new("handler", h, ik)
                hn.succ = [self._block(h.body, nx, ik)]
                hs.append(hn)
                if h.type is None or any(isinstance(x, (ast.Name, ast.Attribute)) and ast.unparse(x).split(".")[-1] in ("Exception", "BaseException")
                                         for x in ([h.type] + (h.type.elts if isinstance(h.type, ast.Tuple) else []))):
                    caught = True
            els = self._block(s.orelse, nx, ik) if s.orelse else nx
            return self._block(s.body, els, ik.but(exc=hs if caught else hs + ik.exc)) if s.body else els
        if type(s).__name__ == "Match":
            n = self._new("test", s, k)
            n.succ = [self._block(c.body, nxt, k) for c in s.cases] + [nxt]
            return n
        n = self._new("stmt", s, k)
        n.succ = [nxt]
        return n

    def code(self, n: Node) -> List[ast.AST]:
        """the expressions evaluated at this node (bodies excluded)"""
        s = n.ast
        if n.kind == "test":
            return [s.test] if hasattr(s, "test") else [s.subject]
        if n.kind == "iter":
            return [s.iter]
        if n.kind == "with":
            return [i.context_expr for i in s.items]
        if n.kind in ("endwith", "handler", "exit", "raise"):
            return []
        if isinstance(s, (ast.FunctionDef, ast.AsyncFunctionDef, ast.ClassDef)):
            return list(s.decorator_list)
        return [s]


def _absorbs(e: ast.AST) -> bool:
    return isinstance(e, ast.Call) and ast.unparse(e.func).split(".")[-1] == "suppress"


def walk_now(e: ast.AST) -> Iterator[ast.AST]:
    """nodes evaluated when `e` is, lambdas and nested functions excluded"""
    todo = [e]
    while todo:
        n = todo.pop()
        yield n
        for c in ast.iter_child_nodes(n):
            if not isinstance(c, (ast.Lambda, ast.FunctionDef, ast.AsyncFunctionDef, ast.ClassDef)):
                todo.append(c)


def escape(cfg: CFG, start: List[Node], stop: Callable[[Node], bool], raises: Callable[[Node], bool],
           facts: FrozenSet[Tuple[str, bool]] = frozenset(), known: Callable[[ast.AST], Optional[bool]] = lambda t: None
           ) -> Optional[Tuple[str, List[Node]]]:
    """a path from `start` to the end of the function on which no node satisfies `stop`:
    ("exit"/"raise", path), or None. `facts` are tests already decided on the way; `known` decides
    tests that follow from what is being tracked."""
    seen: Set[Tuple[int, FrozenSet[Tuple[str, bool]]]] = set()
    todo: List[Tuple[Node, FrozenSet[Tuple[str, bool]], Tuple]] = [(s, facts, ()) for s in start]
    while todo:
        n, fs, path = todo.pop()
        if n is cfg.exit or n is cfg.raised:
            out = []
            while path:
                out.append(path[0])
                path = path[1]
            return ("exit" if n is cfg.exit else "raise", out[::-1])
        if (id(n), fs) in seen or len(seen) > 20000:
            continue
        seen.add((id(n), fs))
        if stop(n):
            continue
        p = (n, path)
        if raises(n):
            for x in n.exc:
                todo.append((x, fs, p))
        if n.kind == "test" and isinstance(n.ast, (ast.If, ast.While)):
            t, pos = n.ast.test, True
            while isinstance(t, ast.UnaryOp) and isinstance(t.op, ast.Not):
                t, pos = t.operand, not pos
            d = known(t)
            txt = ast.unparse(t)
            if d is None:
                d = True if (txt, True) in fs else False if (txt, False) in fs else None
            if d is None:
                todo.append((n.true, fs | {(txt, pos)}, p))
                if n.false in n.succ:
                    todo.append((n.false, fs | {(txt, not pos)}, p))
            else:
                todo.append((n.true if d == pos else n.false, fs, p))
            continue
        # an assignment ends what was known about the names it binds
        if fs and n.kind in ("stmt", "iter") and n.ast is not None:
            tg = n.ast.target if n.kind == "iter" else n.ast
            bound = {x.id if isinstance(x, ast.Name) else x.attr for x in walk_now(tg)
                     if isinstance(x, (ast.Name, ast.Attribute)) and isinstance(getattr(x, "ctx", None), ast.Store)}
            if bound:
                fs = frozenset(f for f in fs if not any(b in f[0] for b in bound))
        for x in n.succ:
            todo.append((x, fs, p))
    return None
