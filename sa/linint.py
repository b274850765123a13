"""Abstract interpretation with symbolic positions.

On top of the disjunctive interpreter: integers are polynomials over named sizes with known signs,
branch conditions leave linear facts in the state, and series, date ranges and arrays are stretches
[lo, hi) of one time axis. An inequality is decided by adding known facts to it until only
non-negative terms remain; what that cannot decide stays open and both branches are followed.
"""
from __future__ import annotations

import ast
import itertools
import math
from fractions import Fraction
from typing import Any, Dict, List, Optional, Tuple

from .absint import (FALSE, INF, NN, NONE, TOP, TRUE, Frame, HObj, Interp, St, const, is_const, obj)

FACTS = -1          # heap slot of the facts
BLIND = -2          # set when a condition could not be read
TS = "kats.consts.TimeSeriesData"


# ------------------------------------------------------------------ polynomials
def lin(c, terms: Dict[Tuple[str, ...], Any]):
    t = tuple(sorted((m, k) for m, k in terms.items() if k != 0))
    if not t:
        c = Fraction(c)
        return const(int(c)) if c.denominator == 1 else const(float(c))
    return ("lin", Fraction(c), t)


def sym(name: str):
    return ("lin", Fraction(0), (((name,), Fraction(1)),))


def poly(v) -> Optional[Tuple[Fraction, Dict]]:
    if v[0] == "lin":
        return v[1], dict(v[2])
    if v[0] == "c" and isinstance(v[2], (int, float)) and not isinstance(v[2], bool):
        try:
            return Fraction(v[2]).limit_denominator(10 ** 9), {}
        except (ValueError, OverflowError):
            return None
    return None


def padd(a, b, k=1):
    pa, pb = poly(a), poly(b)
    if pa is None or pb is None:
        return None
    t = dict(pa[1])
    for m, c in pb[1].items():
        t[m] = t.get(m, 0) + k * c
    return lin(pa[0] + k * pb[0], t)


def pmul(a, b):
    pa, pb = poly(a), poly(b)
    if pa is None or pb is None:
        return None
    xs = [((), pa[0])] + list(pa[1].items())
    ys = [((), pb[0])] + list(pb[1].items())
    t: Dict[Tuple[str, ...], Any] = {}
    c = Fraction(0)
    for m, k in xs:
        for n, q in ys:
            mm = tuple(sorted(m + n))
            if not mm:
                c += k * q
            else:
                t[mm] = t.get(mm, 0) + k * q
    return lin(c, t)


def show(v) -> str:
    if v[0] == "gt":
        return show(v[1]) + " > 0"
    if v[0] == "c":
        return str(v[2])
    if v[0] != "lin":
        return "?"
    out = ""
    for m, k in v[2]:
        s = "*".join(m) if abs(k) == 1 else f"{abs(k)}*" + "*".join(m)
        out += (" - " if k < 0 else " + " if out else "") + s
    if v[1] or not out:
        out += f" {'-' if v[1] < 0 else '+'} {abs(v[1])}" if out else str(v[1])
    return out.strip()


def showseq(v) -> str:
    if v[0] != "seq":
        return "?"
    return " ++ ".join(f"[{show(lo)}, {show(hi)})" for _, lo, hi in v[2]) or "[]"


class LinInterp(Interp):
    def __init__(self, prj, **kw) -> None:
        super().__init__(prj, **kw)
        self.lo: Dict[str, float] = {}          # lower bounds of symbols
        self.integral: Dict[str, bool] = {}
        self.interned: Dict[Any, str] = {}
        self.samples: Dict[str, List[Any]] = {}     # values tried for a size when an inequality is refuted
        self.proofs: Dict[Any, bool] = {}
        self.method_stubs: Dict[str, Any] = {}      # methods of unknown objects
        self.events: List[Tuple] = []               # (what, left stretch, right stretch, state, where)

    # ------------------------------------------------------------ symbols
    def symbol(self, name: str, lo=0, isint: bool = True):
        self.lo[name] = lo
        self.integral[name] = isint
        return sym(name)

    def opaque(self, key, hint: str, lo=-INF, isint: bool = True):
        """the same expression always gets the same symbol"""
        if key not in self.interned:
            n = f"{hint}{len(self.interned) + 1}"
            self.interned[key] = n
            self.lo[n] = lo
            self.integral[n] = isint
        elif lo > self.lo[self.interned[key]]:
            self.lo[self.interned[key]] = lo
        return sym(self.interned[key])

    def is_int(self, v) -> bool:
        p = poly(v)
        return p is not None and p[0].denominator == 1 and all(
            k.denominator == 1 and all(self.integral.get(s, False) for s in m) for m, k in p[1].items())

    # -------------------------------------------------------------- facts
    def facts(self, st: St) -> Tuple:
        h = st.heap.get(FACTS)
        return h.elts if h is not None else ()

    def assume(self, st: St, f, strict: bool = False) -> Optional[St]:
        """state in which f >= 0 (f > 0) holds; None when that is known to be impossible"""
        if f is None:
            return st
        p = poly(f)
        if p is None:
            return st
        if strict and self.is_int(f):
            return self.assume(st, padd(f, const(1), -1))
        if not p[1]:
            return st if p[0] > 0 or p[0] == 0 and not strict else None
        if strict:
            if self.nonneg(self.scale(f, Fraction(-1)), st):
                return None
        elif self.positive(self.scale(f, Fraction(-1)), st):
            return None
        s = st.copy()
        fs = self.facts(st)
        if strict:
            f = ("gt", f)
        if f not in fs:
            s.heap[FACTS] = HObj("#facts", {}, fs + (f,), False)
        return s

    def _easy(self, f) -> bool:
        p = poly(f)
        if p is None:
            return False
        c, t = p
        low = c
        for m, k in t.items():
            lo = Fraction(1)
            for s in m:
                b = self.lo.get(s, -INF)
                if b == -INF or b < 0:
                    return False
                lo *= Fraction(b)
            if k < 0:
                return False
            low += k * lo
        return low >= 0

    def nonneg(self, f, st: St) -> bool:
        """is f >= 0 in every concretisation of the state? (assume f < 0 and eliminate the sizes one by one)"""
        if poly(f) is None:
            return False
        return self._nonneg(f, self.facts(st))

    def positive(self, f, st: St) -> bool:
        """is f > 0 in every concretisation of the state?"""
        if poly(f) is None:
            return False
        if self.is_int(f):
            return self.nonneg(padd(f, const(1), -1), st)
        return self._nonneg(f, self.facts(st), True)

    def _nonneg(self, f, fs, strict: bool = False) -> bool:
        if not strict and self._easy(f):
            return True
        k = (f, fs, strict)
        if k not in self.proofs:
            self.proofs[k] = self._eliminate(f, fs, strict)
        return self.proofs[k]

    def implied(self, f, fs) -> bool:
        return self._nonneg(f[1], fs, True) if f[0] == "gt" else self._nonneg(f, fs)

    @staticmethod
    def _row(c, t, strict: bool):
        """integer row (coefficients, constant, strict) in lowest terms"""
        d = math.lcm(c.denominator, *(k.denominator for k in t.values()))
        ci = int(c * d)
        ti = {m: int(k * d) for m, k in t.items() if k}
        g = math.gcd(ci, *ti.values()) or 1
        return ({m: k // g for m, k in ti.items()}, ci // g, strict)

    def _eliminate(self, f, fs, strict: bool = False) -> bool:
        c, t = poly(f)
        neg = {m: -k for m, k in t.items()}
        rows = [self._row(-c - 1, neg, False) if self.is_int(f) and not strict else self._row(-c, neg, not strict)]
        monos = set(t)
        pool = [(poly(g[1]) + (True,)) if g[0] == "gt" else (poly(g) + (False,)) for g in fs]
        # facts that share a size with the goal, transitively
        syms = {x for m in monos for x in m}
        grew = True
        used: List = []
        while grew:
            grew = False
            for g in pool:
                if g not in used and any(x in syms for m in g[1] for x in m):
                    used.append(g)
                    syms |= {x for m in g[1] for x in m}
                    grew = True
        for g in used:
            rows.append(self._row(g[0], g[1], g[2]))
            monos |= set(g[1])
        for r in {x for m in monos if len(m) > 1 for x in m}:
            if self.lo.get(r, -INF) < 0:
                continue
            for cg, tg, _ in used:
                if any(len(m) == 1 and m[0] != r and tuple(sorted((m[0], r))) in monos for m in tg) and all(len(m) == 1 for m in tg):
                    q = {tuple(sorted(m + (r,))): k for m, k in tg.items()}
                    q[(r,)] = q.get((r,), 0) + cg
                    rows.append(self._row(Fraction(0), {m: Fraction(k) for m, k in q.items()}, False))
                    monos |= set(q)
        for m in monos | {(x,) for m in monos for x in m}:
            if all(self.lo.get(x, -INF) >= 0 for x in m):
                low = Fraction(1)
                for x in m:
                    low *= Fraction(self.lo[x])
                rows.append(self._row(-low, {m: Fraction(1)}, False))
        return self._infeasible(rows)

    @staticmethod
    def _infeasible(rows) -> bool:
        def dedupe(rs):
            best: Dict[Any, Any] = {}
            for co, c, strict in rs:
                k = tuple(sorted(co.items()))
                o = best.get(k)
                if o is None or (c, not strict) < (o[1], not o[2]):
                    best[k] = (co, c, strict)
            return list(best.values())
        rows = dedupe(rows)
        while True:
            live = []
            for co, c, strict in rows:
                if not co:
                    if c < 0 or strict and c <= 0:
                        return True
                else:
                    live.append((co, c, strict))
            rows = live
            if not rows or len(rows) > 600:
                return False
            cnt: Dict[Any, List[int]] = {}
            for co, _, _ in rows:
                for m, k in co.items():
                    cnt.setdefault(m, [0, 0])[k > 0] += 1
            v = min(cnt, key=lambda m: (cnt[m][0] * cnt[m][1] - cnt[m][0] - cnt[m][1], m))
            ups = [r for r in rows if r[0].get(v, 0) > 0]
            downs = [r for r in rows if r[0].get(v, 0) < 0]
            nxt = [r for r in rows if v not in r[0]]
            for a, ca, sa in ups:
                for b, cb, sb in downs:
                    x, y = -b[v], a[v]
                    co = {}
                    for m in set(a) | set(b):
                        k = x * a.get(m, 0) + y * b.get(m, 0)
                        if k:
                            co[m] = k
                    c = x * ca + y * cb
                    g = math.gcd(c, *co.values()) or 1
                    if g > 1:
                        co = {m: k // g for m, k in co.items()}
                        c //= g
                    nxt.append((co, c, sa or sb))
            rows = dedupe(nxt)

    @staticmethod
    def scale(g, lam):
        c, t = poly(g)
        return lin(c * lam, {m: k * lam for m, k in t.items()})

    def le(self, a, b, st: St, strict: bool = False) -> Optional[bool]:
        d = padd(b, a, -1)
        if d is None:
            return None
        nd = self.scale(d, Fraction(-1))
        if strict:
            return True if self.positive(d, st) else False if self.nonneg(nd, st) else None
        return True if self.nonneg(d, st) else False if self.positive(nd, st) else None

    def same(self, a, b, st: St) -> Optional[bool]:
        if a == b:
            return True
        d = padd(a, b, -1)
        if d is None:
            return None
        if self.nonneg(d, st) and self.nonneg(self.scale(d, Fraction(-1)), st):
            return True
        if self.le(a, b, st, True) or self.le(b, a, st, True):
            return False
        return None

    def branch(self, a, b, st: St, strict: bool) -> List[Tuple[bool, St]]:
        """the states in which a < b (a <= b) holds and in which it does not"""
        t = self.le(a, b, st, strict)
        if t is not None:
            return [(t, st)]
        d = padd(b, a, -1)
        out = []
        s1, s2 = self.assume(st, d, strict), self.assume(st, self.scale(d, Fraction(-1)), not strict)
        if s1 is not None:
            out.append((True, s1))
        if s2 is not None:
            out.append((False, s2))
        return out

    # ---------------------------------------------------------- refutation
    def _value(self, name: str, env: Dict[str, Fraction]):
        """value of a derived size from its definition; None when it has none"""
        if name in env:
            return env[name]
        key = next((k for k, n in self.interned.items() if n == name), None)
        if key is None:
            return None
        op, args = key[0], []
        for a in key[1:]:
            if isinstance(a, int):
                args.append(Fraction(a))
                continue
            v = self.evaluate(a, env) if isinstance(a, tuple) and poly(a) is not None else \
                self.evaluate(self.seqlen(a), env) if isinstance(a, tuple) and a and a[0] == "seq" and self.seqlen(a) is not None else None
            if v is None:
                return None
            args.append(v)
        a = args[0] if args else Fraction(0)
        r = None
        if op == "floor":
            r = Fraction(math.floor(a))
        elif op == "int":
            r = Fraction(math.trunc(a))
        elif op == "ceil":
            r = Fraction(math.ceil(a))
        elif op == "round":
            r = Fraction(round(a))
        elif op == "abs":
            r = abs(a)
        elif op in ("quot", "rem", "ratio") and args[1] != 0:
            q = a / args[1]
            r = q if op == "ratio" else Fraction(math.floor(q)) if op == "quot" else a - args[1] * math.floor(q)
        elif op == "split":
            n, k, i = a, args[1], args[2]
            r = Fraction(i * (n // k) + min(i, n % k))
        elif op == "linspace":
            b, k, i = args[1], args[2], args[3]
            r = Fraction(math.trunc(a + (b - a) * i / (k - 1)))
        if r is not None:
            env[name] = r
        return r

    def evaluate(self, v, env: Dict[str, Fraction]):
        p = poly(v)
        if p is None:
            return None
        out = p[0]
        for m, k in p[1].items():
            for s in m:
                x = self._value(s, env)
                if x is None:
                    return None
                k = k * x
            out += k
        return out

    def witness(self, f, st: St, tries: int = 6000) -> Optional[Dict[str, str]]:
        """sizes that satisfy every fact of the state and make f negative"""
        if poly(f) is None:
            return None
        fs = self.facts(st)
        roots = list(self.samples)
        n = 0
        for vals in itertools.product(*(self.samples[r] for r in roots)):
            n += 1
            if n > tries:
                return None
            env = {r: Fraction(x).limit_denominator(1000) for r, x in zip(roots, vals)}
            ok = True
            for g in fs:
                x = self.evaluate(g[1] if g[0] == "gt" else g, env)
                if x is None or x < 0 or x == 0 and g[0] == "gt":
                    ok = False
                    break
            if not ok:
                continue
            x = self.evaluate(f, env)
            if x is None:
                return None
            if x < 0:
                return {r: str(float(v) if v.denominator != 1 else int(v)) for r, v in env.items() if r in roots}
        return None

    @staticmethod
    def binop_lin_mul(a, b, d: int = 1):
        return LinInterp.scale(pmul(a, b), Fraction(1, d))

    def decide(self, f, st: St) -> Tuple[str, Optional[Dict[str, str]]]:
        """'holds' | 'fails' (with sizes) | 'open' for f >= 0 in the state"""
        if f is None or poly(f) is None:
            return "open", None
        if self.nonneg(f, st):
            return "holds", None
        w = self.witness(f, st) if not self.blind(st) else None
        return ("fails", w) if w is not None else ("open", None)

    # ------------------------------------------------- hooks into the interpreter
    def compare_vals(self, a, op, b, s2: St, l, r, fr: Frame):
        if poly(a) is not None and poly(b) is not None and (a[0] == "lin" or b[0] == "lin"):
            if isinstance(op, (ast.Lt, ast.LtE)):
                return self.branch(a, b, s2, isinstance(op, ast.Lt))
            if isinstance(op, (ast.Gt, ast.GtE)):
                return self.branch(b, a, s2, isinstance(op, ast.Gt))
            if isinstance(op, (ast.Eq, ast.NotEq)):
                pos = isinstance(op, ast.Eq)
                t = self.same(a, b, s2)
                if t is not None:
                    return [(t if pos else not t, s2)]
                d = padd(a, b, -1)
                out = []
                s = self.assume(s2, d)
                s = self.assume(s, self.scale(d, Fraction(-1))) if s is not None else None
                if s is not None:
                    out.append((pos, s))
                for x in (d, self.scale(d, Fraction(-1))):
                    s = self.assume(s2, x, True)
                    if s is not None:
                        out.append((not pos, s))
                return out
            if isinstance(op, (ast.Is, ast.IsNot)):
                return [(isinstance(op, ast.IsNot), s2)]
        if a[0] in ("seq", "lin", "date", "delta", "mask") and b == NONE or b[0] in ("seq", "lin", "date", "delta", "mask") and a == NONE:
            if isinstance(op, (ast.Is, ast.Eq)):
                return [(False, s2)]
            if isinstance(op, (ast.IsNot, ast.NotEq)):
                return [(True, s2)]
        if a[0] == "delta" and b[0] == "delta" and poly(a[1]) is not None and poly(b[1]) is not None:
            return self.compare_vals(a[1], op, b[1], s2, l, r, fr)
        if a[0] == "date" and b[0] == "date" and isinstance(op, (ast.Lt, ast.LtE, ast.Gt, ast.GtE, ast.Eq, ast.NotEq)):
            return self.compare_vals(a[1] if a[1][0] == "lin" else a[1], op, b[1], s2, l, r, fr)
        return super().compare_vals(a, op, b, s2, l, r, fr)

    def truth(self, v, st: St) -> Optional[bool]:
        if v[0] == "lin":
            t = self.same(v, const(0), st)
            return None if t is None else not t
        if v[0] == "seq":
            return None
        if v[0] in ("date", "delta"):
            return True
        return super().truth(v, st)

    def cond(self, e: ast.AST, st: St, fr: Frame):
        """outcomes of a condition; a state is marked when the outcome could be either and left no fact behind"""
        out = self.cond1(e, st, fr)
        if isinstance(e, (ast.BoolOp, ast.UnaryOp)) or len({t for t, _ in out}) < 2:
            return out
        fs = self.facts(st)
        return [(t, self.mark(s) if self.facts(s) == fs else s) for t, s in out]

    @staticmethod
    def mark(st: St) -> St:
        if BLIND in st.heap:
            return st
        st = st.copy()
        st.heap[BLIND] = HObj("#blind", {}, (), False)
        return st

    @staticmethod
    def blind(st: St) -> bool:
        return BLIND in st.heap

    def cond1(self, e: ast.AST, st: St, fr: Frame):
        if isinstance(e, (ast.Name, ast.Attribute, ast.BinOp, ast.Call, ast.Subscript)) and not (
                isinstance(e, ast.Call) and isinstance(e.func, ast.Name) and e.func.id in ("isinstance", "any", "all", "bool")):
            out = []
            rest = []
            for v, s in self.ev(e, st, fr):
                if v[0] == "lin":
                    out.extend(self.compare_vals(v, ast.NotEq(), const(0), s, e, e, fr))
                else:
                    rest.append((v, s))
            if out:
                for v, s in rest:
                    t = self.truth(v, s)
                    out.extend([(t, s)] if t is not None else [(True, s), (False, s)])
                return out
        return super().cond(e, st, fr)

    def join(self, a: St, b: St) -> St:
        fa, fb = self.facts(a), self.facts(b)
        a2, b2 = a.copy(), b.copy()
        isblind = BLIND in a2.heap or BLIND in b2.heap
        for h in (a2.heap, b2.heap):
            h.pop(FACTS, None)
            h.pop(BLIND, None)
        s = super().join(a2, b2)
        keep = tuple(f for f in fa if f in fb or self.implied(f, fb))
        keep += tuple(f for f in fb if f not in keep and self.implied(f, fa))
        if keep:
            s.heap[FACTS] = HObj("#facts", {}, keep, False)
        lost = any(f not in keep and not self.implied(f, keep) for f in fa + fb)
        return self.mark(s) if isblind or lost else s

    def type_test(self, v, t, st: St) -> Optional[bool]:
        if v[0] in ("seq", "lin", "date", "delta"):
            name = t[1] if t[0] in ("cls", "ext") else None
            if name is None:
                return None
            last = name.split(".")[-1]
            if v[0] == "seq":
                kinds = {"ts": ("TimeSeriesData",), "time": ("Series", "DatetimeIndex"), "val": ("Series",), "arr": ("ndarray",),
                         "list": ("list",), "range": ("range",)}
                return last in kinds.get(v[1], ())
            if v[0] == "lin":
                return last in (("int", "Number", "Integral") if self.is_int(v) else ("float", "Number"))
            if v[0] == "date":
                return last in ("Timestamp", "datetime")
            return last in ("Timedelta", "timedelta")
        return super().type_test(v, t, st)

    def joinv(self, a, b, sa: St, sb: St):
        if a[0] in ("lin", "seq", "date") or b[0] in ("lin", "seq", "date"):
            return a if a == b else (TOP if NONE in (a, b) or TOP in (a, b) else NN)
        return super().joinv(a, b, sa, sb)

    # -------------------------------------------------------- comprehensions
    def comp(self, e, st: St, fr: Frame):
        """every state of the elements is followed, not only a single one"""
        if isinstance(e, ast.SetComp):
            return super().comp(e, st, fr)
        saved = dict(st.env)
        isdict = isinstance(e, ast.DictComp)

        class Unknown(Exception):
            pass

        def rec(gi: int, s: St) -> List[Tuple[Tuple, St]]:
            if gi == len(e.generators):
                if isdict:
                    return [(((k, v),), s2) for (k, v), s2 in self.evs([e.key, e.value], s, fr)]
                return [((v,), s2) for v, s2 in self.ev(e.elt, s, fr)]
            g = e.generators[gi]
            out: List[Tuple[Tuple, St]] = []
            for it, s1 in self.ev(g.iter, s, fr):
                els = self.elements(it, s1)
                if els is None:
                    raise Unknown
                cur: List[Tuple[Tuple, St]] = [((), s1)]
                for x in els:
                    nxt = []
                    for acc, s2 in cur:
                        for s3 in self.assign(g.target, x, s2, fr):
                            oks = [(True, s3)]
                            for c in g.ifs:
                                oks = [r for t, s4 in oks for r in (self.cond(c, s4, fr) if t else [(False, s4)])]
                            for t, s4 in oks:
                                nxt += [(acc + r, s5) for r, s5 in rec(gi + 1, s4)] if t else [(acc, s4)]
                    cur = nxt
                    if len(cur) > 4 * self.cap:
                        raise Unknown
                out += cur
            return out
        n = len(self.excs[-1])
        try:
            rs = rec(0, st)
        except Unknown:
            del self.excs[-1][n:]
            return super().comp(e, st, fr)
        out = []
        for els, s in rs:
            s = s.copy()
            s.env = dict(saved)
            if isdict:
                d: List = []
                for k, v in els:
                    d = [(a, b) for a, b in d if a != k] + [(k, v)]
                els = tuple(d)
            out.append(self.alloc(s, "dict" if isdict else "list", None, tuple(els)))
        return out

    # ---------------------------------------------------------- arithmetic
    def binop(self, e: ast.BinOp, a, b, st: St, fr: Frame):
        op = e.op
        if a[0] in ("c", "lin") and b[0] in ("c", "lin") and (a[0] == "lin" or b[0] == "lin") and poly(a) is not None and poly(b) is not None:
            if isinstance(op, ast.Add):
                return padd(a, b), st
            if isinstance(op, ast.Sub):
                return padd(a, b, -1), st
            if isinstance(op, ast.Mult):
                return pmul(a, b), st
            if isinstance(op, ast.Div) and b[0] == "c" and b[2]:
                return self.scale(a, 1 / Fraction(b[2]).limit_denominator(10 ** 9)), st
            if isinstance(op, (ast.FloorDiv, ast.Mod, ast.Div)):
                pos = self.nonneg(a, st) and self.nonneg(b, st)
                n = {"FloorDiv": "quot", "Mod": "rem", "Div": "ratio"}[type(op).__name__]
                v = self.opaque((n, a, b), n, 0 if pos else -INF, not isinstance(op, ast.Div) and self.is_int(a) and self.is_int(b))
                if isinstance(op, ast.Mod) and self.nonneg(padd(b, const(1), -1), st):
                    st = self.assume(st, padd(padd(b, v, -1), const(1), -1)) or st
                if isinstance(op, ast.FloorDiv) and pos:
                    # q * b <= a < (q + 1) * b
                    st = self.assume(st, padd(a, pmul(v, b), -1)) or st
                    st = self.assume(st, padd(padd(pmul(padd(v, const(1)), b), a, -1), const(1), -1)) or st
                if isinstance(op, ast.Mod) and pos:
                    q = self.opaque(("quot", a, b), "quot", 0, True)
                    d = padd(padd(a, pmul(q, b), -1), v, -1)
                    st = self.assume(st, d) or st
                    st = self.assume(st, self.scale(d, Fraction(-1))) or st
                return v, st
        if a[0] == "seq" or b[0] == "seq":
            if a[0] == "seq" and b[0] == "seq" and a[1] in ("val", "arr") and b[1] in ("val", "arr") and isinstance(op, ast.Sub):
                self.events.append(("difference", a, b, st, fr.f.where(e) if fr.f is not None else "?"))
            r = self.seq_binop(op, a, b, st)
            if r is not None:
                return r, st
            return TOP, st
        for x, y in ((a, b), (b, a)):
            if x[0] == "date" and y[0] == "delta" and isinstance(op, (ast.Add, ast.Sub)) and (x is a or isinstance(op, ast.Add)):
                p = padd(x[1], y[1], 1 if isinstance(op, ast.Add) else -1)
                return (("date", p) if p is not None else TOP), st
        if a[0] == "date" and b[0] == "date" and isinstance(op, ast.Sub):
            return ("delta", padd(a[1], b[1], -1)), st
        for x, y in ((a, b), (b, a)):
            if x[0] == "delta" and poly(y) is not None and isinstance(op, ast.Mult):
                return ("delta", pmul(x[1], y)), st
        if a[0] == "delta" and b[0] == "delta" and isinstance(op, (ast.Add, ast.Sub)):
            return ("delta", padd(a[1], b[1], 1 if isinstance(op, ast.Add) else -1)), st
        if a[0] == "delta" and b[0] == "delta" and isinstance(op, (ast.Div, ast.FloorDiv)) and b[1] == const(1):
            return a[1], st
        if any(v[0] in ("date", "delta") for v in (a, b)):
            return TOP, st
        if any(v[0] == "lin" for v in (a, b)):
            return TOP, st
        return super().binop(e, a, b, st, fr)

    def seq_binop(self, op, a, b, st: St):
        for x, y in ((a, b), (b, a)):
            if x[0] == "seq" and x[1] == "time" and y[0] == "delta" and isinstance(op, (ast.Add, ast.Sub)):
                k = 1 if isinstance(op, ast.Add) else -1
                return ("seq", "time", tuple((ax, padd(lo, y[1], k), padd(hi, y[1], k)) for ax, lo, hi in x[2]))
        if a[0] == "seq" and a[1] == "list" and b[0] == "seq" and isinstance(op, ast.Add):
            return ("seq", "list", a[2] + b[2])
        if isinstance(op, (ast.Add, ast.Sub, ast.Mult, ast.Div, ast.Pow)):
            # elementwise on values: positions of the first series operand
            x = a if a[0] == "seq" else b
            y = b if x is a else a
            if x[1] in ("val", "arr") and (y[0] != "seq" or self.samelen(x, y, st)):
                return x
        return None

    def ev(self, e, st: St, fr: Frame):
        if isinstance(e, ast.Compare) and len(e.ops) == 1 and not isinstance(e.ops[0], (ast.Is, ast.IsNot, ast.In, ast.NotIn)):
            rs = self.evs([e.left, e.comparators[0]], st, fr)
            if any(v[0] == "seq" for (x, y), s in rs for v in (x, y)):
                out = []
                for (x, y), s in rs:
                    if x[0] == "seq" and y[0] == "date" and x[1] == "time":
                        out.append((("mask", x, type(e.ops[0]).__name__, y), s))
                    else:
                        out.append((TOP, s))
                return out
        if isinstance(e, ast.Attribute) and isinstance(e.value, ast.Compare):
            rs = self.ev(e.value, st, fr)
            if rs and all(v[0] == "mask" for v, _ in rs):
                return [r for v, s in rs for r in self.attr(v, e.attr, s, e, fr)]
            return super().ev(e, st, fr)
        if isinstance(e, ast.UnaryOp) and isinstance(e.op, ast.Invert):
            return [(v if v == ("nanmask",) else TOP, s) for v, s in self.ev(e.operand, st, fr)]
        if isinstance(e, ast.UnaryOp) and isinstance(e.op, ast.USub):
            return [((self.scale(v, Fraction(-1)) if v[0] == "lin" else v if v[0] == "seq" and v[1] in ("val", "arr") else TOP), s)
                    if v[0] in ("lin", "seq") else r
                    for v, s in self.ev(e.operand, st, fr)
                    for r in ([(None, s)] if v[0] in ("lin", "seq") else self._neg(v, s))]
        return super().ev(e, st, fr)

    def _neg(self, v, s):
        from .absint import num
        if is_const(v) and isinstance(v[2], (int, float)):
            return [(const(-v[2]), s)]
        if v[0] == "num":
            return [(num(-v[2], -v[1], v[4], v[3], v[5]), s)]
        return [(TOP, s)]

    # ----------------------------------------------------------- stretches
    def seqlen(self, v):
        n = const(0)
        for _, lo, hi in v[2]:
            n = padd(n, padd(hi, lo, -1)) if n is not None else None
        return n

    def samelen(self, a, b, st: St) -> bool:
        x, y = self.seqlen(a), self.seqlen(b)
        return x is not None and y is not None and self.same(x, y, st) is True

    def clamp(self, x, n, st: St) -> List[Tuple[Any, St]]:
        """python slice bound x on a sequence of n elements"""
        if poly(x) is None:
            return [(None, st)]
        out = []
        for neg, s in self.branch(x, const(0), st, True):
            if neg:
                y = padd(n, x)
                for under, s2 in self.branch(y, const(0), s, True):
                    out.append((const(0) if under else y, s2))
            else:
                for inside, s2 in self.branch(x, n, s, False):
                    out.append((x if inside else n, s2))
        return out

    def slice_seq(self, v, lo, hi, st: St) -> List[Tuple[Any, St]]:
        n = self.seqlen(v)
        if n is None:
            return [(TOP, st)]
        out = []
        for a, s in (self.clamp(lo, n, st) if lo != NONE else [(const(0), st)]):
            for b, s2 in (self.clamp(hi, n, s) if hi != NONE else [(n, s)]):
                if a is None or b is None:
                    out.append((("seq", v[1], (("?", const(0), self.opaque(("len", v, lo, hi), "len", 0)),)), s2))
                    continue
                for empty, s3 in self.branch(b, a, s2, False):
                    if empty:
                        out.append((("seq", v[1], ()), s3))
                    else:
                        out.extend(self.cut(v, a, b, s3))
        return out

    def cut(self, v, a, b, st: St) -> List[Tuple[Any, St]]:
        """elements a..b of the concatenated stretches"""
        states = [((), const(0), st)]
        for ax, lo, hi in v[2]:
            nxt = []
            ln = padd(hi, lo, -1)
            for segs, off, s in states:
                # this stretch covers [off, off + ln)
                end = padd(off, ln)
                for before, s1 in self.branch(a, off, s, False):
                    starts = [(lo, s1)] if before else []
                    if not before:
                        for past, s2 in self.branch(end, a, s1, False):
                            starts.append((None if past else padd(lo, padd(a, off, -1)), s2))
                    for x, s2 in starts:
                        if x is None:
                            nxt.append((segs, end, s2))
                            continue
                        for whole, s3 in self.branch(end, b, s2, False):
                            if whole:
                                nxt.append((segs + ((ax, x, hi),), end, s3))
                                continue
                            for none, s4 in self.branch(b, off, s3, False):
                                nxt.append((segs if none else segs + ((ax, x, padd(lo, padd(b, off, -1))),), end, s4))
            states = nxt
        return [(("seq", v[1], self.merge(segs, s)), s) for segs, _, s in states]

    def merge(self, segs, st: St):
        out: List[Tuple] = []
        for ax, lo, hi in segs:
            if self.same(lo, hi, st) is True:
                continue
            if out and out[-1][0] == ax and self.same(out[-1][2], lo, st) is True:
                out[-1] = (ax, out[-1][1], hi)
            else:
                out.append((ax, lo, hi))
        return tuple(out)

    def item(self, v, i, st: St) -> List[Tuple[Any, St]]:
        if poly(i) is None or v[1] != "time":
            return [(TOP, st)]
        n = self.seqlen(v)
        j = i
        if self.le(i, const(0), st, True) is True:
            j = padd(n, i)
        off = const(0)
        for ax, lo, hi in v[2]:
            end = padd(off, padd(hi, lo, -1))
            if self.le(off, j, st) and self.le(j, end, st, True):
                return [(("date", padd(lo, padd(j, off, -1))), st)]
            off = end
        return [(TOP, st)]

    def mask(self, v, m, st: St) -> List[Tuple[Any, St]]:
        _, x, op, d = m
        if len(x[2]) != 1 or not self.samelen(v, x, st):
            return [(TOP, st)]
        ax, lo, hi = x[2][0]
        p = d[1]
        k = padd(p, lo, -1)          # index of the date
        n = padd(hi, lo, -1)
        if op == "NotEq":
            if self.same(p, lo, st) is True:
                return self.slice_seq(v, const(1), NONE, st)
            if self.same(padd(p, const(1)), hi, st) is True:
                return self.slice_seq(v, const(0), k, st)
            if self.le(p, lo, st, True) is True or self.le(hi, p, st) is True:
                return [(v, st)]
            return [(TOP, st)]
        if op not in ("Gt", "GtE", "Lt", "LtE"):
            return [(TOP, st)]
        if self.le(const(0), k, st) is not True:
            out = []
            for before, s in self.branch(k, const(0), st, True):
                if before:              # the date lies before the first time
                    out += [(v, s)] if op[0] == "G" else self.slice_seq(v, const(0), const(0), s)
                else:
                    out += self.mask(v, m, s)
            return out
        return {"Gt": lambda: self.slice_seq(v, padd(k, const(1)), NONE, st),
                "GtE": lambda: self.slice_seq(v, k, NONE, st),
                "Lt": lambda: self.slice_seq(v, const(0), k, st),
                "LtE": lambda: self.slice_seq(v, const(0), padd(k, const(1)), st)}.get(op, lambda: [(TOP, st)])()

    # --------------------------------------------------------------- frames
    def frame(self, st: St, cols: Optional[Dict[str, Any]], index=NN):
        at = {"#cols": tuple(cols.items()) if cols is not None else None, "#index": index}
        return self.alloc(st, "ext:pandas.DataFrame", at, None, True)

    def cols(self, v, st: St) -> Optional[Dict[str, Any]]:
        h = self.h(v, st)
        if h is None or h.cls != "ext:pandas.DataFrame" or h.attrs.get("#cols") is None:
            return None
        return dict(h.attrs["#cols"])

    def setcols(self, v, cols, st: St) -> St:
        return self.own(v, st).setattr(v[1], "#cols", tuple(cols.items()) if cols is not None else None)

    def frame_seq(self, v, st: St):
        """a column (or index) whose stretch is known"""
        h = self.h(v, st)
        if h is None:
            return None
        for c in list((self.cols(v, st) or {}).values()) + [h.attrs.get("#index", NN)]:
            if c[0] == "seq":
                return c
        return None

    def map_frame(self, v, st: St, f) -> List[Tuple[Any, St]]:
        """apply a one-result stretch transformation to every column"""
        h = self.h(v, st)
        cols = self.cols(v, st)
        if cols is None:
            return [self.frame(st, None)]
        states = [({}, st)]
        for n, c in list(cols.items()) + [("#index", h.attrs.get("#index", NN))]:
            nxt = []
            for acc, s in states:
                for w, s2 in (f(c, s) if c[0] == "seq" else [(TOP if c[0] != "c" else c, s)]):
                    nxt.append(({**acc, n: w}, s2))
            states = nxt
        out = []
        for acc, s in states:
            ix = acc.pop("#index")
            out.append(self.frame(s, acc, ix))
        return out

    def attr(self, b, name: str, st: St, node, fr: Frame):
        if b[0] == "seq":
            if b[1] == "ts":
                if name == "time":
                    return [(("seq", "time", b[2]), st)]
                if name == "value":
                    return [(("seq", "val", b[2]), st)]
                if name in ("time_col_name",):
                    return [(const("time"), st)]
                return [(("extb", b, name), st)]
            if name in ("values", "array", "T", "date", "normalized"):
                return [(b, st)]
            if name in ("size",):
                return [(self.seqlen(b) or TOP, st)]
            if name == "shape":
                return [self.alloc(st, "tuple", None, (self.seqlen(b) or TOP,))]
            if name in ("iloc", "loc", "iat", "at"):
                return [(b, st)]
            if name in ("index", "freq", "dtype", "name", "dt", "str"):
                return [(TOP, st)]
            return [(("extb", b, name), st)]
        if b[0] == "date":
            return [(("extb", b, name), st)]
        if b[0] == "frameloc":
            return [(TOP, st)]
        if b[0] in ("lin", "mask", "delta"):
            return [(("extb", b, name), st)]
        h = self.h(b, st)
        if h is not None and h.cls == "ext:pandas.DataFrame":
            cols = self.cols(b, st)
            if cols is not None and name in cols:
                return [(cols[name], st)]
            if name in ("iloc", "loc"):
                return [(("frameloc", b, name), st)]
            if name == "index":
                return [(h.attrs.get("#index", TOP), st)]
            if name == "shape":
                q = self.frame_seq(b, st)
                return [self.alloc(st, "tuple", None, (self.seqlen(q) if q is not None else TOP, TOP))]
            if name in ("values", "T", "columns", "empty", "dtypes", "size"):
                return [(TOP, st)]
            return [(("extb", b, name), st)]
        if h is not None and h.cls == "ext:model":
            return [(("extb", b, name), st)]
        return super().attr(b, name, st, node, fr)

    def setattr_(self, b, name: str, v, st: St, node, fr: Frame):
        h = self.h(b, st)
        if h is not None and h.cls == "ext:pandas.DataFrame":
            if name == "index":
                return [self.own(b, st).setattr(b[1], "#index", v)]
            cols = self.cols(b, st)
            if name == "columns" or cols is None:
                return [self.setcols(b, None, st)]
            if name in cols:
                cols[name] = v
                return [self.setcols(b, cols, st)]
            return [st]
        return super().setattr_(b, name, v, st, node, fr)

    def assign(self, t, v, st: St, fr: Frame):
        if isinstance(t, ast.Subscript):
            rs = self.ev(t.value, st, fr)
            if any((self.h(b, s) is not None and self.h(b, s).cls == "ext:pandas.DataFrame") or b[0] in ("frameloc", "seq") for b, s in rs):
                out = []
                for b, s in rs:
                    for i, s2 in self.ev_index(t.slice, s, fr):
                        cols = self.cols(b, s2) if b[0] == "obj" else None
                        if cols is not None and is_const(i) and isinstance(i[2], str):
                            for c in cols.values():
                                if c[0] == "seq" and v[0] == "seq" and c[1] == "val" and v[1] in ("val", "arr", "list"):
                                    self.events.append(("column", c, v, s2, fr.f.where(t) if fr.f is not None else "?"))
                                    break
                            cols[i[2]] = v
                            out.append(self.setcols(b, cols, s2))
                        else:
                            out.append(s2)
                return out
        return super().assign(t, v, st, fr)

    def subscript(self, e: ast.Subscript, st: St, fr: Frame):
        rs = self.ev(e.value, st, fr)

        def special(b, s):
            h = self.h(b, s)
            return b[0] in ("seq", "frameloc") or (h is not None and h.cls == "ext:pandas.DataFrame")
        if not any(special(b, s) for b, s in rs):
            return super().subscript(e, st, fr)
        out = []
        for b, s in rs:
            for i, s2 in self.ev_index(e.slice, s, fr):
                h = self.h(b, s2)
                if b[0] == "seq":
                    out.extend(self.sub_seq(b, i, s2))
                elif b[0] == "frameloc":
                    if i[0] == "slice" and b[2] == "iloc" and i[3] == NONE:
                        out.extend(self.map_frame(b[1], s2, lambda c, q: self.slice_seq(c, i[1], i[2], q)))
                    elif i[0] == "mask":
                        out.extend(self.map_frame(b[1], s2, lambda c, q: self.mask(c, i, q)))
                    else:
                        out.append((TOP, s2))
                elif h is not None and h.cls == "ext:pandas.DataFrame":
                    cols = self.cols(b, s2)
                    els = self.elements(i, s2) if i[0] == "obj" else None
                    if cols is not None and is_const(i) and i[2] in cols:
                        out.append((cols[i[2]], s2))
                    elif cols is not None and els is not None and all(is_const(x) and x[2] in cols for x in els):
                        out.append(self.frame(s2, {x[2]: cols[x[2]] for x in els}, h.attrs.get("#index", NN)))
                    elif i[0] == "mask":
                        out.extend(self.map_frame(b, s2, lambda c, q: self.mask(c, i, q)))
                    elif i[0] == "slice" and i[3] == NONE:
                        out.extend(self.map_frame(b, s2, lambda c, q: self.slice_seq(c, i[1], i[2], q)))
                    else:
                        out.append((TOP, s2))
                else:
                    out.append((TOP, s2))
        return out

    def sub_seq(self, b, i, st: St):
        if i[0] == "slice":
            if i[3] != NONE:
                return [(TOP, st)]
            return self.slice_seq(b, i[1], i[2], st)
        if i[0] == "mask":
            return self.mask(b, i, st)
        if i[0] == "nanmask":
            return [(b, st)]            # missing values are left out, the stretch stays
        return self.item(b, i, st)

    # ---------------------------------------------------------------- calls
    def count_mask(self, m, st: St):
        """how many positions a date condition selects"""
        return [(self.seqlen(v) if v[0] == "seq" and self.seqlen(v) is not None else TOP, s) for v, s in self.mask(m[1], m, st)]

    def ext_method(self, b, name: str, args, kw, st: St, fr: Frame, node):
        if b[0] == "mask":
            if name == "sum":
                return self.count_mask(b, st)
            return [(b if name in ("to_numpy", "copy") else TOP, st)]
        if b[0] == "seq":
            if name in ("copy", "to_list", "tolist", "to_numpy", "astype", "reset_index", "flatten", "ravel", "squeeze", "to_pydatetime",
                        "ffill", "fillna", "sort_values", "to_series", "round", "abs", "to_frame", "rename", "tz_localize"):
                if name == "to_frame":
                    return [(TOP, st)]
                k = b[1]
                if name in ("to_list", "tolist"):
                    k = "list" if k not in ("time",) else "time"
                return [(("seq", k, b[2]), st)]
            if b[1] == "time" and b[2]:
                if name == "max":
                    return [(("date", padd(b[2][-1][2], const(1), -1)), st)]
                if name == "min":
                    return [(("date", b[2][0][1]), st)]
            if name in ("shift", "union", "append") and b[1] == "time" and name != "shift" and args and args[0][0] == "seq":
                return [(("seq", b[1], self.merge(b[2] + args[0][2], st)), st)]
            if b[1] == "ts":
                if name == "is_univariate":
                    return [(TRUE, st)]
                if name in ("is_empty",):
                    return [(FALSE, st)]
                if name == "to_dataframe":
                    return [self.frame(st, {"time": ("seq", "time", b[2]), "y": ("seq", "val", b[2])})]
                if name in ("infer_freq_robust", "_infer_freq"):
                    return [(("delta", const(1)), st)]
                if name == "extend":
                    return [(NONE, st)]
                if name == "tz":
                    return [(NONE, st)]
            self.maybe(st, node, fr)
            return [(TOP, st)]
        if b[0] == "date":
            if name in ("to_pydatetime", "tz_localize", "normalize", "to_datetime64"):
                return [(b, st)]
            return [(TOP, st)]
        if b[0] in ("lin",):
            return [(b if name in ("astype", "item") else TOP, st)]
        if b[0] == "delta":
            return [(TOP, st)]
        h = self.h(b, st)
        if name in self.method_stubs:
            return self.method_stubs[name](self, b, args, kw, st, fr, node)
        if h is not None and h.cls == "ext:gmodel":
            return self.gmodel_call(h, name, args, kw, st, fr, node)
        if h is not None and h.cls == "ext:model":
            return self.model_call(b, h, name, args, kw, st, fr, node)
        if h is not None and h.cls == "ext:pool":
            if name == "Pool":
                return [(b, st)]
            if name == "apply_async" and args:
                a = kw.get("args", args[1] if len(args) > 1 else NONE)
                els = self.elements(a, st) or []
                kd = kw.get("kwds", NONE)
                hk = self.h(kd, st)
                kws = {k[2]: v for k, v in hk.elts} if hk is not None and hk.elts is not None else {}
                return [self.alloc(s, "ext:future", {"#r": v}, None, True) for v, s in self.apply(args[0], list(els), kws, st, fr, node)]
            if name in ("map", "starmap", "imap") and len(args) >= 2:
                els = self.elements(args[1], st)
                if els is not None:
                    states = [((), st)]
                    for x in els:
                        nxt = []
                        for acc, s in states:
                            xs = [x] if name != "starmap" else (self.elements(x, s) or [TOP])
                            nxt += [(acc + (v,), s2) for v, s2 in self.apply(args[0], list(xs), {}, s, fr, node)]
                        states = nxt
                    return [self.alloc(s, "list", None, acc) for acc, s in states]
                return [self.alloc(st, "list", None, None)]
            if name == "__enter__":
                return [(b, st)]
            return [(NONE, st)]
        if h is not None and h.cls == "ext:future":
            return [(h.attrs["#r"], st)] if name == "get" else [(NONE, st)]
        if h is not None and h.cls == "ext:pandas.DataFrame":
            return self.frame_call(b, h, name, args, kw, st, fr, node)
        return super().ext_method(b, name, args, kw, st, fr, node)

    def frame_call(self, b, h, name, args, kw, st: St, fr: Frame, node):
        cols = self.cols(b, st)
        inplace = kw.get("inplace") == TRUE

        def done(v, s):
            if inplace:
                s = s.copy()
                s.heap[b[1]] = s.heap[v[1]]
                return [(NONE, s)]
            return [(v, s)]
        if name in ("copy", "sort_values", "fillna", "dropna", "astype", "round", "sort_index", "ffill", "interpolate", "drop_duplicates"):
            if name in ("dropna", "drop_duplicates", "sort_values"):
                pass
            return done(*self.frame(st, cols, h.attrs.get("#index", NN)))
        if name == "set_index" and args and is_const(args[0]) and cols is not None and args[0][2] in cols:
            ix = cols.pop(args[0][2])
            return done(*self.frame(st, {**cols, "#ixname": args[0]}, ix))
        if name == "reset_index":
            if cols is None:
                return done(*self.frame(st, None))
            nm = cols.pop("#ixname", const("index"))
            drop = kw.get("drop") == TRUE
            ix = h.attrs.get("#index", NN)
            if not drop and is_const(nm) and (nm != const("index") or ix[0] == "seq"):
                cols = {nm[2]: ix, **cols}
            return done(*self.frame(st, cols))
        if name == "rename":
            m = kw.get("columns", NONE)
            hm = self.h(m, st)
            if cols is not None and hm is not None and hm.cls == "dict" and hm.elts is not None and all(is_const(k) and is_const(v) for k, v in hm.elts):
                mp = {k[2]: v[2] for k, v in hm.elts}
                return done(*self.frame(st, {mp.get(k, k): v for k, v in cols.items()}, h.attrs.get("#index", NN)))
            return done(*self.frame(st, None))
        if name == "drop" and cols is not None:
            w = kw.get("columns", args[0] if args else NONE)
            els = self.elements(w, st) if w[0] == "obj" else [w]
            if els is not None and all(is_const(x) for x in els) and "index" not in kw:
                return done(*self.frame(st, {k: v for k, v in cols.items() if k not in {x[2] for x in els}}, h.attrs.get("#index", NN)))
        if name == "assign" and cols is not None:
            return [self.frame(st, {**cols, **kw}, h.attrs.get("#index", NN))]
        if name in ("head", "tail"):
            n = args[0] if args else const(5)
            if name == "head":
                return self.map_frame(b, st, lambda c, s: self.slice_seq(c, const(0), n, s))
            neg = padd(const(0), n, -1)
            if neg is not None:
                return self.map_frame(b, st, lambda c, s: self.slice_seq(c, neg, NONE, s))
        if name == "append" and args:
            return self.concat([b, args[0]], st)
        self.maybe(st, node, fr)
        if name in ("groupby", "rolling", "resample", "iterrows", "items", "to_dict"):
            return [(TOP, st)]
        return [(TOP, st)]

    def concat(self, parts: List[Any], st: St):
        frames = [self.cols(p, st) for p in parts]
        if any(f is None for f in frames):
            return [self.frame(st, None)]
        names = [n for n in frames[0] if all(n in f for f in frames)]
        out = {}
        for n in names:
            cs = [f[n] for f in frames]
            out[n] = ("seq", cs[0][1], self.merge(sum((c[2] for c in cs), ()), st)) if all(c[0] == "seq" for c in cs) else TOP
        ixs = [self.h(p, st).attrs.get("#index", NN) for p in parts]
        ix = ("seq", ixs[0][1], self.merge(sum((c[2] for c in ixs), ()), st)) if all(c[0] == "seq" for c in ixs) else NN
        return [self.frame(st, out, ix)]

    def model_call(self, b, h, name, args, kw, st: St, fr: Frame, node):
        """a forecasting model: predict(steps) covers the `steps` periods after its training data"""
        if name == "predict":
            steps = kw.get("steps", args[0] if args else NONE)
            tr = h.attrs["#train"]
            hist = kw.get("include_history", FALSE)
            if poly(steps) is None or tr[0] != "seq" or len(tr[2]) != 1 or hist not in (TRUE, FALSE):
                return [self.frame(st, None)]
            ax, lo, hi = tr[2][0]
            seg = ((ax, lo if hist == TRUE else hi, padd(hi, steps)),)
            v = ("seq", "val", seg)
            return [self.frame(st, {"time": ("seq", "time", seg), "fcst": v, "fcst_lower": v, "fcst_upper": v})]
        if name == "fit":
            return [(b, st)]
        return [(TOP, st)]

    def gmodel_call(self, h, name, args, kw, st: St, fr: Frame, node):
        """a global model: predict(series, steps) covers the `steps` periods after each series"""
        a = args[0] if args else kw.get("test_TSs", NONE)
        steps = kw.get("steps", args[1] if len(args) > 1 else NONE)
        els = self.elements(a, st)
        if name != "predict" or els is None or poly(steps) is None or any(x[0] != "seq" or len(x[2]) != 1 for x in els):
            return [(TOP, st)]
        out = []
        for i, x in enumerate(els):
            ax, _, hi = x[2][0]
            seg = ((ax, hi, padd(hi, steps)),)
            v = ("seq", "val", seg)
            f, st = self.frame(st, {"time": ("seq", "time", seg), "fcst_quantile_0.5": v})
            out.append((const(i), f))
        return [self.alloc(st, "dict", None, tuple(out))]

    def model_stub(self, args, kw, st: St, fr: Frame, node):
        """a model needs at least three observations (no frequency can be inferred from fewer)"""
        tr = kw.get("data", args[0] if args else TOP)
        if tr[0] == "seq" and len(tr[2]) == 1:
            st = self.assume(st, padd(self.seqlen(tr), const(3), -1))
            if st is None:
                return []
        return [self.alloc(st, "ext:model", {"#train": tr}, None, True)]

    def apply(self, fv, args, kw, st: St, fr: Frame, node, star: bool = False):
        if fv[0] == "modelcls":
            return self.model_stub(args, kw, st, fr, node)
        if fv[0] == "lin":
            return [(TOP, st)]
        if fv[0] == "metric":
            a = kw.get("y_true", args[0] if args else NONE)
            b = kw.get("y_pred", args[1] if len(args) > 1 else NONE)
            if a[0] == "seq" and b[0] == "seq":
                self.events.append(("score", a, b, st, fr.f.where(node) if fr.f is not None and node is not None else "?"))
            return [(NN, st)]
        return super().apply(fv, args, kw, st, fr, node, star)

    def instantiate(self, qual: str, args, kw, st: St, fr: Frame, node, star: bool = False):
        if qual == TS and not star:
            return self.make_ts(args, kw, st, fr, node)
        return super().instantiate(qual, args, kw, st, fr, node, star)

    def make_ts(self, args, kw, st: St, fr: Frame, node):
        df = kw.get("df", args[0] if args else NONE)
        if df[0] == "seq":
            return [(("seq", "ts", df[2]), st)]
        if df == NONE:
            t, v = kw.get("time", NONE), kw.get("value", NONE)
            if t[0] == "seq":
                self.misaligned(t, v, st, fr, node)
                return [(("seq", "ts", t[2]), st)]
            return [(("seq", "ts", (("?", const(0), self.opaque(("ts", id(node)), "n", 0)),)), st)]
        cols = self.cols(df, st)
        h = self.h(df, st)
        if cols is not None:
            tn = kw.get("time_col_name", const("time"))
            t = cols.get(tn[2]) if is_const(tn) else None
            if t is not None and t[0] == "seq":
                for n, c in cols.items():
                    if c[0] == "seq" and c is not t:
                        self.misaligned(t, c, st, fr, node)
                return [(("seq", "ts", t[2]), st)]
            vs = [c for c in cols.values() if c[0] == "seq"]
            if vs and t is None:
                return [(("seq", "ts", vs[0][2]), st)]
        return [(("seq", "ts", (("?", const(0), self.opaque(("ts", id(node)), "n", 0)),)), st)]

    def misaligned(self, t, v, st: St, fr: Frame, node) -> None:
        """hook: times and values that stand for different positions are put together"""
        return None

    def ext_call(self, d: str, args, kw, st: St, fr: Frame, node, star: bool = False):
        n = d.split(".")[-1]
        a = args[0] if args else None
        root = d.split(".")[0]
        if self.ext_stubs.get(d) is not None:
            return super().ext_call(d, args, kw, st, fr, node, star)
        if n == "Pool" or d.endswith(".Pool") or d == "multiprocessing.Manager":
            return [self.alloc(st, "ext:pool", None, None, True)]
        if n in ("cpu_count",):
            v = self.opaque(("cpus",), "cpus", 1)
            self.samples.setdefault(self.interned[("cpus",)], [4])
            return [(v, st)]
        if d in ("copy.copy", "copy.deepcopy") and a is not None and a[0] in ("seq", "lin", "date", "delta"):
            return [(a, st)]
        if root == "numpy":
            if n in ("floor", "ceil", "trunc", "rint", "round") and a is not None and a[0] == "lin":
                return self.rounded(n, a, st)
            if n in ("array", "asarray", "squeeze", "ravel", "copy", "log", "exp", "abs", "sqrt", "atleast_1d") and a is not None and a[0] == "seq":
                return [(("seq", "arr" if a[1] != "time" else "time", a[2]), st)]
            if n in ("minimum", "maximum") and len(args) == 2 and all(poly(x) is not None for x in args):
                return self.builtin(n[:3], args, kw, st, fr, node)
            if n == "isnan" and a is not None and a[0] == "seq":
                return [(("nanmask",), st)]
            if n == "searchsorted" and len(args) >= 2:
                side = kw.get("side", args[2] if len(args) > 2 else const("left"))
                r = self.searchsorted(a, args[1], side, st)
                if r is not None:
                    return r
            if n in ("min", "max", "amin", "amax") and a is not None and a[0] == "obj" and self.elements(a, st):
                return self.builtin(n[-3:], [a], kw, st, fr, node)
            if n == "array_split" and len(args) >= 2 and a[0] == "seq" and is_const(args[1]) and isinstance(args[1][2], int):
                k = args[1][2]
                if k <= 0:
                    self.throw("implicit", "ValueError", st, node, fr)
                    return []
                ln = self.seqlen(a)
                cuts = [const(0)]
                s = st
                for i in range(1, k):
                    c = self.opaque(("split", a, k, i), f"cut{i}of{k}_", 0)
                    s = self.assume(s, padd(c, cuts[-1], -1)) or s
                    s = self.assume(s, padd(ln, c, -1)) or s
                    cuts.append(c)
                cuts.append(ln)
                parts = []
                for i in range(k):
                    rs = self.slice_seq(a, cuts[i], cuts[i + 1], s)
                    ax, lo, _ = a[2][0] if a[2] else ("n", const(0), const(0))
                    parts.append(("seq", a[1], ((ax, padd(lo, cuts[i]), padd(lo, cuts[i + 1])),)))
                return [self.alloc(s, "list", None, tuple(parts))]
            if n == "linspace" and len(args) >= 2:
                k = kw.get("num", args[2] if len(args) > 2 else const(50))
                if is_const(k) and isinstance(k[2], int) and k[2] <= 8 and poly(a) is not None and poly(args[1]) is not None:
                    isint = "dtype" in kw
                    s = st
                    pts = [a]
                    for i in range(1, k[2] - 1):
                        c = self.opaque(("linspace", a, args[1], k, i), f"step{i}of{k[2]}_", 0 if self.nonneg(a, st) else -INF, isint)
                        if self.le(a, args[1], st):
                            s = self.assume(s, padd(c, pts[-1], -1)) or s
                            s = self.assume(s, padd(args[1], c, -1)) or s
                        pts.append(c)
                    if k[2] > 1:
                        pts.append(args[1])
                    return [self.alloc(s, "list", None, tuple(pts[:k[2]]))]
            if n == "arange" and args and all(poly(x) is not None for x in args) and len(args) <= 2 and any(x[0] == "lin" for x in args):
                lo, hi = (const(0), a) if len(args) == 1 else (a, args[1])
                return [(("seq", "range", (("n", lo, hi),)), st)]
            if n in ("concatenate", "hstack") and a is not None and a[0] == "obj":
                els = self.elements(a, st)
                if els is not None and all(x[0] == "seq" for x in els) and els:
                    return [(("seq", els[0][1], self.merge(sum((x[2] for x in els), ()), st)), st)]
                return [(TOP, st)]
            if n == "append" and len(args) == 2 and all(x[0] == "seq" for x in args):
                return [(("seq", a[1], self.merge(a[2] + args[1][2], st)), st)]
        if d in ("math.floor", "math.ceil", "math.trunc") and a is not None and a[0] == "lin":
            return self.rounded(n, a, st)
        if root == "pandas":
            if n == "DataFrame":
                src = kw.get("data", a if a is not None else NONE)
                hs = self.h(src, st)
                ix = kw.get("index", NN)
                if hs is not None and hs.cls == "dict" and hs.elts is not None and all(is_const(k) for k, _ in hs.elts):
                    return [self.frame(st, {k[2]: v for k, v in hs.elts}, ix)]
                if hs is not None and hs.cls == "ext:pandas.DataFrame":
                    return [self.frame(st, self.cols(src, st), hs.attrs.get("#index", NN))]
                return [self.frame(st, None if src != NONE else {}, ix)]
            if n == "Series" and a is not None and a[0] == "seq":
                return [(a, st)]
            if n in ("to_datetime", "DatetimeIndex", "Index", "Timestamp") and a is not None and a[0] in ("seq", "date"):
                return [(a, st)]
            if n == "date_range":
                return self.date_range(args, kw, st)
            if n == "concat" and a is not None:
                els = self.elements(a, st)
                ax = kw.get("axis", args[1] if len(args) > 1 else const(0))
                if els and all(self.cols(x, st) is not None for x in els) and ax in (const(0), const("index")):
                    return self.concat(els, st)
                if els and all(x[0] == "seq" for x in els) and ax == const(0):
                    return [(("seq", els[0][1], self.merge(sum((x[2] for x in els), ()), st)), st)]
                if els and ax in (const(1), const("columns")) and all(self.cols(x, st) is not None for x in els):
                    m: Dict[str, Any] = {}
                    for x in els:
                        m.update(self.cols(x, st))
                    return [self.frame(st, m, self.h(els[0], st).attrs.get("#index", NN))]
                return [self.frame(st, None)]
            if n == "infer_freq":
                return [(NN, st)]
        return super().ext_call(d, args, kw, st, fr, node, star)

    def searchsorted(self, a, v, side, st: St):
        """position of a date among times without gaps"""
        if a[0] != "seq" or a[1] != "time" or len(a[2]) != 1 or a[2][0][0] != "t" or v[0] != "date" or side not in (const("left"), const("right")):
            return None
        _, lo, hi = a[2][0]
        p = v[1] if side == const("left") else padd(v[1], const(1))
        d, n = padd(p, lo, -1), padd(hi, lo, -1)
        if d is None or n is None:
            return None
        out = []
        for neg, s in self.branch(d, const(0), st, True):
            if neg:
                out.append((const(0), s))
                continue
            out += [(n if t else d, s2) for t, s2 in self.branch(n, d, s, True)]
        return out

    def rounded(self, n: str, a, st: St):
        if self.is_int(a):
            return [(a, st)]
        pos = self.nonneg(a, st)
        v = self.opaque(("ceil" if n == "ceil" else "round" if n in ("round", "rint") else "floor", a), "floor" if n != "ceil" else "ceil", 0 if pos else -INF, True)
        d = padd(a, v, -1)
        if n == "ceil":
            st = self.assume(st, self.scale(d, Fraction(-1))) or st
            st = self.assume(st, padd(d, const(1)), True) or st
        elif n in ("floor", "trunc") and pos or n == "floor":
            st = self.assume(st, d) or st
            st = self.assume(st, padd(const(1), d, -1), True) or st
        return [(v, st)]

    def date_range(self, args, kw, st: St):
        start = kw.get("start", args[0] if args else NONE)
        end = kw.get("end", args[1] if len(args) > 1 else NONE)
        per = kw.get("periods", args[2] if len(args) > 2 else NONE)
        closed = kw.get("closed", kw.get("inclusive", NONE))
        seg = None
        if start[0] == "date" and end == NONE and poly(per) is not None:
            seg = (start[1], padd(start[1], per))
        elif end[0] == "date" and start == NONE and poly(per) is not None:
            seg = (padd(padd(end[1], const(1)), per, -1), padd(end[1], const(1)))
        elif start[0] == "date" and end[0] == "date" and per == NONE:
            seg = (start[1], padd(end[1], const(1)))
        if seg is None or seg[0] is None or seg[1] is None:
            return [(("seq", "time", (("?", const(0), per if poly(per) is not None else self.opaque(("dr", start, end, per), "n", 0)),)), st)]
        v = ("seq", "time", (("t", seg[0], seg[1]),))
        if closed == const("right"):
            # the start is left out when it is in the range
            return self.slice_seq(v, const(1), NONE, st)
        if closed == const("left"):
            return self.slice_seq(v, const(0), const(-1), st)
        return [(v, st)]

    def builtin(self, n: str, args, kw, st: St, fr: Frame, node):
        a = args[0] if args else None
        if n == "len" and a is not None:
            if a[0] == "seq":
                return [(self.seqlen(a) or TOP, st)]
            h = self.h(a, st)
            if h is not None and h.cls == "ext:pandas.DataFrame":
                q = self.frame_seq(a, st)
                return [(self.seqlen(q), st)] if q is not None else [(TOP, st)]
        if n in ("int", "float", "round", "abs") and a is not None and a[0] == "lin":
            if n == "float":
                return [(a, st)]
            if n == "abs":
                return [(a, st)] if self.nonneg(a, st) else [(self.opaque(("abs", a), "abs", 0, self.is_int(a)), st)]
            if n == "int" and not self.is_int(a) and not self.nonneg(a, st):
                return [(self.opaque(("int", a), "int"), st)]
            return self.rounded("trunc" if n == "int" else "round", a, st)
        if n in ("min", "max"):
            xs = list(args) if len(args) > 1 else (self.elements(a, st) if a is not None else None)
            if xs and all(poly(x) is not None for x in xs) and any(x[0] == "lin" for x in xs):
                states = [(xs[0], st)]
                for x in xs[1:]:
                    nxt = []
                    for m, s in states:
                        for t, s2 in self.branch(m, x, s, False):
                            nxt.append((m if t == (n == "min") else x, s2))
                    states = nxt
                return states
        if n == "range" and args and all(poly(x) is not None for x in args) and any(x[0] == "lin" for x in args):
            if len(args) <= 2:
                lo, hi = (const(0), a) if len(args) == 1 else (a, args[1])
                return [(("seq", "range", (("n", lo, hi),)), st)]
            return [(TOP, st)]
        if n in ("list", "tuple", "sorted", "iter") and a is not None and a[0] == "seq":
            return [(("seq", "list" if a[1] != "time" else "time", a[2]), st)]
        if n == "sum" and a is not None and a[0] == "mask":
            return self.count_mask(a, st)
        if a is not None and a[0] in ("seq", "date", "delta", "mask", "lin") and n not in ("isinstance", "str", "repr", "type", "print", "hasattr", "getattr",
                                                                                             "zip", "enumerate", "bool", "dict", "sum", "any", "all", "id"):
            return [(TOP, st)]
        return super().builtin(n, args, kw, st, fr, node)

    def do_for(self, s, st: St, fr: Frame):
        """a loop over a range of unknown length: its index is a fresh number inside the range"""
        out = []
        for v, s1 in self.ev(s.iter, st, fr):
            if v[0] == "seq" and v[1] == "range" and len(v[2]) == 1 and isinstance(s.target, ast.Name):
                _, lo, hi = v[2][0]
                i = self.opaque(("idx", id(s)), s.target.id + "#", 0 if self.nonneg(lo, s1) else -INF)
                self.samples.setdefault(self.interned[("idx", id(s))], [0, 1, 2, 4])
                hs = self.havoc(s, s1, fr)
                ended: List[St] = [s1]
                s2 = self.assume(hs, padd(i, lo, -1))
                s2 = self.assume(s2, padd(padd(hi, i, -1), const(1), -1)) if s2 is not None else None
                for c2 in (self.assign(s.target, i, s2, fr) if s2 is not None else []):
                    for ctl, rv, s3 in self.block(s.body, c2, fr):
                        if ctl in ("next", "continue"):
                            ended.append(self.havoc(s, s3, fr))
                        elif ctl == "break":
                            out.append(("next", None, s3))
                        else:
                            out.append((ctl, rv, s3))
                for c in self.capst(ended):
                    out.extend(self.block(s.orelse, c, fr) if s.orelse else [("next", None, c)])
            else:
                if not hasattr(self, "_iter_override"):
                    self._iter_override = None
                out.extend(self._for_known(s, v, s1, fr))
        return out

    def _for_known(self, s, v, s1: St, fr: Frame):
        tmp = "#iter"
        # how often a loop over unknown elements runs is not known either
        s2 = s1.copy() if self.elements(v, s1) is not None else self.mark(s1).copy()
        s2.env[tmp] = v
        loop = ast.copy_location(ast.For(target=s.target, iter=ast.copy_location(ast.Name(id=tmp, ctx=ast.Load()), s.iter),
                                         body=s.body, orelse=s.orelse, type_comment=None), s)
        return super().do_for(loop, s2, fr)
