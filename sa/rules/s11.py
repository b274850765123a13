"""S11: illegal option values are refused, legal ones accepted. (S21 uses the same machinery for data.)

sa/data/options.json lists, per callable and parameter, values (literals, open intervals, "any string that
equals no literal") that are illegal and values that are legal; sa/data/scenarios.json lists combinations.
Each is decided on the current source by abstract interpretation of the callable with that parameter
bound to the value and the others at their defaults or unknown."""
from __future__ import annotations

import json
import os
import sys
from multiprocessing import Pool
from typing import Any, Dict, List, Optional, Tuple

from ..project import AnalysisBroken, Project
from ..report import Ctx
from ..scenario import play

DATA = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "data")
_PRJ: Optional[Project] = None


def load() -> List[Dict[str, Any]]:
    """flat list of {"sc": scenario, "want": "refuse"|"accept", "id": ...}"""
    out: List[Dict[str, Any]] = []
    with open(os.path.join(DATA, "options.json"), encoding="utf-8") as fh:
        for e in json.load(fh):
            for want in ("refuse", "accept"):
                for lab in e[want]:
                    out.append({"sc": {"f": e["f"], "args": {e["param"]: lab}, "loose": e["loose"]}, "want": want,
                                "id": f"{e['f']}({e['param']}={lab})", "data": lab.startswith("series:"), "param": e["param"]})
    p = os.path.join(DATA, "scenarios.json")
    if os.path.exists(p):
        with open(p, encoding="utf-8") as fh:
            for e in json.load(fh):
                sc = {k: e[k] for k in ("f", "args", "then", "loose", "sample", "self", "cls") if k in e}
                tail = "".join(f".{m}({', '.join(f'{a}={b}' for a, b in kw.items())})" for m, kw in e.get("then", []))
                own = "".join(f"{a}={b}; " for a, b in e.get("self", {}).items())
                out.append({"sc": sc, "want": e["want"], "data": e.get("data", False), "param": None,
                            "id": f"{e['f']}({own}{', '.join(f'{a}={b}' for a, b in e.get('args', {}).items())}){tail}"})
    return out


def job(i: int) -> Tuple[str, List[str]]:
    sys.setrecursionlimit(20000)
    e = _JOBS[i]
    try:
        v, ex = play(_PRJ, e["sc"], 60000)
    except AnalysisBroken as err:
        return "gone", [str(err)]
    return v, sorted({x.where() for x, _ in ex})[:3]


_JOBS: List[Dict[str, Any]] = []


def decide(prj: Project, jobs: List[Dict[str, Any]], procs: int = 8):
    global _PRJ, _JOBS
    _PRJ, _JOBS = prj, jobs
    if procs == 1:
        return [job(i) for i in range(len(jobs))]
    with Pool(procs) as pool:
        return pool.map(job, range(len(jobs)), chunksize=4)


SELF = '''
KINDS = ["a", "b"]
def _refuse(msg):
    raise ValueError(msg)
class Good:
    def __init__(self, frac: float = 0.5, kind: str = "a"):
        if not 0 < frac <= 1:
            _refuse("frac")
        if kind not in KINDS:
            raise ValueError("kind")
        self.frac = frac
class Weak:
    def __init__(self, frac: float = 0.5, kind: str = "a"):
        if frac > 1:
            raise ValueError("frac")
        if kind not in KINDS:
            print("kind")
        self.frac = frac
class Strict:
    def __init__(self, frac: float = 0.5, kind: str = "a"):
        if not 0 < frac < 1:
            raise ValueError("frac")
        if kind == "a":
            raise ValueError("kind")
'''


def selftest(c: Ctx) -> None:
    t = Project(sources={"kats.zz": SELF})

    def v(cls: str, p: str, lab: str) -> str:
        return decide(t, [{"sc": {"f": f"kats.zz.{cls}.__init__", "args": {p: lab}}}], 1)[0][0]

    c.selftest("refused", [v("Good", "frac", x) for x in ("0", "(-inf,0)", "(1,inf)")] + [v("Good", "kind", "unknown-string")] == ["refuse"] * 4)
    c.selftest("accepted", [v("Good", "frac", x) for x in ("1", "(0,1)")] + [v("Good", "kind", "'b'")] == ["accept"] * 3)
    c.selftest("weakened guard", v("Weak", "frac", "(-inf,0)") == "accept" and v("Weak", "kind", "unknown-string") == "accept")
    c.selftest("over-strict guard", v("Strict", "frac", "1") == "refuse" and v("Strict", "kind", "'a'") == "refuse")


def judge(c: Ctx, data: bool, what: str) -> None:
    prj = c.prj
    jobs = [e for e in load() if bool(e["data"]) == data]
    res = decide(prj, jobs)
    gone: Dict[str, int] = {}
    for e, (v, where) in zip(jobs, res):
        f = prj.funcs.get(e["sc"]["f"]) or prj.classes.get(e["sc"]["f"])
        if v == "gone":
            gone[e["sc"]["f"]] = gone.get(e["sc"]["f"], 0) + 1
            continue
        if v in ("budget", "none"):
            c.count("undecided")
            continue
        c.count(f"{what} to {e['want']}")
        at = f"{f.module.path}:{f.node.lineno} in {e['sc']['f'].split('.')[-1]}" if hasattr(f, "module") else e["sc"]["f"]
        if e["want"] == "refuse":
            if v == "accept":
                c.find("not-refused", e["id"], at, "is accepted: no raise stops every path")
            elif v == "obscure":
                c.find("not-refused", e["id"], at, f"ends in an accidental error instead of a composed one ({'; '.join(where)})")
            else:
                c.sample(f"{e['id']} refused at {where[0] if where else '?'}")
        elif v == "refuse":
            c.find("not-accepted", e["id"], at, f"is legal but always refused at {'; '.join(where)}")
    c.notes["callables_gone"] = gone
    c.count("callables no longer present", len(gone))


def run(c: Ctx) -> None:
    c.rules.append("S11: every listed illegal option value must end in an explicit raise on every abstract path; every listed legal value must leave a path that returns.")
    c.assumptions += ["optional packages are installed", "other parameters hold their defaults or any value of their annotated type",
                      "the legal ranges in sa/data/options.json and scenarios.json were reviewed by hand"]
    selftest(c)
    judge(c, False, "option values")
    c.floor("option values to refuse", 300)
    c.floor("option values to accept", 250)
