"""Common plumbing of the checks: findings, known findings, evidence, verdict."""
from __future__ import annotations

import json
import os
import time
from typing import Any, Dict, List, Optional

from .project import AnalysisBroken, Project

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
KNOWN = os.path.join(HERE, "known_findings.txt")
EVID = os.environ.get("SA_EVIDENCE_DIR", os.path.join(HERE, "evidence"))


class Finding:
    def __init__(self, rule: str, construct: str, where: str, why: str) -> None:
        self.rule = rule            # name of the rule
        self.construct = construct  # stable identity: no line numbers
        self.where = where          # file:line in function
        self.why = why

    @property
    def key(self) -> str:
        return f"{self.rule}|{self.construct}"


class Ctx:
    """one check run"""

    def __init__(self, prop: str, tier: str) -> None:
        self.prop = prop
        self.tier = tier
        self.t0 = time.time()
        self.prj: Project = Project()
        self.findings: List[Finding] = []
        self.counts: Dict[str, int] = {}
        self.samples: List[Any] = []
        self.rules: List[str] = []
        self.assumptions: List[str] = []
        self.notes: Dict[str, Any] = {}
        self.short: List[str] = []

    # -- recording
    def count(self, what: str, n: int = 1) -> None:
        self.counts[what] = self.counts.get(what, 0) + n

    def sample(self, s: Any, cap: int = 25) -> None:
        if len(self.samples) < cap:
            self.samples.append(s)

    def find(self, rule: str, construct: str, where: str, why: str) -> None:
        f = Finding(rule, construct, where, why)
        if all(g.key != f.key for g in self.findings):
            self.findings.append(f)

    def floor(self, what: str, least: int) -> None:
        """the rule matched fewer places than confirmed by hand: the analysis no
        longer sees the code it was written for"""
        got = self.counts.get(what, 0)
        if got < least:
            self.short.append(f"only {got} '{what}' found, at least {least} expected")

    def selftest(self, name: str, ok: bool) -> None:
        if not ok:
            raise AnalysisBroken(f"{self.prop}: self-test '{name}' failed: the rule no longer fires on its built-in example")
        self.count("self-tests passed")


def load_known(prop: str) -> Dict[str, str]:
    out: Dict[str, str] = {}
    if not os.path.exists(KNOWN):
        return out
    for line in open(KNOWN, encoding="utf-8"):
        line = line.rstrip("\n")
        if not line.startswith("finding: "):
            continue
        rest = line[len("finding: "):]
        head, _, text = rest.partition(" :: ")
        p, _, key = head.partition(" ")
        if p == f"property={prop}":
            out[key.strip()] = text.strip()
    return out


def finish(c: Ctx) -> int:
    known = load_known(c.prop)
    new = [f for f in c.findings if f.key not in known]
    old = [f for f in c.findings if f.key in known]
    if c.short and not new:         # a violation that explains the shortfall is reported as such
        raise AnalysisBroken(f"{c.prop}: " + "; ".join(c.short))
    for f in old:
        print(f"KNOWN-FINDING: property={c.prop} {f.where}: {f.why} [{f.key}]")
    os.makedirs(EVID, exist_ok=True)
    replay = os.path.join(EVID, f"{c.prop}.violation.txt")
    if os.path.exists(replay):
        os.remove(replay)
    ev = {
        "property": c.prop,
        "tier": c.tier,
        "seed": int(os.environ.get("VERIF_SEED", "1")),
        "level": "other",
        "coverage": {
            "explanation": " ".join(c.rules),
            **c.counts,
            "modules_parsed": len(c.prj.modules),
            "functions_in_scope": len(c.prj.funcs),
            "samples": c.samples,
            "known_findings_still_present": [f.key for f in old],
            "findings": [{"rule": f.rule, "construct": f.construct, "where": f.where, "why": f.why} for f in new],
            **c.notes,
        },
        "assumptions": c.assumptions,
        "wall_s": round(time.time() - c.t0, 3),
        "violations": len(new),
    }
    with open(os.path.join(EVID, f"{c.prop}.json"), "w", encoding="utf-8") as fh:
        json.dump(ev, fh, indent=1, default=str)
    if new:
        with open(replay, "w", encoding="utf-8") as fh:
            for f in new:
                fh.write(f"{f.where}\n  rule      {f.rule}\n  construct {f.construct}\n  {f.why}\n\n")
        for f in new:
            print(f"{f.where}: [{f.rule}] {f.construct}: {f.why}")
        print(f"VIOLATION property={c.prop} replay={os.path.relpath(replay, HERE)}")
        return 1
    print(f"OK property={c.prop} " + ", ".join(f"{k}={v}" for k, v in c.counts.items()))
    return 0
