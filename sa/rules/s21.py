"""S21: data an algorithm cannot handle is refused (same machinery as S11, over abstract series)."""
from __future__ import annotations

from ..report import Ctx
from .s11 import judge, selftest


def run(c: Ctx) -> None:
    c.rules.append("S21: a multivariate series given to a univariate-only class, a univariate one to a multivariate-only class, an empty or too short series "
                   "must end in an explicit raise on every abstract path; a series of the supported kind must leave a path that returns.")
    c.assumptions += ["optional packages are installed", "other parameters hold their defaults or any value of their annotated type"]
    selftest(c)
    judge(c, True, "series kinds")
    c.floor("series kinds to refuse", 30)
    c.floor("series kinds to accept", 30)
