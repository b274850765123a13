#!/usr/bin/python3
"""check.py <PROPERTY-ID> [--tier quick|thorough]: decide one property from /repo's source."""
import argparse
import importlib
import os
import sys

sys.dont_write_bytecode = True
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))

from sa.project import AnalysisBroken  # noqa: E402
from sa.report import Ctx, finish  # noqa: E402


def main() -> int:
    ap = argparse.ArgumentParser()
    ap.add_argument("prop")
    ap.add_argument("--tier", default=os.environ.get("VERIF_TIER", "quick"), choices=["quick", "thorough"])
    a = ap.parse_args()
    try:
        c = Ctx(a.prop, a.tier)
        importlib.import_module(f"sa.rules.{a.prop.lower()}").run(c)
        return finish(c)
    except AnalysisBroken as e:
        print(f"ANALYSIS-BROKEN property={a.prop}: {e}", file=sys.stderr)
        return 2
    except RecursionError:
        print(f"ANALYSIS-BROKEN property={a.prop}: recursion limit", file=sys.stderr)
        return 2


if __name__ == "__main__":
    sys.exit(main())
