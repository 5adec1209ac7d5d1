#!/usr/bin/env python3
"""check.py <property> [quick|thorough]: decide one property from /repo's source.

exit 0: holds; exit 1: VIOLATION line; exit 3: the analysis gives no answer."""
import importlib
import os
import sys
import traceback

sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
sys.dont_write_bytecode = True
sys.setrecursionlimit(20000)

from sa.project import Project, AnalysisBroken  # noqa: E402
from sa.report import Ctx, finish  # noqa: E402


if os.environ.get("PYTHONHASHSEED") != "0":
    # verdicts must not depend on set iteration order
    os.environ["PYTHONHASHSEED"] = "0"
    os.execv(sys.executable, [sys.executable] + sys.argv)


def run(prop, tier):
    mod = importlib.import_module("rules." + prop.lower())
    ctx = Ctx(prop, tier)
    try:
        mod.check(ctx, Project())
        pending = None
    except AnalysisBroken as exc:
        pending = exc
    if pending is not None and not ctx.findings:
        print("ANALYSIS-BROKEN property=%s: %s" % (prop, pending))
        return 3
    if pending is not None:
        ctx.notes.append("analysis stopped early: %s" % pending)
        print("  (analysis stopped early: %s)" % pending)
    return finish(ctx)


def main():
    prop = sys.argv[1]
    if prop == "--selftest":
        # every module of the analysed tree must parse
        print("selftest: %d modules parsed" % len(Project().modules))
        return 0
    tier = sys.argv[2] if len(sys.argv) > 2 else os.environ.get("VERIF_TIER", "quick")
    try:
        return run(prop, tier)
    except Exception:  # the analysis itself failed: no answer
        traceback.print_exc()
        print("ANALYSIS-ERROR property=%s" % prop)
        return 3


if __name__ == "__main__":
    sys.exit(main())
