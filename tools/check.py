#!/usr/bin/env python3
"""check.py <property id>: decides one property; exit 0, or exit 1 with a VIOLATION line."""
import importlib
import os
import sys
import traceback

sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
import vlib  # noqa: E402


def main():
    pid = sys.argv[1]
    tier = os.environ.get("VERIF_TIER", "quick")
    if len(sys.argv) > 2:
        tier = sys.argv[2]
    if tier not in ("quick", "thorough"):
        tier = "quick"
    try:
        seed = int(os.environ.get("VERIF_SEED", "1"))
    except ValueError:
        seed = 1
    ctx = vlib.Ctx(pid, tier, seed)
    mod = importlib.import_module("checks." + pid.lower())
    try:
        assumptions = mod.check(ctx)
        return ctx.finish(assumptions or ())
    except vlib.ToolError as e:
        if ctx.violations:
            return ctx.finish(())
        print("CHECK-ERROR %s: %s" % (pid, e), file=sys.stderr)
        return 2
    except Exception:
        if ctx.violations:
            traceback.print_exc()
            return ctx.finish(())
        traceback.print_exc()
        return 2


if __name__ == "__main__":
    sys.exit(main())
