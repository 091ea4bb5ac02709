#!/usr/bin/env python3
"""python3 check.py ID: decide property ID on /repo's current tree."""
import importlib
import os
import sys

sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
from checks import core  # noqa: E402


def main():
    pid = sys.argv[1]
    m = importlib.import_module("checks." + pid.lower())
    try:
        ctx = core.Ctx(pid)
    except core.X.ExtractError as e:
        print(e)
        return 2
    try:
        m.run(ctx)
    except core.Anchor as e:
        ctx.ob("anchor", False, str(e))
    return core.finish(ctx, m.RULE, getattr(m, "ASSUMPTIONS", ()), getattr(m, "TRUSTED", ()),
                       getattr(m, "FLOOR", 1), getattr(m, "LEVEL", "other"))


if __name__ == "__main__":
    sys.exit(main())
