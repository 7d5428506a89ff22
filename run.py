#!/usr/bin/env python3
"""run.py <property id>...: decide the given properties on /repo's current source."""
import importlib, os, sys

# the same order of everything on every run
if os.environ.get("PYTHONHASHSEED") != os.environ.get("VX_HASHSEED", "0"):
    os.environ["PYTHONHASHSEED"] = os.environ.get("VX_HASHSEED", "0")
    os.execv(sys.executable, [sys.executable] + sys.argv)
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
from vx import check


def run(pid):
    m = importlib.import_module("checks." + pid.lower())
    return check.main(pid, m.run)


if __name__ == "__main__":
    ids = sys.argv[1:]
    if ids == ["--setup"]:
        from vx import build
        build.build_tool()
        from vx import prog
        p = prog.load()
        print("setup: %d units, %d functions" % (len(p.units), len(p.fns)))
        sys.exit(0)
    if ids == ["all"]:
        ids = sorted(f[:-3].upper() for f in os.listdir(os.path.join(os.path.dirname(os.path.abspath(__file__)), "checks"))
                     if f.startswith("p") and f.endswith(".py"))
    rc = 0
    for i in ids:
        rc = max(rc, run(i))
    sys.exit(rc)
