#!/usr/bin/env python3
"""check.py <property id>: decides one property for /repo's current working tree.
exit 0 = held on everything explored; exit 1 + VIOLATION line = broken; exit 2 = error of the check."""
import importlib, os, sys, traceback
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
sys.dont_write_bytecode = True
from lib import vp


def main():
    pid = sys.argv[1]
    c = None
    try:
        mod = importlib.import_module("suites." + pid.lower())
        c = vp.Check(pid, getattr(mod, "LEVEL", "model_checking"))
        if os.environ.get("VP_NOBUILD") != "1":
            c.timing["build"] = round(vp.build(), 1)
        mod.run(c)
        code = c.finish()
    except vp.ToolError as e:
        print(f"ERROR {pid}: {e}")
        code = c.finish() or 2 if c and c.viol else 2
    except Exception:
        traceback.print_exc()
        code = c.finish() or 2 if c and c.viol else 2
    sys.stdout.flush()
    sys.exit(code)


main()
