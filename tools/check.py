#!/usr/bin/env python3
"""check.py <property>: decides one property on /repo's working tree."""
import importlib.util
import os
import sys
import traceback

sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
sys.dont_write_bytecode = True
import vlib  # noqa: E402


def main():
    prop = sys.argv[1]
    p = os.path.join(vlib.VERIF, "checks", prop + ".py")
    spec = importlib.util.spec_from_file_location(prop, p)
    mod = importlib.util.module_from_spec(spec)
    spec.loader.exec_module(mod)
    ctx = vlib.Ctx(prop, getattr(mod, "LEVEL", "model_checking"))
    try:
        mod.check(ctx)
        rc = ctx.finish()
    except vlib.CheckError as e:
        # a violation already established by real-code behaviour stands
        if ctx.violations:
            ctx.log("later part failed:", e)
            rc = ctx.finish()
        else:
            print("CHECK-ERROR", prop, e, flush=True)
            rc = 2
    except Exception:
        traceback.print_exc()
        rc = 2 if not ctx.violations else ctx.finish()
    sys.exit(rc)


main()
