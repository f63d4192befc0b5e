#!/usr/bin/env python3
"""python3 bin/check.py <property id>   -- tier and seed come from VERIF_TIER, VERIF_SEED
python3 bin/check.py --replay FILE    -- runs the case of a replay file again"""
import importlib
import json
import os
import sys
import traceback

sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "lib"))
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "checks"))
import vf  # noqa: E402
from registry import CHECKS  # noqa: E402


def main():
    if len(sys.argv) == 3 and sys.argv[1] == "--replay":
        rec = json.load(open(sys.argv[2]))
        ctx = vf.Ctx(rec["property"])
        mod = importlib.import_module(CHECKS[rec["property"]][0])
        try:
            ctx.conform(rec["family"], rec["module"], [rec["case"]], race=rec.get("race", False),
                        cfg=rec.get("cfg"), post=getattr(mod, "POST", {}).get(rec["module"]),
                        drvenv={"VF_MAIN": ctx.build_main()} if rec["family"] == "server" else None,
                        confirm=False)
            for p in ctx.violations:
                print("VIOLATION property=%s replay=%s" % (rec["property"], p))
            return 1 if ctx.violations else 0
        finally:
            ctx.close()
    prop = sys.argv[1]
    modname, fn = CHECKS[prop]
    ctx = vf.Ctx(prop)
    vf.log("check %s tier=%s seed=%d" % (prop, ctx.tier, ctx.seed))
    try:
        getattr(importlib.import_module(modname), fn)(ctx)
        return ctx.finish()
    except vf.CheckError as e:
        vf.log("ERROR of the check: %s" % e)
        if ctx.violations:
            # real-code evidence found before the error stands
            return ctx.finish()
        return 2
    except Exception:
        traceback.print_exc()
        if ctx.violations:
            return ctx.finish()
        return 2
    finally:
        ctx.close()


sys.exit(main())
