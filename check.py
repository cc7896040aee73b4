#!/usr/bin/env python3
"""check.py <property id> [quick|thorough]: decide one property.  Exit 0 held, 1 violated, 3 check error."""
import importlib, os, sys, traceback
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "lib"))
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
import vf


def main():
    prop = sys.argv[1]
    tier = sys.argv[2] if len(sys.argv) > 2 else os.environ.get("VERIF_TIER", "quick")
    tier = tier if tier in ("quick", "thorough") else "quick"
    try:
        seed = int(os.environ.get("VERIF_SEED", "1") or 1)
    except ValueError:
        seed = 1
    ctx = vf.Ctx(prop, tier, seed)
    rc = 0
    try:
        importlib.import_module("checks." + prop.lower()).run(ctx)
    except vf.Violation:
        rc = 1
    except vf.CheckError as e:
        print("CHECK ERROR:", e, flush=True)
        rc = 3
    except Exception:
        traceback.print_exc()
        rc = 3
    if rc in (0, 1):
        ctx.finish()
    if not os.environ.get("VF_KEEP"):
        ctx.cleanup()
    print(f"{prop} {tier}: {'held' if rc == 0 else 'VIOLATED' if rc == 1 else 'ERROR'} "
          f"({ctx.states} states, {ctx.transitions} transitions, {ctx.traces} behaviours bound to the code)", flush=True)
    sys.exit(rc)


main()
