#!/usr/bin/env python3
"""Usage: check.py ID [quick|thorough]      run the check of one property (VERIF_SEED, VERIF_TIER are honoured)
          check.py --replay FILE             re-run the recorded case of a violation
          check.py --prebuild                compile the harnesses (setup)"""
import importlib, json, os, sys
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
import vplib
import props


def main():
    a = sys.argv[1:]
    if not a:
        print(__doc__)
        return 2
    seed = int(os.environ.get("VERIF_SEED", "1") or "1")
    if a[0] == "--replay":
        d = json.load(open(a[1]))
        ctx = vplib.Ctx(d["property"], d["tier"], d["seed"])
        try:
            return props.replay(ctx, d)
        finally:
            ctx.cleanup()
    if a[0] == "--prebuild":
        return props.prebuild()
    prop = a[0]
    tier = a[1] if len(a) > 1 else os.environ.get("VERIF_TIER", "quick") or "quick"
    ctx = vplib.Ctx(prop, tier, seed)
    try:
        props.CHECKS[prop](ctx)
        rc = ctx.finish()
    except vplib.CheckError as e:
        if ctx.violations:
            ctx.inconclusive.append(str(e)[:500])
            rc = ctx.finish()
        else:
            vplib.log("ERROR: " + str(e))
            rc = 2
    finally:
        ctx.cleanup()
    vplib.log("property %s tier %s seed %d: %s; %d evaluations, %d distinct non-trivial, %.1fs" % (
        prop, tier, seed, {0: "held on what was observed", 1: "VIOLATED"}.get(rc, "no verdict"), ctx.evaluations, len(ctx.hashes), __import__("time").time() - ctx.t0))
    return rc


if __name__ == "__main__":
    sys.exit(main())
