#!/usr/bin/env python3
"""check.py <property> [quick|thorough]: decides one property against /repo's working tree."""
import os, re, sys, traceback
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "lib"))
import core, props

pid = sys.argv[1]
tier = sys.argv[2] if len(sys.argv) > 2 else os.environ.get("VERIF_TIER", "quick")
seed = int(os.environ.get("VERIF_SEED", "1") or 1)
ctx = core.Ctx(pid, tier, seed)
p = props.PROPS[pid]
rc = 2
try:
    n = 0
    try:
        p["run"](ctx)
        rc = 0
    except core.Violation as v:
        known = core.known_finding(pid, v)
        if known:
            print("KNOWN-FINDING: property=%s %s" % (pid, known))
            rc = 0
        else:
            n = 1
            print(v.what)
            print("VIOLATION property=%s replay=%s" % (pid, v.replay))
            rc = 1
    ctx.evidence(p["level"], p["assumptions"], n)
    print("%s %s seed=%d: %s; %d traces, %d steps, %d model states (%.1f s)" % (
        pid, tier, seed, "held on everything explored" if rc == 0 else "VIOLATED", ctx.cov["traces_validated_against_impl"],
        ctx.cov["steps_validated"], ctx.cov["states"], __import__("time").time() - ctx.t0))
except Exception:
    traceback.print_exc()
    rc = 2
finally:
    if not os.environ.get("VERIF_KEEP"):
        ctx.close()
sys.exit(rc)
