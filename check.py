#!/usr/bin/env python3
"""check.py <property> : decide one property.  check.py --setup : nothing to prepare beyond a self test."""
import importlib
import json
import os
import sys
import time
import traceback

HERE = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, os.path.join(HERE, "lib"))
import vf  # noqa: E402


def known_findings(pid):
    path = os.path.join(HERE, "known_findings.txt")
    res = []
    if os.path.exists(path):
        for line in open(path):
            if line.startswith("finding: property=%s " % pid):
                res.append(line.strip().split(" ", 2)[2])
    return res


def main():
    if sys.argv[1] == "--setup":
        ctx = vf.Ctx("setup", "quick", 1)
        try:
            ctx.java_dir()
        finally:
            ctx.close()
        return 0
    pid = sys.argv[1]
    tier = os.environ.get("VERIF_TIER", "quick")
    seed = int(os.environ.get("VERIF_SEED", "1"))
    import checks
    ctx = vf.Ctx(pid, tier, seed)
    ctx.findings = known_findings(pid)
    try:
        level = checks.run(pid, ctx)
        ev = {
            "property": pid, "tier": tier, "seed": seed, "level": level,
            "coverage": {
                "states": ctx.states, "transitions": ctx.transitions,
                "traces_validated_against_impl": ctx.traces,
                "events_validated": ctx.events,
                "models": ctx.mc_runs,
                "samples": ctx.samples,
            },
            "assumptions": ctx.notes,
            "wall_s": round(time.time() - ctx.t0, 1),
            "violations": len(ctx.violations),
        }
        ev["coverage"].update(ctx.extra)
        os.makedirs(os.path.join(HERE, "evidence"), exist_ok=True)
        with open(os.path.join(HERE, "evidence", pid + ".json"), "w") as f:
            json.dump(ev, f, indent=1)
        for k in ctx.known:
            print("KNOWN-FINDING: property=%s %s" % (pid, k))
        ctx.log("states %d transitions %d traces %d events %d" % (ctx.states, ctx.transitions, ctx.traces, ctx.events))
        if ctx.violations:
            for v in ctx.violations[:5]:
                print("VIOLATION property=%s replay=%s" % (pid, v))
            return 1
        print("OK property=%s" % pid)
        return 0
    except vf.ToolError as e:
        if ctx.violations:
            for v in ctx.violations[:5]:
                print("VIOLATION property=%s replay=%s" % (pid, v))
            return 1
        print("ERROR: %s" % e)
        return 2
    except Exception:
        traceback.print_exc()
        return 2
    finally:
        ctx.close()


if __name__ == "__main__":
    sys.exit(main())
