#!/usr/bin/env python3
"""check.py PROPERTY [--replay FILE]: decides one property (see DESIGN.md)."""
import json
import os
import sys
import traceback

sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
import vlib
import checks


def main():
    prop = sys.argv[1]
    replay = sys.argv[sys.argv.index("--replay") + 1] if "--replay" in sys.argv else None
    tier = os.environ.get("VERIF_TIER", "quick")
    if tier not in ("quick", "thorough"):
        tier = "quick"
    try:
        seed = int(os.environ.get("VERIF_SEED", "1"))
    except ValueError:
        seed = 1
    ctx = vlib.Ctx(prop, tier, seed)
    ctx.replay = json.load(open(replay)) if replay else None
    if ctx.replay:
        ctx.seed, ctx.tier = ctx.replay["seed"], ctx.replay["tier"]
    with open(os.path.join(ctx.work, "kf.json"), "w") as f:
        json.dump([k for k in vlib.known_findings()], f)
    try:
        rc = checks.CHECKS[prop](ctx)
    except vlib.HarnessError as e:
        print("ERROR of the check (no verdict):", e)
        rc = 3
    except Exception:
        traceback.print_exc()
        rc = 4
    finally:
        if not os.environ.get("VERIF_KEEP"):
            ctx.cleanup()
        else:
            print("kept", ctx.work)
    sys.stdout.flush()
    os._exit(rc)


if __name__ == "__main__":
    main()
