#!/usr/bin/env python3
"""check.py <property> [--replay file]: run the check of one property (see DESIGN.md)."""
import json, os, sys, subprocess, tempfile
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "lib"))
import build, run, props


def main():
    prop = sys.argv[1]
    seed = int(os.environ.get("VERIF_SEED", "1") or 1)
    tier = os.environ.get("VERIF_TIER", "quick")
    if "--thorough" in sys.argv:
        tier = "thorough"
    case = None
    if "--replay" in sys.argv:
        r = json.load(open(sys.argv[sys.argv.index("--replay") + 1]))["replay"]
        seed, case = r["seed"], r
    ctx = run.Ctx(prop, seed, tier)
    ctx.only = case
    try:
        f = props.PROPS[prop]
        return f(ctx)
    except build.BuildError as e:
        print("ERROR: build failed\n" + str(e)[:4000])
        return 5


if __name__ == "__main__":
    rc = main()
    sys.stdout.flush()
    os._exit(rc)
