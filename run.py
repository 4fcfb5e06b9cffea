#!/usr/bin/env python3
"""run.py ID | --replay FILE | --setup   (VERIF_SEED, VERIF_TIER in the environment)"""
import os
import sys
import traceback

sys.dont_write_bytecode = True
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))

from vf import build, core  # noqa: E402


def main():
    a = sys.argv[1:]
    if a[:1] == ["--replay"]:
        return core.replay(a[1])
    if a[:1] == ["--setup"]:
        os.makedirs(core.EVIDENCE, exist_ok=True)
        # everything the checks use; each of them brings it up to date again
        from vf.props import PROPS
        for flavour, harness in sorted(set((x["flavour"], p["harness"]) for p in PROPS.values() for x in p["passes"])):
            build.build(flavour, harness)
            print("built", flavour, harness)
        return 0
    tier = os.environ.get("VERIF_TIER", "quick")
    if len(a) > 1:
        tier = a[1]
    if tier not in ("quick", "thorough"):
        tier = "quick"
    try:
        seed = int(os.environ.get("VERIF_SEED", "1"))
    except ValueError:
        seed = 1
    try:
        return core.run_property(a[0], tier, seed)
    except build.BuildError as e:
        print("build failed:\n%s" % e, file=sys.stderr)
        return 2
    except core.HarnessError as e:
        print("harness error:\n%s" % e, file=sys.stderr)
        return 2
    except Exception:
        traceback.print_exc()
        return 2


if __name__ == "__main__":
    sys.exit(main())
