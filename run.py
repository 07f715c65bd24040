import glob
import json
import os
import sys

HERE = os.path.dirname(os.path.abspath(__file__))
REPO = os.environ.get("VERIF_REPO", "/repo")
# the code under test always comes from the working tree
sys.path.insert(0, REPO)
sys.path.insert(1, HERE)
sys.path.append(os.path.join(HERE, "vendor"))

from lib import pbt  # noqa: E402


def module_for(pid):
    hits = glob.glob(os.path.join(HERE, "checks", pid.lower() + "_*.py"))
    if len(hits) != 1:
        sys.exit(f"no check module for {pid}")
    return "checks." + os.path.basename(hits[0])[:-3]


def main():
    args = sys.argv[1:]
    if args[0] == "replay":
        with open(args[1]) as fh:
            r = json.load(fh)
        kind, msg = pbt.replay_in_child(r["module"], r["sub"], r["case"])
        print(kind, msg)
        if kind in ("violation", "signal"):
            print(f"VIOLATION property={r['property']} replay={args[1]}")
            return 1
        return 0 if kind == "ok" else 2
    pid = args[0]
    tier = os.environ.get("VERIF_TIER", "quick")
    only, scale, jobs = None, 1.0, 8
    for a in args[1:]:
        if a in ("quick", "thorough"):
            tier = a
        elif a.startswith("scale="):
            scale = float(a[6:])
        elif a.startswith("jobs="):
            jobs = int(a[5:])
        else:
            only = (only or []) + [a]
    seed = int(os.environ.get("VERIF_SEED", "1"))
    import logging

    import simpeg

    logging.disable(logging.WARNING)

    if not os.path.realpath(simpeg.__file__).startswith(os.path.realpath(REPO) + os.sep):
        print("HARNESS-ERROR simpeg imported from", simpeg.__file__)
        return 2
    return pbt.run_property(module_for(pid), tier, seed, only, jobs, scale)


if __name__ == "__main__":
    try:
        rc = main()
    except SystemExit:
        raise
    except BaseException:  # noqa: BLE001
        import traceback

        traceback.print_exc()
        rc = 2
    sys.stdout.flush()
    os._exit(rc)
