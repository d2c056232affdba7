#!/usr/bin/env python3
"""check.py ID [quick|thorough] -- decide one property on /repo's working tree.

exit 0: held on everything explored.  exit 1 + 'VIOLATION property=ID replay=PATH': broken.
exit 3: the check could not give an answer (build failure, nothing observed)."""
import fcntl, json, os, sys, time

VERIF = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, os.path.join(VERIF, "lib"))
import common, props  # noqa: E402


def main():
    if len(sys.argv) < 2:
        print(__doc__)
        return 2
    pid = sys.argv[1]
    if pid == "setup":
        os.makedirs(common.TARGET, exist_ok=True)
        common.build_harness()
        common.build_san("asan")
        common.build_san("tsan")
        common.build_typst()
        common.build_cli()
        print("built")
        return 0
    tier = sys.argv[2] if len(sys.argv) > 2 else os.environ.get("VERIF_TIER", "quick")
    if tier not in ("quick", "thorough"):
        tier = "quick"
    seed = int(os.environ.get("VERIF_SEED", "1"))
    t0 = time.time()
    os.makedirs(common.TARGET, exist_ok=True)
    lock = open(os.path.join(common.TARGET, ".lock"), "w")
    fcntl.flock(lock, fcntl.LOCK_EX)
    env = common.Env(pid, tier, seed)
    try:
        rep = props.run(env)
    except common.Trouble as e:
        print(f"NO ANSWER property={pid}: {e}")
        return 3
    rep.wall = time.time() - t0
    return rep.finish()


if __name__ == "__main__":
    sys.exit(main())
