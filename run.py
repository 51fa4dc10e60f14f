#!/usr/bin/env python3
"""Entry point of the checks.

  run.py check C01 [quick|thorough]   decide one property (exit 0 / 1)
  run.py replay FILE                  re-run one saved failing case
  run.py selftest                     imports everything (setup_cmd)
"""
import json
import os
import sys

VENV = "/opt/venv/bin/python"
HERE = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, HERE)
sys.dont_write_bytecode = True


def main(argv):
    from pbt import boot, core

    cmd = argv[0]
    if cmd == "check":
        prop = argv[1]
        tier = argv[2] if len(argv) > 2 else os.environ.get("VERIF_TIER", "quick")
        seed = int(os.environ.get("VERIF_SEED", "1"))
        return core.check_main(prop, tier, seed)
    if cmd == "worker":
        prop, tier, seed, shard, nshards, out = argv[1:7]
        core.worker_main(prop, tier, int(seed), int(shard), int(nshards), out)
        return 0
    if cmd == "replay":
        return core.replay_main(argv[1])
    if cmd == "selftest":
        boot.boot()
        with open(os.path.join(HERE, "MANIFEST.json")) as fh:
            manifest = json.load(fh)
        for entry in manifest["checks"]:
            core.load_check(entry["property"])
        print("framework ready: %d checks" % len(manifest["checks"]))
        return 0
    print(__doc__)
    return 2


if __name__ == "__main__":
    from pbt import boot as _b

    if os.environ.get("VERIF_CHILD") != "1":
        env = _b.child_env()
        env["VERIF_CHILD"] = "1"
        os.execve(VENV, [VENV, os.path.join(HERE, "run.py")] + sys.argv[1:], env)
    try:
        code = main(sys.argv[1:] or ["help"])
    except SystemExit:
        raise
    except BaseException as exc:  # noqa: BLE001
        import traceback

        traceback.print_exc()
        code = 3
    sys.stdout.flush()
    sys.exit(code)
