"""Search worker: runs seeds first, first+step, ... and reports each on stdout."""
import json
import os
import shutil
import sys
import tempfile
import time

sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))

from sim import env  # noqa: E402


def setup():
    env.install()
    from sim import world

    root = tempfile.mkdtemp(prefix="estrade-dst-")
    world.SCRATCH_ROOT = root
    return root


def main():
    prop, tier, base, first, step, count = sys.argv[1], sys.argv[2], *map(int, sys.argv[3:8])
    root = setup()
    from sim import runner

    out = sys.stdout
    try:
        for i in range(first, count, step):
            t = env._real["monotonic"]()
            plan, res = runner.search(prop, base + i, tier)
            line = {"i": i, "seed": base + i, "res": res, "s": env._real["monotonic"]() - t}
            if res["violation"]:
                line["plan"] = plan
            elif i < 2:
                line["sample"] = sample(plan, res)
            out.write(json.dumps(line) + "\n")
            out.flush()
    finally:
        shutil.rmtree(root, ignore_errors=True)


def sample(plan, res):
    """A short account of one run."""
    cfg = plan["cfg"]
    return {"seed": plan["seed"], "operations": len(plan["ops"]), "first_operations": plan["ops"][:4],
            "scripted_actions": sum(len(a) for a in plan["scripts"].values()), "decisions": len(plan["decisions"]),
            "schedule": plan["mode"],
            "frame_sets": [[f["unit"], f["q"], f["max"], [x["kind"] for x in f["inds"]]] for e in cfg["epics"] for f in e["fs"]],
            "instruments": [[e["tz"], e["open"], e["close"]] for e in cfg["epics"]],
            "events": res["events"], "log_hash": res["log_hash"][:40]}


if __name__ == "__main__":
    main()
