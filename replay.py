#!/opt/venv/bin/python
"""Replays a violation: replay.py FILE [--log].  Exit 1 when it shows again, 0 when it does not."""
import json
import os
import shutil
import sys

sys.dont_write_bytecode = True
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))

from sim import worker  # noqa: E402


def main():
    path = sys.argv[1]
    d = json.load(open(path))
    root = worker.setup()
    try:
        from sim import runner

        if "--log" in sys.argv:
            from sim import world
            w = world.World(json.loads(json.dumps(d["plan"])), d["property"])
            w.run()
            for x in w.log:
                print("   ", *x)
        res = runner.replay(d["plan"], d["property"])
    finally:
        shutil.rmtree(root, ignore_errors=True)
    if "--json" in sys.argv:
        print(json.dumps({"violation": res["violation"], "log_hash": res["log_hash"]}))
    v = res["violation"]
    if v:
        if "--json" not in sys.argv:
            same = v == d.get("violation") and res["log_hash"] == d.get("log_hash")
            print("[%s] %s" % (v["cat"], v["msg"]))
            print("identical to the recorded run" if same else "DIFFERENT from the recorded run")
        sys.exit(1)
    if "--json" not in sys.argv:
        print("no violation")
    sys.exit(0)


if __name__ == "__main__":
    main()
