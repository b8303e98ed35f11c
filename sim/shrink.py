"""Minimises the plan of a violation: shrink.py IN OUT SECONDS (own process)."""
import json
import os
import shutil
import sys

sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))

from sim import worker  # noqa: E402


def main():
    src, dst, seconds = sys.argv[1], sys.argv[2], float(sys.argv[3])
    root = worker.setup()
    try:
        from sim import minimize, runner

        d = json.load(open(src))
        m = minimize.Minimizer(d["plan"], d["property"], d["violation"]["cat"], runner.replay, seconds)
        if not m.fails(m.plan):
            json.dump(dict(d, reproduced=False), open(dst, "w"), indent=1)
            return
        n0 = m.size()
        plan = m.run()
        res = runner.replay(plan, d["property"])
        if not res["violation"]:
            plan, res = d["plan"], runner.replay(d["plan"], d["property"])
        d.update(plan=plan, violation=res["violation"], log_hash=res["log_hash"], reproduced=True,
                 minimised={"from": n0, "to": m.size(), "replays": m.tries})
        json.dump(d, open(dst, "w"), indent=1)
    finally:
        shutil.rmtree(root, ignore_errors=True)


if __name__ == "__main__":
    main()
