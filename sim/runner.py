"""Runs plans: one seeded search run, or one exact replay."""
import copy
import random

from . import gen, world


def merge(a, b):
    for k, v in b.items():
        a[k] = a.get(k, 0) + v


def run_plan(plan, prop, search):
    """Execute a plan (all its schedules). Decisions are recorded in the plan when searching."""
    rng = random.Random("sched/%s/%s" % (prop, plan["seed"])) if search else None
    w = world.World(plan, prop, rng)
    res = w.run()
    res["runs"] = 1
    if plan.get("schedules"):
        ref = w.plog
        for i, s in enumerate(plan["schedules"]):
            if res["violation"]:
                break
            p2 = dict(plan, mode=s["mode"], decisions=s["decisions"])
            if search:
                # the broker is as slow in every schedule; the rest is drawn anew
                rng = random.Random("sched/%s/%s/%d" % (prop, plan["seed"], i))
            w2 = world.World(p2, prop, rng)
            r2 = w2.run()
            res["runs"] += 1
            for k in ("probes", "faults", "stats"):
                merge(res[k], r2[k])
            res["sim_us"] += r2["sim_us"]
            res["events"] += r2["events"]
            res["log_hash"] += r2["log_hash"]
            res["sched_hash"] = res["sched_hash"] * 31 + r2["sched_hash"]
            res["violation"] = r2["violation"]
            if not res["violation"] and w2.plog != ref:
                d = next((i for i, (a, b) in enumerate(zip(ref, w2.plog)) if a != b), min(len(ref), len(w2.plog)))
                a = ref[d] if d < len(ref) else None
                b = w2.plog[d] if d < len(w2.plog) else None
                res["violation"] = {"cat": "P15", "msg": "two schedules differ at event %d: %r / %r" % (d, a, b)}
    merge(res["faults"], plan.get("faults", {}))
    return res


def search(prop, seed, tier):
    plan = gen.make(prop, seed, tier)
    res = run_plan(plan, prop, True)
    return plan, res


def replay(plan, prop):
    return run_plan(copy.deepcopy(plan), prop, False)
