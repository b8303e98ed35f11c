#!/opt/venv/bin/python
"""Decides one property by seeded search over simulated executions.

check.py P01 [--tier quick|thorough] [--seed N] [--runs N] [--wall S] [--workers N]

Exit 0: no violation in what was explored. Exit 1 and a VIOLATION line: broken.
Exit 2: the check itself failed (never a verdict).
"""
import argparse
import json
import os
import re
import selectors
import subprocess
import sys
import tempfile
import time

HERE = os.path.dirname(os.path.abspath(__file__))
PY = sys.executable

# runs of the quick tier (about 25 s on 8 cores)
QUICK = {"P01": 5000, "P02": 4000, "P03": 5000, "P04": 3500, "P05": 3000, "P06": 4000, "P07": 4500, "P08": 4000, "P09": 2000,
         "P10": 2400, "P11": 1100, "P12": 3200, "P13": 3200, "P14": 3600, "P15": 1200, "P16": 1400, "P17": 1800, "P18": 4500,
         "P19": 4500, "P20": 1200, "P21": 4000, "P23": 4500,
         "P24": 3000, "P25": 2400}
CAP = {"quick": 300, "thorough": 600}
STALL = 240  # a single run that takes longer than this is an error of the check

REAL = ["estrade (all of it: Epic, FrameSet, Frame, indicators, BaseStrategy, BaseTradeProvider, TradeProviderBacktests, Trade, "
        "TradeClose, ReportingCSV)", "arrow, dateutil, csv, io (text and buffer layers), os.path, the interpreter"]
STUB = {"threads": "threading.Thread, Timer, Lock and RLock run on a simulated scheduler (one baton, seeded choices)",
        "clock": "time.*, datetime.now, arrow.utcnow read a virtual clock", "entropy": "os.urandom (hence uuid4) is seeded",
        "feed": "seeded market source and faulty transport", "live broker": "simulated: slow, silent, refusing or raising",
        "backtest broker": "TradeProviderBacktests with simulated delays", "strategies": "scripted callbacks, some of them raising",
        "disk": "scratch directory behind a faulty file layer"}


def fail(msg):
    print("ERROR " + msg, flush=True)
    sys.exit(2)


class Pool:
    def __init__(self, prop, tier, base, count, workers):
        self.procs = []
        env = dict(os.environ, PYTHONDONTWRITEBYTECODE="1", PYTHONHASHSEED=os.environ.get("DST_HASHSEED", "0"))
        self.sel = selectors.DefaultSelector()
        for w in range(workers):
            err = tempfile.TemporaryFile(mode="w+")
            p = subprocess.Popen([PY, os.path.join(HERE, "sim", "worker.py"), prop, tier, str(base), str(w), str(workers), str(count)],
                                 stdout=subprocess.PIPE, stderr=err, cwd=HERE, env=env)
            os.set_blocking(p.stdout.fileno(), False)
            self.sel.register(p.stdout, selectors.EVENT_READ, p)
            p.buf, p.err, p.last, p.seen, p.over = b"", err, -1, time.monotonic(), False
            self.procs.append(p)

    def live(self):
        return [p for p in self.procs if not p.over]

    def lines(self, timeout):
        for key, _ in self.sel.select(timeout):
            p = key.data
            data = p.stdout.read()
            if data is None:
                continue
            if not data:
                self.sel.unregister(p.stdout)
                p.over = True
                rc = p.wait()
                if rc and not getattr(p, "stopped", False):
                    p.err.seek(0)
                    yield p, {"error": "worker ended with %d: %s" % (rc, p.err.read()[-3000:])}
                continue
            p.seen = time.monotonic()
            p.buf += data
            *full, p.buf = p.buf.split(b"\n")
            for l in full:
                d = json.loads(l)
                p.last = d["i"]
                yield p, d

    def stop(self, p):
        p.stopped = True
        if p.poll() is None:
            p.kill()
        p.wait()
        if not p.over:
            p.over = True
            try:
                self.sel.unregister(p.stdout)
            except KeyError:
                pass

    def stop_all(self):
        for p in self.procs:
            self.stop(p)


def merge(a, b):
    for k, v in b.items():
        a[k] = a.get(k, 0) + v


def run_py(script, *args, timeout):
    env = dict(os.environ, PYTHONDONTWRITEBYTECODE="1", PYTHONHASHSEED="0")
    return subprocess.run([PY, os.path.join(HERE, script), *args], capture_output=True, text=True, timeout=timeout, env=env, cwd=HERE)


def report(prop, tier, base, found):
    """Minimises a violation, checks that the file replays it in a fresh process."""
    os.makedirs(os.path.join(HERE, "replays"), exist_ok=True)
    seed = found["seed"]
    path = os.path.join(HERE, "replays", "%s-%d.json" % (prop, seed))
    d = {"property": prop, "tier": tier, "seed": seed, "violation": found["res"]["violation"], "log_hash": found["res"]["log_hash"],
         "plan": found["plan"], "how": "python replay.py <this file>"}
    json.dump(d, open(path, "w"), indent=1)
    raw = path + ".raw"
    os.replace(path, raw)
    note = ""
    try:
        run_py("sim/shrink.py", raw, path, str(60 if tier == "quick" else 180), timeout=400)
        m = json.load(open(path))
        if m.get("reproduced"):
            r = run_py("replay.py", path, "--json", timeout=300)
            got = json.loads(r.stdout.splitlines()[-1])
            if got["violation"] == m["violation"] and got["log_hash"] == m["log_hash"]:
                os.remove(raw)
                note = "minimised from %d to %d parts, replays identically in a fresh process" % (
                    m["minimised"]["from"], m["minimised"]["to"])
                d = m
    except Exception as e:
        note = "minimisation failed (%s)" % e
    if not note or note.startswith("minimisation failed"):
        os.replace(raw, path)
        if not note:
            note = "the minimised file did not replay identically: this is the full recorded run"
    v = d["violation"]
    print("seed %d: [%s] %s" % (seed, v["cat"], v["msg"]))
    print(note)
    print("VIOLATION property=%s replay=%s" % (prop, path), flush=True)


def known(prop):
    """Replays the recorded findings; returns (lines, violation)."""
    k = json.load(open(os.path.join(HERE, "known_findings.json")))
    for f in k["findings"]:
        if f["property"] != prop:
            continue
        path = os.path.join(HERE, f["plan"])
        r = run_py("replay.py", path, "--json", timeout=300)
        try:
            got = json.loads(r.stdout.splitlines()[-1])["violation"]
        except (IndexError, ValueError):
            fail("finding %s cannot be replayed: %s" % (f["id"], r.stderr[-2000:]))
        if got is None:
            print("finding %s does not show any more" % f["id"])
        elif re.search(f["match"], got["msg"]):
            print("KNOWN-FINDING: property=%s %s" % (prop, f["what"]), flush=True)
        else:
            print("[%s] %s" % (got["cat"], got["msg"]))
            print("VIOLATION property=%s replay=%s" % (prop, path), flush=True)
            return True
    return False


def main():
    ap = argparse.ArgumentParser()
    ap.add_argument("prop", nargs="?")
    ap.add_argument("--setup", action="store_true", help="only check that everything needed is there")
    ap.add_argument("--tier", default=os.environ.get("VERIF_TIER", "quick"), choices=["quick", "thorough"])
    ap.add_argument("--seed", type=int, default=int(os.environ.get("VERIF_SEED", "1")))
    ap.add_argument("--runs", type=int)
    ap.add_argument("--wall", type=float)
    ap.add_argument("--workers", type=int, default=max(1, min(8, os.cpu_count() or 1)))
    ap.add_argument("--hashes", help="write the log hash of every seed there")
    a = ap.parse_args()
    if a.setup:
        if sys.version_info < (3, 12):
            fail("Python 3.12 is needed")
        import arrow  # noqa: F401
        from sim import env, gen, runner  # noqa: F401
        print("nothing to build: checks import /repo's working tree")
        return
    prop, tier = a.prop, a.tier
    if prop not in QUICK:
        fail("unknown property %s" % prop)
    t0 = time.monotonic()
    base = a.seed * 10_000_000 + (5_000_000 if tier == "thorough" else 0)
    count = a.runs or (QUICK[prop] if tier == "quick" else 4_000_000)
    wall = a.wall or CAP[tier]
    if known(prop):
        sys.exit(1)
    ts = time.monotonic()
    pool = Pool(prop, tier, base, count, a.workers)
    stats, probes, faults = {}, {}, {}
    logs, scheds, samples, hashes = set(), set(), [], {}
    runs = plans = events = nontrivial = 0
    sim_us = feed_us = cpu = 0
    best = None
    try:
        while pool.live():
            for p, d in pool.lines(1.0):
                if "error" in d:
                    fail(d["error"])
                r = d["res"]
                plans += 1
                runs += r["runs"]
                events += r["events"]
                sim_us += r["sim_us"]
                feed_us += r["feed_us"]
                cpu += d["s"]
                merge(stats, r["stats"])
                merge(probes, r["probes"])
                merge(faults, r["faults"])
                if r["log_hash"] not in logs:
                    logs.add(r["log_hash"])
                    if (r["probes"] or r["faults"]) and r["events"] >= 5:
                        nontrivial += 1
                scheds.add(r["sched_hash"])
                if a.hashes:
                    hashes[d["seed"]] = r["log_hash"] + "/%d" % r["sched_hash"]
                if "sample" in d:
                    samples.append(d["sample"])
                if r["violation"] and (best is None or d["i"] < best["i"]):
                    best = d
            now = time.monotonic()
            for p in pool.live():
                if best is not None and p.last + a.workers > best["i"]:
                    pool.stop(p)
                elif now - p.seen > STALL:
                    fail("a run of worker after index %d made no progress for %d s" % (p.last, STALL))
                elif now - ts > wall and best is None and p.last >= 0:
                    pool.stop(p)
    finally:
        pool.stop_all()
    search_s = time.monotonic() - ts
    if best is not None:
        report(prop, tier, base, best)
    elif plans == 0:
        fail("nothing was explored")
    ev = {
        "property": prop, "tier": tier, "seed": a.seed, "level": "exploration",
        "coverage": {
            "evaluations": runs,
            "distinct_nontrivial": nontrivial,
            "rule": "one evaluation = one simulated execution of the library under one seed (P15: one schedule of one feed); a plan is "
                    "non-trivial when its event log is new, has at least 5 events, and at least one fault fired or one rare-condition "
                    "probe was hit; distinctness is the SHA-1 of the event log",
            "plans_seeded": plans,
            "seed_range": [base, base + count],
            "distinct_event_logs": len(logs),
            "distinct_interleavings": len(scheds),
            "interleaving_measure": "hash of the sequence of context switches (from, to)",
            "runs_per_hour": round(runs / max(search_s, 1e-3) * 3600),
            "seeds_per_hour": round(plans / max(search_s, 1e-3) * 3600),
            "simulated_clock_hours": round(sim_us / 3.6e9, 2),
            "market_time_hours": round(feed_us / 3.6e9, 2),
            "events": events,
            "scheduler": stats,
            "faults_fired": dict(sorted(faults.items())),
            "rare_conditions_hit": dict(sorted(probes.items())),
            "real_components": REAL,
            "stub_components": STUB,
            "workers": a.workers,
            "samples": samples or [{"seed": base}],
        },
        "assumptions": [
            "the interpreter switches threads between source lines or bytecode instructions of estrade, and at thread, lock, sleep and broker "
            "operations; C calls are atomic",
            "the file system itself keeps what it accepted (crashes keep written bytes, lose buffered ones)",
        ],
        "wall_s": round(time.monotonic() - t0, 2),
        "violations": 0 if best is None else 1,
    }
    os.makedirs(os.path.join(HERE, "evidence"), exist_ok=True)
    tmp = os.path.join(HERE, "evidence", ".%s.tmp" % prop)
    json.dump(ev, open(tmp, "w"), indent=1)
    os.replace(tmp, os.path.join(HERE, "evidence", "%s.json" % prop))
    if a.hashes:
        json.dump(hashes, open(a.hashes, "w"), indent=0, sort_keys=True)
    if best is not None:
        sys.exit(1)
    print("%s %s: held on %d runs (%d seeds, %d distinct histories, %d interleavings) in %.0f s" % (
        prop, tier, runs, plans, len(logs), len(scheds), time.monotonic() - t0))
    sys.exit(0)


if __name__ == "__main__":
    main()
