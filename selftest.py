#!/opt/venv/bin/python
"""Proves the simulator deterministic: same seeds, different worker counts, hash seeds and processes;
and every recorded plan replays to the same event log.

selftest.py [runs per property] [property ...]
"""
import json
import os
import shutil
import subprocess
import sys
import tempfile

HERE = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, HERE)
sys.dont_write_bytecode = True
ALL = ["P%02d" % i for i in range(1, 21)] + ["P21", "P23", "P24", "P25"]


def batch(prop, n, workers, hashseed, path):
    env = dict(os.environ, DST_HASHSEED=str(hashseed), VERIF_SEED="77")
    r = subprocess.run([sys.executable, os.path.join(HERE, "check.py"), prop, "--runs", str(n), "--workers", str(workers), "--hashes", path],
                       capture_output=True, text=True, env=env)
    if r.returncode:
        print(r.stdout, r.stderr)
        sys.exit("batch of %s ended with %d" % (prop, r.returncode))
    return json.load(open(path))


def replays(prop, n):
    from sim import runner
    bad = 0
    for i in range(n):
        plan, a = runner.search(prop, 31_000_000 + i, "quick")
        plan = json.loads(json.dumps(plan))
        b = runner.replay(plan, prop)
        c = runner.replay(plan, prop)
        if not (a["log_hash"] == b["log_hash"] == c["log_hash"] and a["sched_hash"] == b["sched_hash"] == c["sched_hash"]):
            bad += 1
            print("%s seed %d: replay differs" % (prop, 31_000_000 + i))
    return bad


def main():
    n = int(sys.argv[1]) if len(sys.argv) > 1 else 40
    props = sys.argv[2:] or ALL
    tmp = tempfile.mkdtemp(prefix="dst-selftest-")
    keep = {}
    bad = 0
    for p in props:
        ev = os.path.join(HERE, "evidence", p + ".json")
        keep[ev] = open(ev).read() if os.path.exists(ev) else None
    try:
        for p in props:
            ref = batch(p, n, 8, 0, tmp + "/a")
            for w, h in ((8, 1), (3, 12345), (1, 0)):
                got = batch(p, n, w, h, tmp + "/b")
                d = [k for k in ref if ref[k] != got.get(k)]
                if d:
                    bad += len(d)
                    print("%s: %d of %d runs differ with %d workers and hash seed %d: %s" % (p, len(d), n, w, h, d[:5]))
            print(p, "%d runs x 4" % n, flush=True)
    finally:
        for ev, text in keep.items():
            if text is not None:
                open(ev, "w").write(text)
            elif os.path.exists(ev):
                os.remove(ev)
        shutil.rmtree(tmp)
    from sim import worker
    root = worker.setup()
    try:
        for p in props:
            bad += replays(p, max(5, n // 4))
    finally:
        shutil.rmtree(root)
    print("deterministic" if not bad else "NOT DETERMINISTIC: %d differences" % bad)
    sys.exit(1 if bad else 0)


if __name__ == "__main__":
    main()
