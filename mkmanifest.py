"""Writes MANIFEST.json."""
import json

NOTES = {
    "P01": "feed faults (loss, delay, reordering, repetition, source clock jumps) against a model of the feed order",
    "P02": "feed faults, outages and clock changes against a model of calendar periods kept in integers and zoneinfo",
    "P03": "feed faults, outages and clock changes against a model of tick-count frames",
    "P04": "every frame's values are recorded at closing and compared until it leaves the memory",
    "P05": "candle models evaluated after every tick of a faulty feed",
    "P06": "direct formulas over the whole model history after every tick of a faulty feed",
    "P07": "direct formulas over the previous valued frame after every tick of a faulty feed",
    "P08": "expected notifications computed by the model; what strategies see is compared inside each callback",
    "P09": "integer book-keeping of every trade next to several instruments sharing slow brokers",
    "P10": "integer book-keeping of quantities, closes and final results under delayed and failing broker requests",
    "P11": "netting model in integers with delayed broker requests and competing strategies",
    "P12": "requests counted per operation under seeded thread schedules with silent, failing and unlaunchable requests; simulated blocked time",
    "P13": "what each request sees at its first instant, under preemption between lines or instructions",
    "P14": "busy state compared with the number of requests still running, under seeded schedules; bounded draining",
    "P15": "the same plan executed under several seeded schedules; everything strategies see and the final books are compared",
    "P16": "one feeder thread per instrument, preempted between lines or instructions, against one sequential model per instrument",
    "P17": "raising callbacks and requests at seeded points; the complete state is compared with the model afterwards",
    "P18": "faulty simulated disk; the files of every report that returned are read back",
    "P19": "faulty simulated disk, crashes and clock jumps; every earlier report is read back after each one",
    "P21": "corrupted deliveries, corrections and execution reports injected at every point of runs; everything shown is compared before and after, ticks against integers",
    "P23": "operator's mistakes injected at every point of runs, also inside callbacks; everything shown is compared before and after, refused objects are watched",
    "P24": "an indicator written for the check records what it is told, compared with the model's ticks of each frame",
    "P25": "references, metadata and statuses recorded by the program and by simulated brokers, compared at every step under seeded schedules",
    "P20": "strategy figures against sums over the model's trades, on every subset the API offers",
}
NA = {}
m = {
    "version": 1,
    "setup_cmd": "/opt/venv/bin/python -B check.py --setup",
    "checks": [{
        "property": p,
        "quick_cmd": "/opt/venv/bin/python -B check.py %s --tier quick" % p,
        "thorough_cmd": "/opt/venv/bin/python -B check.py %s --tier thorough" % p,
        "evidence_file": "evidence/%s.json" % p,
        "technique": "deterministic simulation with fault injection: seeded search over schedules and faults, reference model",
        "level": "exploration",
        "level_note": "Seeded sampling of executions of the real code in a simulator: " + n + ". A clean batch is evidence, not proof. "
                      "Trusts the reference model and the seams listed in DESIGN.md.",
    } for p, n in NOTES.items()],
    "not_applicable": [{"property": p, "reason": r} for p, r in NA.items()],
    "notes": "No hooks in /repo: every seam is in Python's threading, time, datetime, os, io and sys.monitoring.",
}
json.dump(m, open("MANIFEST.json", "w"), indent=1)
