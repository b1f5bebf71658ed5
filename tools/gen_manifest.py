#!/usr/bin/env python3
"""Writes MANIFEST.json."""
import json, os, sys
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
import props
ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
ids = [json.loads(l)["id"] for l in open(os.path.join(ROOT, "properties.jsonl"))]
TECH = {
    "sem": "spec/Semaphore.tla", "mutex": "spec/Mutex.tla", "ring": "spec/RingGuarded.tla", "rseq": "spec/RingSimple.tla",
    "pool": "spec/Pool.tla", "mq": "spec/MsgQueue.tla", "job": "spec/JobDispatcher.tla",
}
checks, na = [], []
for i in ids:
    if i not in props.PROPS:
        na.append(dict(property=i, reason="Its check is still being built; see DESIGN.md."))
        continue
    specs = ", ".join(TECH.get(c, c) for c in props.PROPS[i])
    checks.append(dict(property=i, quick_cmd="python3 tools/check.py %s quick" % i, thorough_cmd="python3 tools/check.py %s thorough" % i,
                       technique="TLA+ specification (%s) model-checked with TLC; histories of the real code from a controlled scheduler validated against it with TLC" % specs,
                       level="model_checking",
                       level_note="Every history the real code (built from the working tree) produces under systematic and randomised schedules of the listed scripts is "
                                  "checked by TLC to be a behaviour of the TLA+ contract; the contract and the design models are model-checked for the property within small bounds. "
                                  "Trusts the scheduler's model of pthreads, sequentially consistent interleavings, TLC. Bounded by the scripts, preemption bounds and random schedules."))
m = dict(version=1, setup_cmd="python3 tools/setup.py", checks=checks, not_applicable=na,
         notes="See DESIGN.md. No hooks in /repo: the harness translation units and the library sources are compiled with -fsanitize=thread and linked against our own runtime.")
json.dump(m, open(os.path.join(ROOT, "MANIFEST.json"), "w"), indent=1)
