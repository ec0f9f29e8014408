"""Writes MANIFEST.json from properties.jsonl and the registry."""
import json
import os
import re

root = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
src = open(os.path.join(root, "dst/registry.py")).read()
fams = {m[0]: re.findall(r'"(\w+)":', m[1]) for m in re.findall(r'"(C\d+)": \(\{(.*?)\}, \d+\)', src)}
props = [json.loads(l) for l in open(os.path.join(root, "properties.jsonl"))]
checks = []
for p in props:
    i = p["id"]
    f = ", ".join(fams[i])
    checks.append({
        "property": i,
        "quick_cmd": f"./run.sh check {i} --tier quick",
        "thorough_cmd": f"./run.sh check {i} --tier thorough",
        "evidence_file": f"evidence/{i}.json",
        "technique": "deterministic simulation with fault injection: seeded search over task schedules, clocks and "
                     f"faults, judged by a reference model (workloads: {f})",
        "level": "exploration",
        "level_note": "The real library runs under a seeded event loop with virtual time; cancellations, time-outs, "
                      "stalls, clock jumps, closings and drops are injected at arbitrary points. Sampled, not "
                      "exhaustive. Trusted: the simulator, the reference models, CPython's asyncio tasks and locks"
                      + ("; the operating-system watcher (watchfiles.RustNotify) is a stub."
                         if {"filewatcher", "selecting", "mixed"} & set(fams[i]) else "."),
    })
json.dump({
    "version": 1,
    "setup_cmd": "./run.sh selftest --runs 4",
    "checks": checks,
    "not_applicable": [],
    "notes": "No hooks in /repo: asyncio's event loop interface, time.* and watchfiles.RustNotify are the seams.",
}, open(os.path.join(root, "MANIFEST.json"), "w"), indent=1)
