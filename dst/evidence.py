"""The evidence file of a check: everything in it is counted in the run it describes."""

from __future__ import annotations

import json
import os

FAULTS = {
    "cancel_in_flight": "cancellation of a task inside a library call",
    "timeout_fired": "timeout expiring inside a library call",
    "abandoned_ready": "ready() task cancelled without being awaited",
    "loop_stall": "event loop blocked by a callback",
    "late_wakeup": "event loop woken up late",
    "wall_clock_jump": "wall clock jump",
    "timer_tie_permuted": "reordering of timers due at the same instant",
    "identity_reused": "object identity reused after an object died",
    "gc": "garbage collection at an arbitrary point",
    "close": "channel closed while in use",
}

REAL = ["frequenz.channels (all modules, from /repo/src, unmodified)", "asyncio tasks, futures, locks, conditions, events"]
STUB = {
    "*": ["event loop and clock: SimLoop (asyncio.BaseEventLoop with virtual time and seeded choices)",
          "time.time/monotonic/perf_counter: simulated", "identity hashes of receivers and iteration order of task sets: seeded"],
    "filewatcher": ["watchfiles.RustNotify: simulated notifier", "anyio.to_thread.run_sync: simulated thread (no real threads)"],
}


def make(core, registry, prop, tier, seed, planned, stats, wall, late, errors, violations, n_workers, plan_for) -> dict:
    fams = registry.PROPS[prop][0]
    samples = []
    for i in (0, 1, 2):
        plan = plan_for(registry, prop, seed, i, tier)
        samples.append({"seed": seed, "index": i, "family": plan["family"], "sched": plan["sched"],
                        "actors": {a["n"]: a["ops"][:12] for a in plan["actors"]}})
    stubs = list(STUB["*"])
    real = list(REAL)
    if any(f in ("filewatcher", "selecting") for f in fams):
        stubs += STUB["filewatcher"]
        real.append("watchfiles.awatch (the Python part)")
    faults = {k: {"what": FAULTS[k], "times": v} for k, v in sorted(stats.counts.items()) if k in FAULTS}
    probes = {k: v for k, v in sorted(stats.counts.items()) if k not in FAULTS}
    hours = max(wall, 1e-6) / 3600
    return {
        "property": prop,
        "tier": tier,
        "seed": seed,
        "level": "exploration",
        "coverage": {
            "evaluations": stats.runs,
            "distinct_nontrivial": len(stats.digests),
            "rule": "Every evaluation is one simulated execution of the real library, derived from one seed. It is "
                    "counted when its complete event history (order, times, values) differs from those of all others "
                    "and control passed between simulated tasks at least 5 times.",
            "samples": samples,
            "planned_runs": planned,
            "runs_by_workload": stats.families,
            "seeds_per_hour": round(stats.runs / hours),
            "simulated_seconds": round(stats.vtime, 3),
            "scheduler_steps": stats.steps,
            "history_events": stats.events,
            "distinct_abstract_states": len(stats.states),
            "state_measure": "at quiescent moments: which kind of library call each task waits in, and the size and "
                             "flags of the reference models",
            "faults_injected": faults,
            "workload_probes": probes,
            "runs_cut_at_step_cap": stats.capped,
            "errors_reported_to_the_loop": stats.loop_errors,
            "real_components": real,
            "stubbed_components": stubs,
            "workers": n_workers,
            "stopped_by_time_budget": late,
            "harness_errors": len(errors),
            "violation": [{"replay": v[0], "kind": v[1], "detail": v[2], "index": v[3]} for v in violations],
        },
        "assumptions": [
            "asyncio semantics of CPython 3.12: callbacks run in FIFO order, code between two awaits is atomic",
            "one event loop, one thread: the library does not claim to be thread-safe",
            "sampling: what no seed reached was not checked",
        ],
        "wall_s": round(wall, 2),
        "violations": len(violations),
    }


def write(d, prop, ev) -> None:
    os.makedirs(d, exist_ok=True)
    tmp = os.path.join(d, f".{prop}.tmp")
    with open(tmp, "w", encoding="utf-8") as f:
        json.dump(ev, f, indent=1)
    os.replace(tmp, os.path.join(d, f"{prop}.json"))
