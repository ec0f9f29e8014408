"""Command line: check a property, replay or show a run, prove determinism.

    run.sh check C01 [--tier quick|thorough] [--seed N] [--runs N] [--workers N] [--budget S]
    run.sh replay FILE
    run.sh show C01 INDEX
    run.sh selftest [--runs N]
"""

from __future__ import annotations

import argparse
import gc
import hashlib
import json
import os
import pickle
import random
import re
import resource
import select
import signal
import subprocess
import sys
import traceback

ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO_SRC = os.environ.get("DST_REPO_SRC", "/repo/src")
OUT = os.environ.get("DST_OUT", os.path.join(ROOT, "evidence"))
sys.dont_write_bytecode = True


def load():
    """Import the library from the current working tree, never from stale byte code."""
    import watchfiles  # noqa: F401
    import anyio  # noqa: F401

    sys.pycache_prefix = "/nonexistent-dst"
    sys.path[:0] = [REPO_SRC, ROOT]
    import frequenz.channels

    where = os.path.abspath(frequenz.channels.__file__)
    if not where.startswith(os.path.abspath(REPO_SRC) + os.sep):
        sys.exit(f"frequenz.channels comes from {where}, not from {REPO_SRC}")
    from dst import core, registry

    return core, registry


def plan_for(registry, prop: str, seed: int, index: int, tier: str) -> dict:
    h = hashlib.sha256(f"{seed}:{prop}:{index}".encode()).hexdigest()
    return registry.make_plan(random.Random(h), prop, tier)


# -- search -----------------------------------------------------------------------------------
class Stats:
    def __init__(self) -> None:
        self.runs = 0
        self.switchy = 0
        self.digests: set = set()
        self.states: set = set()
        self.counts: dict = {}
        self.vtime = 0.0
        self.steps = 0
        self.events = 0
        self.capped = 0
        self.loop_errors = 0
        self.families: dict = {}
        self.cpu = 0.0

    def add(self, plan, res) -> None:
        self.runs += 1
        self.vtime += res.vtime
        self.steps += res.steps
        self.events += res.events
        self.capped += res.capped
        self.loop_errors += len(res.loop_errors)
        fam = plan["family"]
        self.families[fam] = self.families.get(fam, 0) + 1
        if res.switches >= 5:
            self.digests.add(res.digest[:16])
        for s in res.states:
            self.states.add(hashlib.sha256(repr((fam, s)).encode()).digest()[:8])
        for k, v in res.counts.items():
            self.counts[k] = self.counts.get(k, 0) + v

    def merge(self, o: "Stats") -> None:
        for k in ("runs", "vtime", "steps", "events", "capped", "loop_errors", "cpu"):
            setattr(self, k, getattr(self, k) + getattr(o, k))
        self.digests |= o.digests
        self.states |= o.states
        for name in ("counts", "families"):
            mine = getattr(self, name)
            for k, v in getattr(o, name).items():
                mine[k] = mine.get(k, 0) + v


BLOCK = 25


def worker(k, n_workers, cfg, wfd, core, registry, current) -> None:
    """Runs its share of the indices; sends ('block', stats), ('violation', ...), ('done',)."""
    prop, seed, tier, runs, deadline = cfg
    out = os.fdopen(wfd, "wb")

    def send(*msg):
        pickle.dump(msg, out)
        out.flush()

    gc.disable()
    gc.freeze()
    resource.setrlimit(resource.RLIMIT_AS, (6 << 30, 6 << 30))
    st = Stats()
    try:
        for b in range(k * BLOCK, runs, n_workers * BLOCK):
            for i in range(b, min(b + BLOCK, runs)):
                if current.stop_at() <= i:
                    break
                if core.REAL_MONOTONIC() > deadline:
                    send("block", st)
                    send("deadline")
                    return
                current.at(k, i)
                try:
                    plan = plan_for(registry, prop, seed, i, tier)
                    res = core.execute(plan, prop)
                except Exception:  # noqa: BLE001
                    send("error", i, traceback.format_exc())
                    continue
                st.add(plan, res)
                if res.violations:
                    send("violation", i, plan["family"], res.violations[0], res.digest)
                if res.hung:
                    send("block", st)
                    send("hung", i)
                    return
            if st.runs >= 400:
                send("block", st)
                st = Stats()
            if current.stop_at() <= b:
                break
        st.cpu = resource.getrusage(resource.RUSAGE_SELF).ru_utime
        send("block", st)
        send("done")
    except BaseException:  # noqa: BLE001
        send("error", -1, traceback.format_exc())


class Shared:
    """A few numbers shared with the workers: where each one is, and where to stop."""

    def __init__(self, n: int) -> None:
        import mmap

        self.m = mmap.mmap(-1, 8 * (n + 1))
        self.set_stop(1 << 60)

    def _put(self, slot, v):
        self.m[8 * slot: 8 * slot + 8] = int(v).to_bytes(8, "little")

    def _get(self, slot):
        return int.from_bytes(self.m[8 * slot: 8 * slot + 8], "little")

    def set_stop(self, v):
        self._put(0, v)

    def stop_at(self):
        return self._get(0)

    def at(self, k, i):
        self._put(1 + k, i)

    def where(self, k):
        return self._get(1 + k)


def search(core, registry, prop, seed, tier, runs, n_workers, budget, known, log):
    """Returns (stats, {index: violation}, errors, deadline_hit)."""
    now = core.REAL_MONOTONIC
    deadline = now() + budget
    shared = Shared(n_workers)
    procs = {}
    for k in range(n_workers):
        r, w = os.pipe()
        pid = os.fork()
        if pid == 0:
            code = 1
            try:
                for fd in procs:
                    os.close(fd)
                os.close(r)
                worker(k, n_workers, (prop, seed, tier, runs, deadline), w, core, registry, shared)
                code = 0
            finally:
                os._exit(code)
        os.close(w)
        procs[r] = {"pid": pid, "k": k, "buf": b"", "fin": False, "last": now()}
    stats, found, errors, late, known_hits = Stats(), {}, [], False, {}
    while procs:
        ready, _, _ = select.select(list(procs), [], [], 1.0)
        for fd in ready:
            p = procs[fd]
            data = os.read(fd, 1 << 20)
            p["buf"] += data
            p["last"] = now()
            while p["buf"]:
                try:
                    import io

                    f = io.BytesIO(p["buf"])
                    msg = pickle.load(f)
                    p["buf"] = p["buf"][f.tell():]
                except (EOFError, pickle.UnpicklingError, IndexError, ValueError):
                    break
                if msg[0] == "block":
                    stats.merge(msg[1])
                elif msg[0] == "violation":
                    _, i, fam, (kind, detail), digest = msg
                    hit = known_finding(known, prop, kind, detail)
                    if hit is not None:
                        known_hits.setdefault(hit, (i, kind, detail))
                        continue
                    found[i] = (kind, detail, fam, digest)
                    shared.set_stop(min(shared.stop_at(), i + 1))
                elif msg[0] == "error":
                    errors.append(msg[1:])
                elif msg[0] == "deadline":
                    late, p["fin"] = True, True
                elif msg[0] in ("done", "hung"):
                    p["fin"] = True
            if not data:
                os.close(fd)
                del procs[fd]
                _, status = os.waitpid(p["pid"], 0)
                if not p["fin"]:
                    errors.append((shared.where(p["k"]), f"worker {p['k']} ended with status {status}"))
        for fd, p in list(procs.items()):
            # The watchdog inside the worker ends a run after some CPU seconds; this is the last resort.
            here = shared.where(p["k"])
            if p.get("at") != here:
                p["at"], p["since"] = here, now()
            elif now() - p.get("since", now()) > 90:
                os.kill(p["pid"], signal.SIGKILL)
                found[here] = ("hang", "a run does not end", "?", "")
                shared.set_stop(min(shared.stop_at(), here + 1))
                p["fin"] = True
    return stats, found, errors, late, known_hits


# -- known findings ---------------------------------------------------------------------------
def load_known():
    """Lines `finding: property=<id> kind=<kind> detail=<regular expression>`; others are comments."""
    out = []
    path = os.path.join(ROOT, "known_findings.txt")
    if os.path.exists(path):
        with open(path, encoding="utf-8") as f:
            for line in f:
                m = re.match(r"finding:\s+property=(\S+)\s+kind=(\S+)\s+detail=(.*)$", line.strip())
                if m:
                    out.append(m.groups())
    return out


def known_finding(known, prop, kind, detail):
    for k in known:
        if k[0] == prop and k[1] == kind and re.search(k[2], detail):
            return k
    return None


# -- replay -----------------------------------------------------------------------------------
def write_replay(path, prop, kind, detail, plan, digest, origin, trace, before=()):
    os.makedirs(os.path.dirname(path), exist_ok=True)
    with open(path, "w", encoding="utf-8") as f:
        json.dump({"property": prop, "kind": kind, "detail": detail, "origin": origin, "plan": plan,
                   **({"before": list(before)} if before else {}),
                   "digest": digest, "trace": [repr(e) for e in trace][:3000]}, f, indent=1)


def run_once(core, plan, prop, lines=False, before=()):
    """Run a plan, after others in the same process, if what they leave behind there matters."""
    gc.disable()
    for p in before:
        core.execute(p, prop)
    return core.execute(plan, prop, keep_trace=True, lines=lines)


def cmd_replay(args) -> int:
    core, _ = load()
    with open(args.file, encoding="utf-8") as f:
        rec = json.load(f)
    lines = rec["kind"] == "hang"
    before = rec.get("before", ())
    res = run_once(core, rec["plan"], rec["property"], lines=lines, before=before)
    if not args.quiet:
        print(f"property {rec['property']}, plan of family {rec['plan']['family']}")
        if before:
            print(f"after {len(before)} other runs in the same process, each in an event loop of its own")
        print("cfg", json.dumps(rec["plan"]["cfg"]), "sched", json.dumps(rec["plan"]["sched"]))
        for a in rec["plan"]["actors"]:
            print(f"  actor {a['n']}: {json.dumps(a['ops'])}")
        for e in res.trace[:3000]:
            print("  ", e)
    same = any(k == rec["kind"] for k, _ in res.violations)
    print(f"REPLAY violation={'yes' if same else 'no'} digest={res.digest} "
          f"{'identical' if res.digest == rec['digest'] else 'differs'}")
    for k, d in res.violations[:1]:
        print(f"  {k}: {d}")
    return 1 if same else 0


def confirm(path, prop, kind, digest) -> str:
    """Replay the file in a fresh process: "ok", "inexact" (fails alike, another history), or why not."""
    try:
        p = subprocess.run([os.path.join(ROOT, "run.sh"), "replay", "--quiet", path], capture_output=True, text=True,
                           timeout=150)
    except subprocess.TimeoutExpired:
        return "timeout"
    if p.returncode == 1 and ("identical" in p.stdout or kind == "hang"):
        return "ok"
    if p.returncode == 1:
        return "inexact"
    return f"exit {p.returncode}: {p.stdout[-300:]} {p.stderr[-300:]}"


def after_others(core, registry, prop, seed, tier, i, n_workers, kind):
    """A run fails only after others in its process: the library keeps something from them. Which ones?

    Returns the plans to run before, as few as could be found, or None."""
    until = core.REAL_MONOTONIC() + 100
    mine = [j for j in range(i) if j // BLOCK % n_workers == i // BLOCK % n_workers]
    plan = plan_for(registry, prop, seed, i, tier)

    def fails(js):
        return in_child(core, plan, prop, kind, [plan_for(registry, prop, seed, j, tier) for j in js]) is not None

    n = 1
    while not fails(mine[-n:]):
        if n >= len(mine) or core.REAL_MONOTONIC() > until:
            return None
        n *= 2
    js = mine[-n:]
    step = max(1, len(js) // 2)
    while core.REAL_MONOTONIC() < until:
        at = 0
        while at < len(js) and core.REAL_MONOTONIC() < until:
            less = js[:at] + js[at + step:]
            if less and fails(less):
                js = less
            else:
                at += step
        if step == 1:
            break
        step //= 2
    return [plan_for(registry, prop, seed, j, tier) for j in js]


def report(core, registry, prop, seed, tier, found, log, n_workers=8):
    """Shrink, write and confirm the first violation that replays. Returns (path, kind, detail)."""
    from . import shrink

    problems = []
    inexact = None
    for i in sorted(found)[:4]:
        kind, detail, _fam, _digest = found[i]
        plan = plan_for(registry, prop, seed, i, tier)
        cands = []
        if kind != "hang":
            oracle = shrink.Oracle(prop, kind, core.REAL_MONOTONIC() + 60)
            try:
                small = shrink.minimise(plan, oracle)
            finally:
                oracle.stop()
            log(f"minimised with {oracle.tried} candidate runs")
            if small != plan:
                cands.append(small)
        cands.append(plan)
        for n, cand in enumerate(cands):
            path = os.path.join(OUT, "replays", f"{prop}-{seed}-{i}{'' if n == 0 else '-full'}.json")
            rec = in_child(core, cand, prop, kind)
            if rec is None:
                problems.append(f"run {i}: not reproduced in a child process")
                continue
            d, digest, trace = rec
            write_replay(path, prop, kind, d, cand, digest, {"seed": seed, "index": i, "tier": tier,
                                                             "minimised": cand is not plan}, trace)
            why = confirm(path, prop, kind, digest)
            if why == "ok":
                return path, kind, d, i
            if why == "inexact" and inexact is None:
                inexact = path, kind, d, i
            problems.append(f"run {i}: {why}")
    for i in sorted(found)[:2]:
        kind = found[i][0]
        before = after_others(core, registry, prop, seed, tier, i, n_workers, kind) if kind != "hang" else None
        if not before:
            continue
        plan = plan_for(registry, prop, seed, i, tier)
        rec = in_child(core, plan, prop, kind, before)
        if rec is None:
            continue
        d, digest, trace = rec
        path = os.path.join(OUT, "replays", f"{prop}-{seed}-{i}-after.json")
        write_replay(path, prop, kind, d, plan, digest, {"seed": seed, "index": i, "tier": tier, "minimised": False},
                     trace, before)
        why = confirm(path, prop, kind, digest)
        if why in ("ok", "inexact"):
            log(f"this needs {len(before)} other run(s) before it in the same process, in event loops of their own")
            return path, kind, d, i
        problems.append(f"run {i} after others: {why}")
    log("violations that did not replay exactly: " + "; ".join(problems))
    if inexact:
        log("the replay fails in the same way, but its history differs from process to process: the code under test "
            "takes decisions outside of the simulator's control")
    return inexact


def in_child(core, plan, prop, kind, before=()):
    """Run a plan in a forked process; returns (detail, digest, trace) if it fails in this way."""
    r, w = os.pipe()
    pid = os.fork()
    if pid == 0:
        try:
            os.close(r)
            res = run_once(core, plan, prop, lines=kind == "hang", before=before)
            det = [d for k, d in res.violations if k == kind]
            msg = (det[0], res.digest, res.trace[:3000]) if det else None
            with os.fdopen(w, "wb") as f:
                pickle.dump(msg, f)
        finally:
            os._exit(0)
    os.close(w)
    try:
        with os.fdopen(r, "rb") as f:
            data = f.read()
        return pickle.loads(data) if data else None
    finally:
        os.waitpid(pid, 0)


# -- commands ---------------------------------------------------------------------------------
def cmd_check(args) -> int:
    prop = args.prop
    tier = args.tier or os.environ.get("VERIF_TIER") or "quick"
    seed = args.seed if args.seed is not None else int(os.environ.get("VERIF_SEED") or "1")
    core, registry = load()
    t0 = core.REAL_MONOTONIC()
    from . import evidence

    fams, quick_runs = registry.PROPS[prop]
    runs = args.runs or (quick_runs if tier == "quick" else quick_runs * registry.THOROUGH)
    budget = args.budget or (400 if tier == "quick" else 780)
    n_workers = args.workers or min(8, os.cpu_count() or 1)
    print(f"seed {seed}, {prop}, {tier}: {runs} runs of {sorted(fams)}, {n_workers} workers", flush=True)

    def log(msg):
        print(msg, flush=True)

    import glob

    for old in glob.glob(os.path.join(OUT, "replays", f"{prop}-*.json")):
        os.remove(old)
    known = load_known()
    stats, found, errors, late, known_hits = search(core, registry, prop, seed, tier, runs, n_workers, budget, known,
                                                    log)
    wall = core.REAL_MONOTONIC() - t0
    for k, (i, kind, detail) in known_hits.items():
        print(f"KNOWN-FINDING: property={prop} {kind}: {detail}")
    outcome = None
    if found:
        outcome = report(core, registry, prop, seed, tier, found, log, n_workers)
    ev = evidence.make(core, registry, prop, tier, seed, runs, stats, wall, late, errors,
                       [outcome] if outcome else [], n_workers, plan_for)
    evidence.write(OUT, prop, ev)
    print(f"{stats.runs} runs in {wall:.1f} s, {len(stats.digests)} distinct interleavings, "
          f"{len(stats.states)} abstract states, {stats.vtime:.0f} s simulated", flush=True)
    if outcome:
        path, kind, detail, i = outcome
        print(f"{kind}: {detail} (seed {seed}, run {i})")
        print(f"VIOLATION property={prop} replay={path}")
        return 1
    if found:
        print("HARNESS-ERROR violations were found, but none of them replays", file=sys.stderr)
        return 3
    if errors:
        print(f"HARNESS-ERROR in {len(errors)} runs, first: {errors[0]}", file=sys.stderr)
        return 3
    if late and stats.runs < (min(runs, quick_runs) // 5 if tier == "quick" else quick_runs):
        print(f"HARNESS-ERROR only {stats.runs} of {runs} runs within {budget} s", file=sys.stderr)
        return 3
    return 0


def cmd_show(args) -> int:
    core, registry = load()
    plan = plan_for(registry, args.prop, args.seed, args.index, args.tier)
    print(json.dumps({k: v for k, v in plan.items() if k != "actors"}))
    for a in plan["actors"]:
        print(" ", a["n"], json.dumps(a["ops"]))
    res = run_once(core, plan, args.as_prop or args.prop)
    for e in res.trace:
        print(e)
    print(res.violations, res.others, res.loop_errors, res.digest)
    return 1 if res.violations else 0


def cmd_digests(args) -> int:
    """Digests of a range of runs, for the determinism self-test."""
    core, registry = load()
    gc.disable()
    gc.freeze()
    for spec in args.spec:
        prop, a, b = spec.split(":")
        idx = list(range(int(a), int(b)))
        if args.reverse:
            idx.reverse()
        for i in idx:
            res = core.execute(plan_for(registry, prop, args.seed, i, "quick"), prop)
            print(prop, i, res.digest, len(res.violations))
    return 0


def cmd_selftest(args) -> int:
    """Same seeds, other processes, other order, other PYTHONHASHSEED: the same histories."""
    core, registry = load()
    props = sorted(registry.PROPS)
    n = args.runs
    jobs = []
    for variant, (hseed, rev, chunk) in enumerate([("0", False, n), ("0", True, n), ("1234", False, max(1, n // 3)),
                                                   ("random", True, max(1, n // 2))]):
        for prop in props:
            for a in range(0, n, chunk):
                jobs.append((variant, hseed, rev, f"{prop}:{a}:{min(n, a + chunk)}"))
    groups: dict = {}
    for v, h, r, s in jobs:
        groups.setdefault((v, h, r), []).append(s)
    cmds = []
    for (v, h, r), specs in groups.items():
        per = max(1, len(specs) // 8)
        for i in range(0, len(specs), per):
            cmds.append((v, h, r, specs[i: i + per]))
    results: dict = {}
    running: list = []
    bad = 0

    def finish(v, p):
        nonlocal bad
        out, err = p.communicate()
        if p.returncode:
            print("selftest process failed:", err[-2000:])
            bad += 1
        for line in out.splitlines():
            prop, i, dig, nv = line.split()
            results.setdefault((prop, int(i)), {})[v] = (dig, nv)

    cap = min(8, os.cpu_count() or 1)
    for v, h, r, specs in cmds:
        while len(running) >= cap:
            finish(*running.pop(0))
        env = dict(os.environ, DST_HASHSEED=h)
        cmd = [os.path.join(ROOT, "run.sh"), "digests", "--seed", str(args.seed)] + (["--reverse"] if r else []) + specs
        running.append((v, subprocess.Popen(cmd, stdout=subprocess.PIPE, stderr=subprocess.PIPE, text=True, env=env)))
    while running:
        finish(*running.pop(0))
    diff = [k for k, d in sorted(results.items()) if len(d) != 4 or len(set(d.values())) != 1]
    print(f"selftest: {len(results)} runs, each in 4 ways in {len(cmds)} processes, {len(diff)} differ {diff[:10]}")
    return 1 if diff or bad or not results else 0


def main() -> int:
    ap = argparse.ArgumentParser(description=__doc__, formatter_class=argparse.RawDescriptionHelpFormatter)
    sub = ap.add_subparsers(dest="cmd", required=True)
    c = sub.add_parser("check")
    c.add_argument("prop")
    c.add_argument("--tier", choices=["quick", "thorough"])
    c.add_argument("--seed", type=int)
    c.add_argument("--runs", type=int)
    c.add_argument("--workers", type=int)
    c.add_argument("--budget", type=float)
    c.set_defaults(fn=cmd_check)
    r = sub.add_parser("replay")
    r.add_argument("file")
    r.add_argument("--quiet", action="store_true")
    r.set_defaults(fn=cmd_replay)
    s = sub.add_parser("show")
    s.add_argument("prop")
    s.add_argument("index", type=int)
    s.add_argument("--seed", type=int, default=1)
    s.add_argument("--tier", default="quick")
    s.add_argument("--as-prop")
    s.set_defaults(fn=cmd_show)
    d = sub.add_parser("digests")
    d.add_argument("spec", nargs="+")
    d.add_argument("--seed", type=int, default=1)
    d.add_argument("--reverse", action="store_true")
    d.set_defaults(fn=cmd_digests)
    t = sub.add_parser("selftest")
    t.add_argument("--runs", type=int, default=12)
    t.add_argument("--seed", type=int, default=1)
    t.set_defaults(fn=cmd_selftest)
    args = ap.parse_args()
    return args.fn(args)


if __name__ == "__main__":
    sys.exit(main())
