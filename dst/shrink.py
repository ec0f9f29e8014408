"""Minimisation of a failing plan: drop actors and operations, simplify numbers and faults."""

from __future__ import annotations

import copy
import json
import os
import pickle
import select
import signal

from .core import REAL_MONOTONIC


class Oracle:
    """Says whether a plan still fails in the same way; runs plans in a child process."""

    def __init__(self, prop: str, kind: str, deadline: float) -> None:
        self.prop, self.kind, self.deadline = prop, kind, deadline
        self.pid = None
        self.cache: dict[str, bool] = {}
        self.tried = 0

    def _start(self) -> None:
        self.r_in, self.w_in = os.pipe()
        self.r_out, self.w_out = os.pipe()
        self.pid = os.fork()
        if self.pid == 0:
            try:
                os.close(self.w_in)
                os.close(self.r_out)
                self._serve()
            finally:
                os._exit(0)
        os.close(self.r_in)
        os.close(self.w_out)

    def _serve(self) -> None:
        from . import core

        rd = os.fdopen(self.r_in, "rb")
        while True:
            try:
                plan = pickle.load(rd)
            except EOFError:
                return
            try:
                res = core.execute(plan, self.prop)
                ok = any(k == self.kind for k, _ in res.violations)
                hung = res.hung
            except BaseException:  # noqa: BLE001
                ok = hung = False
            os.write(self.w_out, b"1" if ok else b"0")
            if hung:
                return

    def stop(self) -> None:
        if self.pid is not None:
            try:
                os.kill(self.pid, signal.SIGKILL)
            except ProcessLookupError:
                pass
            os.waitpid(self.pid, 0)
            os.close(self.w_in)
            os.close(self.r_out)
            self.pid = None

    def __call__(self, plan: dict) -> bool:
        key = json.dumps(plan, sort_keys=True)
        if key in self.cache:
            return self.cache[key]
        if REAL_MONOTONIC() > self.deadline:
            return False
        self.tried += 1
        if self.pid is None:
            self._start()
        ok = False
        try:
            os.write(self.w_in, pickle.dumps(plan))
            left = max(0.1, min(20.0, self.deadline - REAL_MONOTONIC() + 1))
            got, _, _ = select.select([self.r_out], [], [], left)
            data = os.read(self.r_out, 1) if got else b""
            ok = data == b"1"
            if not data:
                self.stop()
        except (BrokenPipeError, OSError):
            self.stop()
        self.cache[key] = ok
        return ok


def _ddmin(items: list, test) -> list:
    """Smallest sublist found for which test(sublist) holds."""
    n = 2
    while len(items) >= 1:
        size = max(1, len(items) // n)
        for i in range(0, len(items), size):
            cand = items[:i] + items[i + size:]
            if test(cand):
                items = cand
                n = max(n - 1, 2)
                break
        else:
            if size == 1:
                break
            n = min(len(items), n * 2)
    return items


def _paths(node, path=()):
    """Paths of all nested lists and numbers of an operation or a configuration value."""
    if isinstance(node, list):
        if path:
            yield path, node
        for i, x in enumerate(node):
            yield from _paths(x, path + (i,))
    elif isinstance(node, dict):
        for k, x in node.items():
            yield from _paths(x, path + (k,))
    elif isinstance(node, (int, float)) and not isinstance(node, bool):
        yield path, node


def _set(node, path, value):
    for p in path[:-1]:
        node = node[p]
    node[path[-1]] = value


def minimise(plan: dict, test: Oracle) -> dict:
    """Greedy rounds of simplifications, until nothing gets simpler or the time is over."""
    best = copy.deepcopy(plan)

    def attempt(change) -> bool:
        nonlocal best
        cand = copy.deepcopy(best)
        try:
            change(cand)
        except (KeyError, IndexError):
            return False
        if cand != best and test(cand):
            best = cand
            return True
        return False

    for _round in range(4):
        before = json.dumps(best)

        # Scheduler faults.
        for k, v in (("eager", None), ("late_p", None), ("late_us", None), ("ties", False), ("hash", "fifo"), ("t0", 0.0)):
            def sched(p, k=k, v=v):
                if v is None:
                    p["sched"].pop(k, None)
                    if k == "late_p":
                        p["sched"].pop("late_us", None)
                else:
                    p["sched"][k] = v
            attempt(sched)

        for k in ("frac",):
            attempt(lambda p, k=k: p["sched"].pop(k))
        for k in ("early", "again"):
            attempt(lambda p, k=k: p.pop(k))
        if best.get("shutdown"):
            at = best["shutdown"]["at"]
            for v in (1, 2, 3, 5, at // 4, at // 2, at - 2, at - 1):
                if 0 < v < best["shutdown"]["at"] and attempt(lambda p, v=v: _set(p, ("shutdown", "at"), v)):
                    break

        # Actors.
        def with_actors(actors):
            cand = dict(best, actors=actors)
            return test(cand)

        best = dict(best, actors=_ddmin(list(best["actors"]), with_actors))

        # Operations of each actor.
        for ai in range(len(best["actors"])):
            def with_ops(ops, ai=ai):
                cand = copy.deepcopy(best)
                cand["actors"][ai]["ops"] = ops
                return test(cand)

            ops = _ddmin(list(best["actors"][ai]["ops"]), with_ops)
            best = copy.deepcopy(best)
            best["actors"][ai]["ops"] = ops

        # Nested lists and numbers in the operations.
        for ai in range(len(best["actors"])):
            for oi in range(len(best["actors"][ai]["ops"])):
                op = best["actors"][ai]["ops"][oi]
                if op[0] in ("yield", "sleep", "stall") and len(op) > 1:
                    for v in ([0, 1, 2] if op[0] != "yield" else [1]):
                        if v < op[1] and attempt(lambda p, v=v: _set(p["actors"][ai]["ops"][oi], (1,), v)):
                            break
                    continue
                for path, val in list(_paths(op)):
                    if path == (0,) or isinstance(val, (int, float)):
                        continue

                    def sub(lst, path=path):
                        cand = copy.deepcopy(best)
                        _set(cand["actors"][ai]["ops"][oi], path, lst)
                        return test(cand)

                    if not val:
                        continue
                    try:
                        small = _ddmin(list(val), sub)
                    except (KeyError, IndexError, TypeError):
                        continue
                    attempt(lambda p, path=path, small=small: _set(p["actors"][ai]["ops"][oi], path, small))
        if json.dumps(best) == before or REAL_MONOTONIC() > test.deadline:
            break
    return best
