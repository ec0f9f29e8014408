"""Helpers shared by the plan generators."""

from __future__ import annotations


def gen_sched(rng, timers=False) -> dict:
    r = rng.random()
    s = {
        "seed": rng.randrange(1 << 30),
        "t0": rng.choice([0.0, 0.0, 0.0, 1.5, 1234.567891, 98765.4321]),
        "hash": rng.choice(["seeded", "seeded", "fifo", "name", "rname"]),
        "ties": rng.random() < 0.8,
        "reuse_ids": rng.random() < 0.85,
    }
    if rng.random() < 0.1:
        s["eager"] = True  # tasks start at once (asyncio.eager_task_factory)
    if rng.random() < (0.25 if timers else 0.08):
        s["frac"] = True
    if r < 0.25:
        s["late_p"] = rng.choice([0.1, 0.4])
        s["late_us"] = rng.choice([3, 30, 400])
    return s


class Pace:
    """How the actors of one run are spaced in time (chosen once per run)."""

    def __init__(self, rng) -> None:
        self.rng = rng
        self.style = rng.choice(["burst", "yields", "yields", "slots", "mixed", "mixed"])
        self.step = rng.choice([1, 10, 1000])

    def gap(self) -> list:
        """Ops to put between two operations."""
        rng = self.rng
        st = self.style
        if st == "mixed":
            st = rng.choice(["burst", "yields", "slots"])
        if st == "burst":
            return [] if rng.random() < 0.8 else [["yield", rng.randrange(1, 4)]]
        if st == "yields":
            r = rng.random()
            if r < 0.35:
                return []
            if r < 0.9:
                return [["yield", rng.randrange(1, 5)]]
            return [["sleep", self.step * rng.randrange(0, 3)]]
        r = rng.random()
        if r < 0.2:
            return []
        if r < 0.3:
            return [["yield", rng.randrange(1, 3)]]
        return [["sleep", self.step * rng.choice([0, 1, 1, 2, 3])]]

    def timeout(self, p: float):
        rng = self.rng
        if rng.random() >= p:
            return None
        return self.step * rng.choice([0, 1, 1, 2, 2, 3])


def recv_ops(rng, pace, rids, n, *, p_timeout=0.15, p_bg=0.15, p_ready=0.3, iters=True) -> list:
    """A mix of the ways to take messages from receivers."""
    ops: list = []
    for _ in range(n):
        rid = rng.choice(rids)
        r = rng.random()
        if r < p_bg:
            ops.append(["bg", rid, rng.choice([0, 1, 1, 2, 3, 5])])
        elif r < p_bg + p_ready:
            q = rng.random()
            if q < 0.5:
                ops.append(["rc", rid, pace.timeout(p_timeout), rng.choice([0, 0, 1, 2, 3])])
            elif q < 0.8:
                ops.append(["ready", rid, pace.timeout(p_timeout)])
            else:
                ops.append(["consume", rid])
        else:
            q = rng.random()
            if q < 0.6:
                ops.append(["recv", rid, pace.timeout(p_timeout)])
            elif q < 0.8 or not iters:
                ops.append(["anext", rid, pace.timeout(p_timeout)])
            else:
                ops.append(["iter", rid, rng.randrange(1, 4), rng.choice([0, 0, 1, 2])])
        ops += pace.gap()
    return ops


def disruptor_ops(rng, pace, targets, n, *, extra=()) -> list:
    ops: list = []
    for _ in range(n):
        r = rng.random()
        if extra and r < 0.25:
            ops.append(list(rng.choice(extra)))
        elif r < 0.32:
            ops.append(["gc"])
        elif targets:
            ops.append(["cancel", rng.choice(targets)])
        ops += pace.gap() or [["yield", rng.randrange(0, 3)]]
    return ops


def sprinkle(rng, ops, item, p=1.0) -> None:
    """Insert an op at a random position."""
    if rng.random() < p:
        ops.insert(rng.randrange(len(ops) + 1), item)


def decoy(rng, actors, pace) -> bool:
    """Let some runs use a second channel, of the same name, next to the checked one."""
    if rng.random() > 0.2:
        return False
    ops: list = []
    for k in range(rng.randrange(1, 7)):
        ops.append(["dsend", k])
        ops += pace.gap()
        if rng.random() < 0.6:
            ops.append(["drecv"])
    if rng.random() < 0.5:
        ops.append(["dclose"])
        ops += pace.gap() + [["drecv"], ["drecv"]]
    actors.insert(rng.randrange(len(actors) + 1), {"n": "X", "ops": ops})
    return True
