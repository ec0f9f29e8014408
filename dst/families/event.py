"""Workloads over Event receivers: C24 (and C11, C12)."""

from __future__ import annotations

from frequenz.channels.event import Event

from ..gen import Pace, disruptor_ops, gen_sched, recv_ops, sprinkle
from .base import Family, brief


class EventFamily(Family):
    GENERIC = ("C24",)

    async def build(self) -> None:
        for i in range(self.cfg["events"]):
            ev = Event(name=f"ev{i}" if i else None)
            st = self.add_recv(f"e{i}", ev)
            st.m_set = False
            st.m_stopped = False

    def truths(self):
        for i, (rid, st) in enumerate(self.rs.items()):
            yield f"{rid}.is_set", st.recv.is_set, st.m_set
            yield f"{rid}.is_stopped", st.recv.is_stopped, st.m_stopped
            if i:
                yield f"{rid}.name", st.recv.name, f"ev{i}"
                yield f"the name in str({rid})", f"ev{i}" in str(st.recv), True
            else:
                yield f"{rid} has a name", isinstance(st.recv.name, str) and bool(st.recv.name), True

    def describe(self, st, value):
        return "set" if value is None else f"?{value!r}"

    def stop_names_receiver(self, st, via) -> bool:
        return via in ("recv", "consume")

    def sync(self, a, rid, what, fn) -> None:
        """A synchronous method of the library."""
        w = self.world
        w.log(a.name, what, rid)
        try:
            fn()
        except Exception as e:  # noqa: BLE001
            w.violate("C24", f"{what}-raised", f"{what}() raised {brief(e)}")

    async def op_set(self, a, rid) -> None:
        st = self.rs[rid]
        if not st.m_stopped:
            if st.m_set:
                self.world.count("coalesced_set")
            st.m_set = True
        else:
            self.world.count("set_after_stop")
        self.sync(a, rid, "set", st.recv.set)
        self.check_flags(st)

    async def op_stop(self, a, rid) -> None:
        st = self.rs[rid]
        if st.m_set and not st.m_stopped:
            self.world.count("stop_with_pending_set")
        st.m_stopped = True
        self.sync(a, rid, "stop", st.recv.stop)
        self.check_flags(st)

    def check_flags(self, st) -> None:
        w = self.world
        if st.recv.is_stopped is not st.m_stopped:
            w.violate("C24", "is_stopped", f"{st.rid}.is_stopped is {st.recv.is_stopped}, expected {st.m_stopped}")
        if st.recv.is_set is not st.m_set:
            w.violate("C24", "is_set", f"{st.rid}.is_set is {st.recv.is_set}, expected {st.m_set}")

    def got(self, st, value, actor) -> None:
        w = self.world
        if value is not None:
            w.violate("C24", "value", f"{st.rid} delivered {value!r}")
        if not st.m_set:
            w.violate(("C24", "C11"), "receive-without-set", f"{st.rid}: a receive succeeded without a pending set()")
        st.m_set = False
        self.check_flags(st)

    def stop_reported(self, st, actor) -> None:
        w = self.world
        if not st.m_stopped:
            w.violate(("C24", "C12"), "stop-while-running", f"{st.rid} reported a stop but stop() was not called")
        elif st.m_set:
            w.violate(("C24", "C12", "C11"), "stop-before-set", f"{st.rid} reported its stop, a set() is pending")

    def ready_false(self, st) -> None:
        self.stop_reported(st, None)

    def became_ready(self, st) -> None:
        st.ready_true = True
        if not st.m_set:
            self.world.violate(("C24", "C11"), "ready-without-set", f"ready() on {st.rid} returned True without a set()")

    def quiescent(self) -> None:
        super().quiescent()
        w = self.world
        if w.stop_now or not self.init_task.done():
            return
        for st in self.rs.values():
            self.check_flags(st)
        for who, kind, target in self.blocked():
            if kind in self.WAITS:
                st = self.rs[target]
                if st.m_set:
                    w.violate(("C24", "C11"), "stuck-with-set", f"{who} waits in {kind}({target}) although it is set")
                elif st.m_stopped:
                    w.violate(("C24", "C12"), "stuck-after-stop", f"{who} waits in {kind}({target}) after stop()")

    def epilogue(self) -> None:
        w = self.world
        ops = []
        for rid in self.rs:
            ops += [["drain", rid, 5], ["set", rid], ["recv", rid, 5], ["stop", rid], ["recv", rid, 5],
                    ["recv", rid, None], ["ready", rid, None], ["anext", rid, None], ["consume", rid]]
        self.phase_ops("end", [("e:end", ops)])
        if w.stop_now or w.loop.capped:
            return
        for st in self.rs.values():
            if not st.stopped:
                w.violate(("C24", "C12"), "not-stopped", f"{st.rid} did not report its stop")

    def summary(self):
        return sorted((str(k), s.n_got) for k, s in self.rs.items())

    def model_state(self):
        return tuple(sorted((s.m_set, s.m_stopped, s.inflight) for s in self.rs.values()))


def generate(rng, prop, tier) -> dict:
    pace = Pace(rng)
    n = rng.choice([1, 1, 1, 2])
    rids = [f"e{i}" for i in range(n)]
    cancels = rng.random() < 0.6
    p_to = rng.choice([0, 0.15, 0.4]) if cancels else 0
    p_bg = rng.choice([0, 0.15, 0.3]) if cancels else 0
    actors = []
    for i in range(rng.choice([1, 2])):
        ops = list(pace.gap())
        for _ in range(rng.randrange(1, 10)):
            ops.append(["set", rng.choice(rids)])
            ops += pace.gap()
        actors.append({"n": f"S{i}", "ops": ops})
    for i in range(rng.choice([1, 1, 2, 3]) if rng.random() < 0.9 else rng.choice([6, 10])):
        ops = (pace.gap() if rng.random() < 0.5 else []) + recv_ops(
            rng, pace, rids, rng.randrange(1, 9), p_timeout=p_to, p_bg=p_bg, p_ready=rng.choice([0.1, 0.4]))
        actors.append({"n": f"R{i}", "ops": ops})
    if rng.random() < 0.015:  # for a long time
        actors[0]["ops"] += [op for _ in range(rng.choice([40, 70, 130])) for op in (["set", rids[0]], ["yield", 1], ["recv", rids[0], 5])]
    names = [a["n"] for a in actors if a["n"][0] == "R"]
    if cancels:
        actors.append({"n": "D0", "ops": disruptor_ops(rng, pace, names, rng.randrange(1, 7))})
        for a in actors:
            if a["ops"] and rng.random() < 0.4:
                a["ops"].insert(rng.randrange(len(a["ops"])) + 1, ["cancel", rng.choice(names)])
    for rid in rids:
        if rng.random() < 0.6:
            sprinkle(rng, rng.choice(actors)["ops"], ["stop", rid])
    rng.shuffle(actors)
    return {"family": "event", "cfg": {"events": n}, "actors": actors, "sched": gen_sched(rng)}
