"""Workloads over Timer receivers: C25 to C30 (and C11)."""

from __future__ import annotations

from datetime import timedelta

from frequenz.channels.timer import (
    MissedTickPolicy,
    SkipMissedAndDrift,
    SkipMissedAndResync,
    Timer,
    TriggerAllMissed,
)

from ..gen import Pace, disruptor_ops, gen_sched, recv_ops
from .base import Family, brief

POLICY_PROP = {"all": "C26", "resync": "C27", "drift": "C28", "custom": "C25"}


def us(n) -> timedelta:
    return timedelta(microseconds=n)


class Custom(MissedTickPolicy):
    """A user-defined policy; also checks what it is given."""

    def __init__(self, fam, rid, mode):
        self.fam, self.rid, self.mode = fam, rid, mode

    def calculate_next_tick_time(self, *, interval, scheduled_tick_time, now):
        m = self.fam.rs[self.rid].m
        w = self.fam.world
        clock = self.fam.clock(self.rid)
        if (interval, now) != (m.interval, clock) or (m.next is not None and scheduled_tick_time != m.next):
            w.violate("C25", "policy-arguments",
                      f"policy of {self.rid} got interval={interval} now={now} scheduled={scheduled_tick_time}, "
                      f"expected {m.interval} {clock} {m.next}")
        return policy_next(("custom", self.mode), interval, scheduled_tick_time, now, 0)


def policy_next(pol, interval, sched, now, start) -> int:
    """The reference model of the missed tick policies."""
    kind, arg = pol
    if kind == "all":
        return sched + interval
    if kind == "resync":
        return start + ((now - start) // interval + 1) * interval
    if kind == "drift":
        return now + interval if now - sched > arg else sched + interval
    return sched + interval * arg[0] + arg[1]


class OtherClock:
    """An event loop whose clock started at another time."""

    def __init__(self, loop, offset) -> None:
        self._real, self.offset = loop, offset

    def time(self) -> float:
        return self._real.time() + self.offset / 1e6

    def call_at(self, when, *args, **kw):
        return self._real.call_at(when - self.offset / 1e6, *args, **kw)

    def __getattr__(self, name):
        return getattr(self._real, name)


class Model:
    """Reference model of one timer."""

    def __init__(self, interval, pol):
        self.interval = interval
        self.pol = pol
        self.running = False
        self.fresh = True  # created with auto_start=False and not used yet
        self.next = None
        self.pend = None  # drift of a tick that is ready and not consumed
        self.pend_at = 0  # when it became ready
        self.start = 0
        self.n = 0  # ticks since the start
        self.explicit = False  # started by reset()
        self.by_use = False  # started by the first use of it
        self.stop_due = None

    def reset(self, now, delay, explicit):
        self.running, self.fresh, self.pend = True, False, None
        self.start = now + delay
        self.next = self.start + self.interval
        self.n = 0
        self.explicit = explicit
        self.by_use = False
        self.stop_due = None

    def stop(self, now):
        if self.running and self.next is not None:
            self.stop_due = max(self.next, now)
        elif self.stop_due is None:
            self.stop_due = now
        self.running = self.fresh = False


def build_policy(fam, rid, pol):
    kind, arg = pol
    if kind == "all":
        return TriggerAllMissed()
    if kind == "resync":
        return SkipMissedAndResync()
    if kind == "drift":
        return SkipMissedAndDrift(**({"delay_tolerance": us(arg)} if arg else {}))
    return Custom(fam, rid, arg)


class TimerFamily(Family):
    GENERIC = ("C25", "C29", "C30")

    async def build(self) -> None:
        self.policies: dict = {}
        self.loops: dict = {}  # those that were given to the timers
        for spec in self.cfg["timers"]:
            self.new_timer(spec)

    def clock(self, rid) -> int:
        """Microseconds, of the clock the timer uses."""
        loop = self.loops.get(rid)
        return self.world.loop.now_us() + (loop.offset if isinstance(loop, OtherClock) else 0)

    def new_timer(self, spec) -> None:
        w = self.world
        rid, pol = spec["id"], spec["policy"]
        kw = {}
        if not spec["auto"]:
            kw["auto_start"] = False
        elif spec["delay"]:
            kw["start_delay"] = us(spec["delay"])
        loop = None
        if spec.get("clk"):
            loop = kw["loop"] = OtherClock(w.loop, spec["clk"])
            w.count("timer_with_another_clock")
        elif spec["loop"]:
            loop = kw["loop"] = w.loop
        self.loops[rid] = loop
        now = self.clock(rid)
        # Policies have no state of their own: timers may share one.
        policy = self.policies.get(tuple(pol)) if pol[0] != "custom" and self.cfg.get("shared") else None
        if policy is None:
            policy = self.policies[tuple(pol) if pol[0] != "custom" else rid] = build_policy(self, rid, pol)
        tm = Timer(us(spec["interval"]), policy, **kw)
        st = self.add_recv(rid, tm)
        st.comp = ("C25", "C29", "C30", POLICY_PROP[pol[0]])
        st.can_restart = True
        st.m = Model(spec["interval"], pol)
        st.policy = policy
        if spec["auto"]:
            st.m.reset(now, spec["delay"], False)
        self.check_running(st)

    def inspectables(self):
        return [*super().inspectables(), *((f"the policy of {rid}", st.policy) for rid, st in self.rs.items())]

    def truths(self):
        for rid, st in self.rs.items():
            yield f"{rid}.interval", st.recv.interval, us(st.m.interval)
            yield f"{rid}.missed_tick_policy", st.recv.missed_tick_policy, st.policy
            yield f"{rid}.loop", st.recv.loop, self.loops[rid] or self.world.loop
            yield f"{rid}.is_running", st.recv.is_running, st.m.running
            if st.m.pol[0] == "drift":
                yield f"tolerance of {rid}", st.policy.delay_tolerance, us(st.m.pol[1])

    def describe(self, st, value):
        return round(value.total_seconds() * 1e6) if isinstance(value, timedelta) else f"?{value!r}"

    def stop_names_receiver(self, st, via) -> bool:
        return False

    # -- model -----------------------------------------------------------------------------
    def check_running(self, st) -> None:
        if st.recv.is_running is not st.m.running:
            self.world.violate(("C30", "C29"), "is_running",
                               f"{st.rid}.is_running is {st.recv.is_running}, expected {st.m.running}")

    def using(self, st) -> None:
        m = st.m
        if m.fresh:
            m.reset(self.clock(st.rid), 0, False)
            m.by_use = True
            self.world.count("timer_started_by_use")

    def blame(self, m):
        """Properties that fix the time of the next tick."""
        if m.n == 0:
            props = {"C29"} if m.explicit else {"C25", "C30"} if m.by_use else {"C25"}
            return props | ({POLICY_PROP[m.pol[0]]} if m.pol[0] in ("all", "resync") else set())
        return {POLICY_PROP[m.pol[0]]}

    def tick(self, st) -> int | None:
        """ready() produced a tick right now; returns the expected drift."""
        w, m = self.world, st.m
        now = self.clock(st.rid)
        if not m.running:
            w.violate("C30", "tick-while-stopped", f"{st.rid} ticked although it is stopped")
            return None
        sched = m.next
        if now < sched:
            w.violate({"C25"} | self.blame(m), "early-tick", f"{st.rid} ticked at {now}, scheduled for {sched}")
        m.next = policy_next(m.pol, m.interval, sched, now, m.start)
        if now - sched > 0:
            w.count("late_tick")
            if now - sched >= m.interval:
                w.count("missed_ticks")
        m.n += 1
        m.last_sched = sched
        m.last_blame = None
        return now - sched

    def became_ready(self, st) -> None:
        st.ready_true = True
        m = st.m
        if m.pend is None:
            blame = self.blame(m)
            d = self.tick(st)
            m.pend = (d if d is not None else -1, blame)
            m.pend_at = self.clock(st.rid)

    def got(self, st, value, actor) -> None:
        w, m = self.world, st.m
        if not isinstance(value, timedelta):
            w.violate("C25", "tick-value", f"{st.rid} delivered {value!r}")
            return
        drift = round(value.total_seconds() * 1_000_000)
        if m.pend is not None:
            exp, blame = m.pend
            m.pend = None
        else:
            blame = self.blame(m)
            exp = self.tick(st)
            if exp is None:
                return
        if drift < 0:
            w.violate("C25", "negative-drift", f"{st.rid} ticked with drift {drift}")
        if drift != exp:
            w.violate(blame | ({"C25"} if m.n <= 1 else set()), "wrong-drift",
                      f"{st.rid} ticked with drift {drift} us, expected {exp} us (tick {m.n} after its start)")

    def stop_reported(self, st, actor) -> None:
        w, m = self.world, st.m
        if m.running:
            w.violate(("C30", "C29"), "stop-while-running", f"{st.rid} reported a stop but is running")
        elif m.pend is not None:
            w.violate("C11", "stop-before-pending-tick", f"{st.rid} reported its stop, a tick is pending")

    def ready_false(self, st) -> None:
        self.stop_reported(st, None)

    # -- operations ------------------------------------------------------------------------
    async def op_reset(self, a, rid, delay) -> None:
        st = self.usable(rid)
        w = self.world
        w.log(a.name, "reset", rid, delay)
        now = self.clock(rid)
        if delay is not None and delay < 0:
            w.count("rejected_reset")
            try:
                st.recv.reset(start_delay=us(delay))
            except ValueError:
                pass
            except Exception as e:  # noqa: BLE001
                w.violate("C29", "reset-raised", f"reset with a negative delay raised {brief(e)}")
            else:
                w.violate("C29", "reset-accepted", "reset accepted a negative delay")
            self.check_running(st)
            return
        try:
            if delay is None:
                st.recv.reset()
            else:
                st.recv.reset(start_delay=us(delay))
        except Exception as e:  # noqa: BLE001
            w.violate("C29", "reset-raised", f"reset raised {brief(e)}")
            return
        if st.inflight:
            w.count("reset_while_waiting")
        if st.m.pend is not None:
            w.count("reset_with_pending_tick")
        st.m.reset(now, delay or 0, True)
        st.ready_true = False
        st.stopped = False
        st.last_ready = None
        st.uses += 1
        self.check_running(st)

    async def op_badnew(self, a, what) -> None:
        """Timers and policies that must be refused."""
        w = self.world
        w.log(a.name, "badnew", what)
        w.count("rejected_timer")
        try:
            if what == "tolerance":
                SkipMissedAndDrift(delay_tolerance=us(-1))
            elif what == "delay":
                Timer(us(5), TriggerAllMissed(), start_delay=us(-1))
            elif what == "delay-no-start":
                Timer(us(5), TriggerAllMissed(), auto_start=False, start_delay=us(3))
            elif what == "negative-delay-no-start":
                Timer(us(5), TriggerAllMissed(), auto_start=False, start_delay=us(-3))
            else:
                Timer(us(what), TriggerAllMissed(), auto_start=what != -5)
        except ValueError:
            pass
        except Exception as e:  # noqa: BLE001
            w.violate("C25", "bad-timer-raised", f"a timer with a bad {what} raised {brief(e)}")
        else:
            w.violate("C25", "bad-timer-accepted", f"a timer with a bad {what} was accepted")

    async def op_stop(self, a, rid) -> None:
        st = self.usable(rid)
        w = self.world
        w.log(a.name, "stop", rid)
        try:
            st.recv.stop()
        except Exception as e:  # noqa: BLE001
            w.violate("C30", "stop-raised", f"stop raised {brief(e)}")
            return
        if st.inflight:
            w.count("stop_while_waiting")
        st.m.stop(self.clock(rid))
        st.last_ready = None
        self.check_running(st)

    async def op_consume(self, a, rid) -> None:
        st = self.usable(rid)
        if st is not None and (st.ready_true or (st.m.pend is None and not st.m.running and not st.m.fresh)):
            try:
                out, val = "ok", st.recv.consume()
            except Exception as e:  # noqa: BLE001
                out, val = "exc", e
            self._outcome(st, out, val, a, "consume")

    def quiescent(self) -> None:
        super().quiescent()
        w = self.world
        if w.stop_now or not self.init_task.done():
            return
        for st in self.rs.values():
            self.check_running(st)
        for who, kind, rid in self.blocked():
            if kind not in self.WAITS:
                continue
            m = self.rs[rid].m
            now = self.clock(rid)
            if m.pend is not None:
                # Waiters that came in the same microsecond may wake up within a microsecond, if the
                # clock is not exact (its values are floats).
                if now > m.pend_at + 1 or not (self.plan["sched"].get("frac") or w.loop.time() > 1e6):
                    w.violate(("C11", "C25"), "waiter-stuck-although-ready",
                              f"{who} waits in {kind}({rid}), for which ready() already returned True")
            elif m.running:
                if now > m.next + 1:
                    w.violate({"C25"} | self.blame(m), "late",
                              f"{who} still waits in {kind}({rid}) {now - m.next} us after the scheduled tick")
            elif m.stop_due is not None and now > m.stop_due + 1:
                w.violate("C30", "stuck-after-stop",
                          f"{who} still waits in {kind}({rid}) {now - m.stop_due} us after the last tick it could get")

    def epilogue(self) -> None:
        w = self.world
        acts = []
        for rid, st in self.rs.items():
            iv = st.m.interval
            ops = [["recv", rid, None]] * 2 + [["sleep", iv], ["recv", rid, None], ["stall", 3 * iv + 1]]
            ops += [["recv", rid, None]] * 5
            ops += [["stop", rid], ["recv", rid, None], ["recv", rid, None], ["ready", rid, None],
                    ["sleep", 2 * iv], ["anext", rid, None], ["reset", rid, 0], ["recv", rid, None]]
            acts.append((f"e:{rid}", ops))
        self.phase_ops("end", acts)
        if w.stop_now or w.loop.capped:
            return
        for a in w.actors.values():
            if not a.finished:
                w.violate(("C25", "C30"), "stuck", f"{a.name} waits forever")

    def summary(self):
        return sorted((str(k), s.n_got) for k, s in self.rs.items())

    def model_state(self):
        return tuple(sorted((s.m.pol[0], s.m.running, s.m.fresh, s.m.pend is not None, s.inflight,
                             0 if s.m.next is None else (s.m.next - self.clock(s.rid) > 0))
                            for s in self.rs.values()))


def gen_policy(rng, prop):
    kind = {"C26": "all", "C27": "resync", "C28": "drift"}.get(prop)
    if kind is None or rng.random() < 0.1:
        kind = rng.choice(["all", "resync", "drift", "custom", "custom"] if prop == "C25" else
                          ["all", "resync", "drift", "custom"])
    return kind


def gen_timer(rng, prop, rid):
    iv = rng.choice([1, 2, 3, 7, 10, 100, 1000, 1000, 33_333, 1_000_000, 1_000_000, 3_600_000_000,
                     rng.choice([86_400_000_000, 100_000_000_007, 691_200_000_000])])
    kind = gen_policy(rng, prop)
    arg = None
    if kind == "drift":
        arg = rng.choice([0, 0, 1, iv // 10, iv // 2, iv, 2 * iv])
    elif kind == "custom":
        arg = rng.choice([[1, 0], [1, 1], [2, 0], [1, iv // 2], [3, 5], [0, 1]])
    auto = rng.random() < 0.8
    return {"id": rid, "interval": iv, "policy": [kind, arg], "auto": auto,
            "delay": rng.choice([0, 0, 1, iv // 3, iv, 5 * iv]) if auto else 0, "loop": rng.random() < 0.3}


LONG = 10_000_000_000  # floats, which clocks are, have microseconds up to some decades only


def around(rng, iv) -> int:
    """A duration whose relation to the interval matters."""
    if rng.random() < 0.08:  # many missed ticks at once
        return iv * rng.choice([11, 33, 70, 130, 1100] if iv < LONG else [3, 7, 11]) + rng.choice([0, 0, 1, iv // 3])
    return max(0, rng.choice([0, 1, iv // 10, iv // 2, iv - 1, iv, iv, iv + 1, 2 * iv, 2 * iv + iv // 3, 5 * iv + 1,
                              rng.randrange(0, 4 * iv + 1)]))


def generate(rng, prop, tier) -> dict:
    n = rng.choice([1, 1, 1, 2])
    specs = [gen_timer(rng, prop, f"t{i}") for i in range(n)]
    if n == 2 and rng.random() < 0.5:
        specs[1]["interval"] = specs[0]["interval"]
        specs[1]["policy"] = list(specs[rng.randrange(2)]["policy"])
    for s in specs:  # a tolerance or offset may refer to the interval drawn first
        if s["policy"][0] == "drift":
            s["policy"][1] = rng.choice([0, 0, 1, s["interval"] // 10, s["interval"] // 2, s["interval"],
                                         s["interval"] * 3 // 2, 2 * s["interval"], 5 * s["interval"], 1000])
    resets = rng.random() < {"C29": 1.0, "C30": 0.6}.get(prop, 0.25)
    stops = rng.random() < {"C30": 1.0}.get(prop, 0.2)
    cancels = rng.random() < (0.7 if prop == "C11" else 0.35)
    stalls = rng.random() < {"C25": 0.6, "C26": 0.9, "C27": 0.9, "C28": 0.9}.get(prop, 0.4)
    actors = []
    for s in specs:
        rid, iv = s["id"], s["interval"]
        for k in range(rng.choice([1, 1, 1, 2]) if rng.random() < 0.95 else 5):
            ops = [["sleep", around(rng, iv)]] if rng.random() < 0.4 else []
            pace = Pace(rng)
            for _ in range(rng.randrange(1, 10)):
                r = rng.random()
                if r < 0.7:
                    ops += recv_ops(rng, pace, [rid], 1, p_timeout=0, p_bg=0.15 if cancels else 0, p_ready=0.3)
                    if cancels and rng.random() < 0.3 and ops and ops[-1][0] in ("recv", "ready", "anext"):
                        ops[-1] = [ops[-1][0], rid, around(rng, iv)]
                if stalls and rng.random() < 0.35:
                    ops.append(["stall", around(rng, iv)])
                elif rng.random() < 0.3:
                    ops.append(["sleep", around(rng, iv)])
                elif rng.random() < 0.2:
                    ops.append(["yield", rng.randrange(1, 4)])
                if resets and rng.random() < 0.12:
                    ops.append(["reset", rid, rng.choice([None, 0, around(rng, iv)])])
            actors.append({"n": f"R{k}{rid}", "ops": ops})
    if rng.random() < 0.015:  # for a long time
        actors[0]["ops"] += [["recv", specs[0]["id"], None]] * rng.choice([70, 140, 270])
    names = [a["n"] for a in actors]
    for d in range(rng.choice([1, 1, 2])):
        s = rng.choice(specs)
        rid, iv = s["id"], s["interval"]
        ops = []
        for _ in range(rng.randrange(1, 7)):
            ops.append(rng.choice([["sleep", around(rng, iv)], ["sleep", around(rng, iv)],
                                   ["yield", rng.randrange(1, 4)]]))
            choices = []
            if resets:
                choices += [["reset", rid, rng.choice([None, 0, iv // 2, around(rng, iv), -1])]] * 3
            if stops:
                choices += [["stop", rid]] * 2
            if stops and resets:
                choices.append(["stop", rid])
            if stalls:
                choices.append(["stall", around(rng, iv)])
            if cancels:
                choices.append(["cancel", rng.choice(names)])
            if rng.random() < 0.1:
                choices = [["badnew", rng.choice([0, -1, -5, "delay", "delay-no-start", "negative-delay-no-start", "tolerance"])]]
            choices.append(["wall", rng.choice([-10**12, -5 * iv, 7 * iv, 10**13])])
            ops.append(rng.choice(choices))
        actors.append({"n": f"D{d}", "ops": ops})
    rng.shuffle(actors)
    sched = gen_sched(rng, timers=True)
    if not sched.get("frac"):
        for s in specs:
            if rng.random() < 0.06:
                s["clk"] = rng.choice([1, 999_999, 86_400_000_001, 1_700_000_000_000_000 if s["interval"] < LONG else 1000])
    if rng.random() < 0.3:
        iv = rng.choice(specs)["interval"]
        sched["late_p"] = rng.choice([0.2, 0.6])
        sched["late_us"] = max(2, rng.choice([2, iv // 10 + 1, iv, 3 * iv]))
    return {"family": "timer", "cfg": {"timers": specs, "shared": rng.random() < 0.3}, "actors": actors, "sched": sched}
