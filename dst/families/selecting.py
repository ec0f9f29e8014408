"""Workloads over select() loops: C18 to C23 (and C11, C19 of the receivers in them)."""

from __future__ import annotations

import asyncio
import copy
import gc
import weakref
from datetime import timedelta

from frequenz.channels import (
    Anycast,
    Broadcast,
    Receiver,
    ReceiverStoppedError,
    Selected,
    SelectError,
    UnhandledSelectedError,
    merge,
    select,
    selected_from,
)
from frequenz.channels.event import Event
from frequenz.channels.file_watcher import Event as FileEvent
from frequenz.channels.file_watcher import EventType, FileWatcher
from frequenz.channels.timer import Timer, TriggerAllMissed

from ..core import coro_name
from ..gen import Pace, disruptor_ops, gen_sched, recv_ops
from ..simfs import CHANGE, SimFS, change
from .base import BOOMS, Family, brief, chain, gen_kind, make_boom

NUM = {v: k for k, v in CHANGE.items()}


class Source:
    """A channel feeding one port."""

    def __init__(self, sid, chan, sender):
        self.sid, self.chan, self.sender = sid, chan, sender
        self.accepted: list = []
        self.pos = 0
        self.closed = False
        self.limit = None  # of a bounded channel


class Mapped:
    __slots__ = ("value",)

    def __init__(self, value):
        self.value = value


class FlakyPort(Receiver):
    """A user-defined receiver: consume() fails for some messages, ready() fails at times."""

    def __init__(self, fam, inner, bad, ready_bad):
        self.fam, self.inner, self.bad, self.ready_bad = fam, inner, set(bad), set(ready_bad)
        self.n_ready = 0
        self.raised: list = []  # failures of ready() nobody has seen yet
        self.cleanup: list = []  # those of them that came while a loop was left, with the task
        self.on_cancel = None  # what ready() does when a loop that is left cancels it

    async def ready(self) -> bool:
        try:
            active = await self.inner.ready()
        except asyncio.CancelledError:
            if self.on_cancel is None or asyncio.current_task() not in self.fam.lib_tasks():
                raise
            if self.on_cancel == "slow":
                for _ in range(4):
                    await asyncio.sleep(0)
                raise
            self.n_ready += 1
            exc = make_boom(f"cleanup{self.n_ready}", self, self.n_ready)
            self.raised.append(exc)
            self.cleanup.append((asyncio.current_task().sim_no, exc))
            self.fam.world.count("cleanup_failed")
            raise exc from None
        self.n_ready += 1
        if self.n_ready in self.ready_bad:
            exc = make_boom(f"ready{self.n_ready}", self, self.n_ready)
            self.raised.append(exc)
            self.fam.world.count("ready_failed")
            raise exc
        return active

    def consume(self):
        v = self.inner.consume()
        if self.fam.mid_of(v) in self.bad:
            exc = make_boom(self.fam.mid_of(v), self, self.fam.mid_of(v))
            self.fam.last_boom = weakref.ref(exc)
            raise exc
        return v


class SameHashPort(FlakyPort):
    """A user-defined receiver with a hash of its own, which is not unique (hashes need not be)."""

    def __hash__(self) -> int:
        return 7


class EqualPort(SameHashPort):
    """A user-defined receiver that is equal to all of its kind."""

    def __eq__(self, other) -> bool:
        return isinstance(other, EqualPort)

    __hash__ = SameHashPort.__hash__


class LateStopPort(FlakyPort):
    """A user-defined receiver whose stop shows in consume() only: ready() never returns False."""

    async def ready(self) -> bool:
        await super().ready()
        return True


class DyingPort(FlakyPort):
    """A user-defined receiver that ends with an error: ready() returns False, consume() raises it (once)."""

    def __init__(self, *args):
        super().__init__(*args)
        self.final = None  # a weak reference to the error it ended with

    def consume(self):
        try:
            return super().consume()
        except ReceiverStoppedError:
            if self.final is not None:
                raise
        boom = make_boom("end", self, self.n_ready)
        self.final = weakref.ref(boom)
        self.fam.world.count("ended_with_an_error")
        raise boom


CLASSES = {None: FlakyPort, "hash": SameHashPort, "equal": EqualPort, "late": LateStopPort, "dying": DyingPort}
OWN_READY = ("late", "dying")  # their ready() does not tell the whole truth


# -- reference models of the receivers, one per port ------------------------------------------
class Port:
    """Messages of one or more channels, possibly mapped, merged or failing."""

    exact_stop = True

    def __init__(self, fam, spec):
        self.fam, self.spec, self.rid = fam, spec, spec["id"]
        self.sources: list[Source] = []
        self.bad: set = set()
        self.mapped = False
        self.flaky = None
        self.twins: list = []  # receivers much like this one, which nobody selects

    def has_item(self) -> bool:
        return any(s.pos < len(s.accepted) for s in self.sources)

    def stop_due(self) -> bool:
        return all(s.closed for s in self.sources) and not self.has_item()

    def take(self, value):
        """Returns an explanation if this is not what the receiver has to give."""
        mapped = isinstance(value, Mapped)
        if mapped:
            value = value.value
        mid = self.fam.mid_of(value)
        if mapped is not self.mapped:
            return f"{mid} was {'not ' if self.mapped else ''}mapped"
        if mid in self.bad:
            return f"{mid} instead of its error"
        return self._advance(mid)

    def _advance(self, mid):
        for s in self.sources:
            if s.pos < len(s.accepted) and s.accepted[s.pos] == mid:
                s.pos += 1
                self.fam.taken.add(mid)
                return None
        exp = [s.accepted[s.pos] for s in self.sources if s.pos < len(s.accepted)]
        if mid in self.fam.taken:
            return f"{mid} again"
        return f"{mid}, expected {exp}"

    def take_error(self, exc):
        if not isinstance(exc, BOOMS) or exc.mid not in self.bad:
            return f"the error {brief(exc)}"
        if self.fam.last_boom is None or exc is not self.fam.last_boom():
            return f"another error object than the one raised for {exc.mid}"
        return self._advance(exc.mid)

    def left(self):
        return [m for s in self.sources for m in s.accepted[s.pos:]]

    def waiting_tasks(self) -> int:
        """Background tasks this receiver legitimately has."""
        return len(self.sources) if self.spec["t"] == "merge" else 0

    def has_errors(self) -> bool:
        return bool(self.bad) or self.flaky is not None


class EventPort(Port):
    def __init__(self, fam, spec):
        super().__init__(fam, spec)
        self.m_set = self.m_stopped = False

    def has_item(self):
        return self.m_set

    def stop_due(self):
        return self.m_stopped and not self.m_set

    def take(self, value):
        if value is not None:
            return f"{value!r}"
        if not self.m_set:
            return "an event although it was not set"
        self.m_set = False
        return None

    def take_error(self, exc):
        return f"the error {brief(exc)}"

    def left(self):
        return ["set"] if self.m_set else []


class TimerPort(Port):
    """Always TriggerAllMissed: the schedule does not depend on when the timer is waited for."""

    exact_stop = False

    def __init__(self, fam, spec):
        super().__init__(fam, spec)
        self.iv = spec["interval"]
        self.running = True
        self.ticks = 0
        self.next = fam.world.loop.now_us() + self.iv
        self.stopped_at = 0

    def has_item(self):
        return self.running and self.fam.world.loop.now_us() > self.next + 1

    def stop_due(self):
        return not self.running and self.fam.world.loop.now_us() > max(self.next, self.stopped_at) + 1

    def may_stop(self):
        return not self.running

    def take(self, value):
        now = self.fam.world.loop.now_us()
        if not isinstance(value, timedelta):
            return f"{value!r}"
        if now < self.next:
            return f"a tick scheduled for {self.next} at {now}"
        if not self.running and self.next > self.stopped_at + 1:
            return f"a tick scheduled for {self.next}, the timer was stopped at {self.stopped_at}"
        drift = round(value.total_seconds() * 1e6)
        if not 0 <= drift <= now - self.next:
            return f"a tick with drift {drift}, it was scheduled for {self.next}, now is {now}"
        self.next += self.iv
        self.ticks += 1
        return None

    def take_error(self, exc):
        return f"the error {brief(exc)}"

    def reset(self, delay):
        self.running = True
        self.next = self.fam.world.loop.now_us() + delay + self.iv

    def stop(self):
        if self.running:
            self.stopped_at = self.fam.world.loop.now_us()
        self.running = False

    def left(self):
        return []


class WatchPort(Port):
    def __init__(self, fam, spec):
        super().__init__(fam, spec)
        self.queue: list = []
        self.seen: dict = {}
        self.ended = False

    def sync(self):
        for n in self.fam.fs.notifiers.get(self.rid, ()):
            k = self.seen.get(id(n), 0)
            for b in n.batches[k:]:
                self.queue.append([(NUM[c], str(p)) for c, p in b])
            self.seen[id(n)] = len(n.batches)
        while self.queue and not self.queue[0]:
            self.queue.pop(0)
        return self.queue

    def has_item(self):
        return bool(self.sync())

    def stop_due(self):
        return self.ended and not self.sync()

    def take(self, value):
        if not isinstance(value, FileEvent) or not isinstance(value.type, EventType):
            return f"{value!r}"
        ev = (NUM[value.type.value], str(value.path))
        q = self.sync()
        if not q or ev not in q[0]:
            return f"{ev}, expected one of {q[:1]}"
        q[0].remove(ev)
        return None

    def take_error(self, exc):
        return f"the error {brief(exc)}"

    def left(self):
        return list(self.sync())

    def waiting_tasks(self):
        return 1


PORTS = {"event": EventPort, "timer": TimerPort, "watch": WatchPort}


class Session:
    """One select() loop."""

    def __init__(self, sid, sts):
        self.sid = sid
        self.sts = sts
        self.reported: set = set()
        self.n = 0
        self.since: dict = {}  # rid -> number of items when it was first seen to have one
        self.active = True
        self.ending = False


class SelectFamily(Family):
    GENERIC = ("C18", "C21")

    def seams(self):
        self.fs = SimFS(self.world)
        return self.fs

    async def build(self) -> None:
        self.sources: dict[str, Source] = {}
        self.taken: set = set()
        self.last_boom = None
        self.sessions: dict = {}
        self.n_sessions = 0
        self.budget = self.cfg.get("budget", 60)
        self.left_early = False  # some loop was left before it was exhausted
        self.unsettled = False  # ... since the last quiescent moment
        for spec in self.cfg["ports"]:
            self.build_port(spec)
        self.foreign = Event(name="foreign")

    def source(self, s) -> tuple:
        sid = s["id"]
        if s["kind"] == "any":
            ch = Anycast(name=self.cfg.get("name") or sid, limit=s["limit"])
            recv = ch.new_receiver()
        else:
            ch = Broadcast(name=self.cfg.get("name") or sid)
            recv = ch.new_receiver(limit=100_000)
        src = self.sources[sid] = Source(sid, ch, ch.new_sender())
        if s["kind"] == "any":
            src.limit = s["limit"]
        return src, recv

    def build_port(self, spec) -> None:
        port = PORTS.get(spec["t"], Port)(self, spec)
        t = spec["t"]
        if t == "event":
            recv = Event(name=self.cfg.get("name") or spec["id"])
            port.twins.append(Event(name=recv.name))
        elif t == "timer":
            recv = Timer(timedelta(microseconds=spec["interval"]), TriggerAllMissed())
            port.twins.append(Timer(recv.interval, TriggerAllMissed(), auto_start=False))
        elif t == "watch":
            recv = FileWatcher(paths=[spec["id"]])
        else:
            recvs = []
            for s in spec["srcs"]:
                src, r = self.source(s)
                port.sources.append(src)
                recvs.append(r)
                if s["kind"] == "any":
                    port.twins.append(src.chan.new_receiver())
                elif self.world.prop != "C37":  # it would keep all the messages
                    port.twins.append(src.chan.new_receiver(limit=100_000))
            recv = merge(*recvs) if t == "merge" else recvs[0]
            inner = recv
        if spec.get("bad") is not None or spec.get("ready_bad") or spec.get("cls"):
            port.bad = set(spec["bad"] or ())
            if spec["map"]:
                recv = recv.map(self.mapping(port.bad))
                port.mapped = True
            else:
                recv = port.flaky = CLASSES[spec.get("cls")](self, recv, port.bad, spec["ready_bad"] or ())
                port.flaky.on_cancel = spec.get("on_cancel")
        elif spec.get("map"):
            recv = recv.map(self.mapping(()))
            port.mapped = True
        if "srcs" in spec and recv is not inner:
            port.twins.append(inner)
        st = self.add_recv(spec["id"], recv, comp=("C21",))
        st.port = port
        st.can_restart = t == "timer"
        if t in ("chan",) and len(port.sources) == 1:
            st.channel = port.sources[0].chan

    def mapping(self, bad):
        def f(value):
            mid = self.mid_of(value)
            if mid in bad:
                # Only a weak reference: its traceback refers to the loop that got the error.
                boom = make_boom(mid, None, mid)
                self.last_boom = weakref.ref(boom)
                raise boom
            return Mapped(value)

        return f

    def describe(self, st, value):
        if isinstance(value, Mapped):
            value = value.value
        if st.port.spec["t"] == "watch" and isinstance(value, FileEvent):
            return (value.type.name, str(value.path))
        if isinstance(value, timedelta):
            return round(value.total_seconds() * 1e6)
        return self.mid_of(value) if st.port.spec["t"] != "event" else repr(value)

    def close_props(self):
        return ()

    def inspectables(self):
        if not self.init_task.done():
            return []
        return [*((f"channel {k}", s.chan) for k, s in self.sources.items()), *super().inspectables(),
                *((f"a twin of {k}", t) for k, st in self.rs.items() for t in st.port.twins)]

    def truths(self):
        if not self.init_task.done():
            return
        for sid, s in self.sources.items():
            yield f"name of {sid}", s.chan.name, self.cfg.get("name") or sid
            if not s.closed:
                yield f"is_closed of {sid}", s.chan.is_closed, False
        for rid, st in self.rs.items():
            if isinstance(st.port, EventPort):
                yield f"{rid}.is_set", st.recv.is_set, st.port.m_set
                yield f"{rid}.is_stopped", st.recv.is_stopped, st.port.m_stopped
            elif isinstance(st.port, TimerPort):
                yield f"{rid}.is_running", st.recv.is_running, st.port.running

    def settled(self, mid) -> bool:
        return mid in self.taken

    def may_keep(self) -> int:
        return super().may_keep() + 2 * len(self.sources) + 3 * sum(s.active for s in self.sessions.values())

    def cancel_swallowed(self, actor, how, exc) -> None:
        if actor.blocked_on[0] in ("select", "aclose") and exc is not None:
            # Documented: failures of receivers while a loop is cleaned up take precedence.
            leaves = [e for e in chain(exc) if not isinstance(e, (BaseExceptionGroup, SelectError))]
            if leaves and all(isinstance(e, BOOMS) for e in leaves):
                self.world.count("failure_instead_of_cancellation")
                return
        super().cancel_swallowed(actor, how, exc)

    def stop_names_receiver(self, st, via) -> bool:
        return False

    def blame(self, st=None, extra=()):
        props = {"C18", *extra}
        if self.left_early:
            props.add("C21")
        if st is not None and st.port.has_errors():
            props.add("C23")
        return props

    def usable(self, rid, probe=False):
        st = super().usable(rid)
        return None if probe and st is not None and st.port.spec.get("cls") in OWN_READY else st

    async def op_ready(self, a, rid, timeout=None) -> bool:
        # Its ready() is the workload's own: only the loops and receive() are of interest.
        return await super().op_ready(a, rid, timeout) if self.usable(rid, True) else False

    async def op_bg(self, a, rid, k) -> None:
        if self.usable(rid, True):
            await super().op_bg(a, rid, k)

    # -- direct use between the loops ------------------------------------------------------
    def got(self, st, value, actor) -> None:
        for sess in self.sessions.values():  # it was served, although not by the loop
            sess.since.pop(st.rid, None)
        err = st.port.take(value)
        if err:
            self.world.violate(self.blame(st), "wrong-message", f"{st.rid} yielded {err}")

    def failed(self, st, exc, actor, via) -> None:
        fl = st.port.flaky
        if fl is not None and exc in fl.raised:
            fl.raised.remove(exc)
            return
        if self.final_error(st, exc):
            self.stop_reported(st, actor)
            return
        err = st.port.take_error(exc)
        if err:
            self.world.violate(self.blame(st), "wrong-error", f"{via} on {st.rid} raised {err}")

    def failed_ready(self, st, exc) -> None:
        fl = st.port.flaky
        if fl is not None and exc in fl.raised:
            fl.raised.remove(exc)
            return
        super().failed_ready(st, exc)

    @staticmethod
    def final_error(st, exc) -> bool:
        final = getattr(st.port.flaky, "final", None)
        return final is not None and exc is final()

    def stop_reported(self, st, actor) -> None:
        p = st.port
        due = p.stop_due() if p.exact_stop else p.may_stop()
        if not due:
            self.world.violate(self.blame(st, {"C19"}), "stop-too-early",
                               f"{st.rid} reported its stop, undelivered: {p.left()[:5]}")

    def ready_false(self, st) -> None:
        self.stop_reported(st, None)

    # -- operations ------------------------------------------------------------------------
    async def op_send(self, a, sid, mid, kind) -> None:
        w = self.world
        src = self.sources[sid]
        w.log(a.name, "send?", sid, mid)
        in_body = any(s.active and s.actor == a.name for s in self.sessions.values())
        out, val = await a.call(src.sender.send(self.new_msg(mid, kind)), ("send", mid), 7 if in_body else None)
        w.log(a.name, "send", mid, out)
        if out == "ok":
            src.accepted.append(mid)

    async def op_flood(self, a, sid, mid, n) -> None:
        for i in range(n):
            await self.op_send(a, sid, mid + i, "n")

    async def op_close(self, a, sid) -> None:
        src = self.sources[sid]
        self.world.log(a.name, "close", sid)
        self.world.count("close")
        src.closed = True
        await a.call(src.chan.close(), ("close", sid))

    def spend(self) -> bool:
        """Loop bodies repeat; what they may add to a run is limited, so that it comes to an end."""
        self.budget -= 1
        return self.budget >= 0

    async def op_set(self, a, rid) -> None:
        st = self.rs[rid]
        if any(s.active and s.actor == a.name for s in self.sessions.values()) and not self.spend():
            return
        self.world.log(a.name, "set", rid)
        if not st.port.m_stopped:
            st.port.m_set = True
        st.recv.set()

    async def op_stop(self, a, rid) -> None:
        st = self.rs[rid]
        self.world.log(a.name, "stop", rid)
        if st.port.spec["t"] == "event":
            if st.port.m_set:
                self.world.count("stop_with_pending_set")
            st.port.m_stopped = True
        else:
            st.port.stop()
            st.last_ready = None
        st.recv.stop()

    MAX_TICKS = 25  # every run comes to an end

    async def op_reset(self, a, rid, delay) -> None:
        st = self.rs[rid]
        if st.port.ticks >= self.MAX_TICKS or self.phase not in ("main", "drain", "cancel", "again"):
            return
        self.world.log(a.name, "reset", rid, delay)
        self.world.count("timer_reset_in_body")
        st.recv.reset(start_delay=timedelta(microseconds=delay))
        st.port.reset(delay)
        st.ready_true, st.stopped, st.last_ready = False, False, None

    async def op_fs(self, a, rid, changes) -> None:
        n = self.fs.current(rid)
        self.world.log(a.name, "fs", rid, changes, n is not None)
        if n is not None:
            n.report([change(k, p) for k, p in changes])

    async def op_fsend(self, a, rid) -> None:
        n = self.fs.current(rid)
        self.world.log(a.name, "fsend", rid, n is not None)
        st = self.rs[rid]
        if n is not None and not st.port.ended:
            st.port.ended = True
            n.finish("stop")

    async def op_steal(self, a, rid) -> None:
        """Take a message directly, in the body of the loop that selects this receiver."""
        if not self.spend():
            return
        self.world.count("direct_receive_in_body")
        await self.op_recv(a, rid, 3)

    # -- the loop ----------------------------------------------------------------------------
    async def op_select(self, a, rids, spec) -> None:
        w = self.world
        sts = [self.rs[r] for r in rids if not any(s.active and self.rs[r] in s.sts for s in self.sessions.values())]
        if not sts:
            return
        given = [s.recv for s in sts]
        sts = list(dict.fromkeys(sts))
        self.n_sessions += 1
        sess = Session(self.n_sessions, sts)
        sess.actor = a.name
        sess.first_task = w.loop._task_no + 1
        self.sessions[sess.sid] = sess
        w.count("select_loops")
        w.log(a.name, "select?", sess.sid, [s.rid for s in sts])
        for st in sts:
            st.ready_true = False
            st.last_ready = None
        it = select(*given)
        del given
        how = None
        try:
            # Like in an `async for`, no variable has the generator: what an exception that is
            # kept somewhere refers to is not what keeps it alive.
            box = [it]
            del it
            how = await self.loop_over(a, sess, box, spec)
        finally:
            if how != "aclose":
                box.clear()
                sess.active = False
        for st in sess.sts:
            st.ready_true = False
        w.log(a.name, "select", sess.sid, how)
        w.count("select_exit_" + how)
        if how in ("break", "raise"):
            # The generator is finalized by the garbage collection and the event loop.
            self.left_early = self.unsettled = True
        elif how == "aclose":
            self.left_early = True
            out, val = await a.call(box.pop().aclose(), ("aclose", sess.sid), None)
            sess.active = False
            if out == "exc" and not self.planted(sess, val):
                w.violate(("C21",), "aclose-raised", f"closing a select() loop raised {brief(val)}")
            elif out == "spurious_cancel":
                w.violate(("C21",), "spurious-cancel", "closing a select() loop raised CancelledError")
            if out == "cancelled":
                self.unsettled = True
            else:
                self.cleanup_reported(sess, "closed")
                self.no_tasks_left("it was closed")
        elif how in ("cancelled", "error"):
            self.left_early = True
            if how == "cancelled" and any(st.port.spec.get("on_cancel") == "slow" for st in sess.sts):
                self.unsettled = True  # it may have been cancelled again while it was waiting for them
            if sess.ending:
                # Cancelled while it was ending because of something else: nobody waits for its tasks.
                w.count("cancelled_while_ending")
                self.unsettled = True
            else:
                self.cleanup_reported(sess, how)
            self.no_tasks_left("an error" if how == "error" else "a cancellation")

    def cleanup_reported(self, sess, how) -> None:
        """A loop that waits for its tasks was left: their failures have to be reported."""
        for st in sess.sts:
            fl = st.port.flaky
            if fl is not None and any(no >= sess.first_task and e in fl.raised for no, e in fl.cleanup):
                self.world.violate("C23", "failure-swallowed",
                                   f"ready() of {st.rid} failed while the loop was left ({how}), nobody was told")

    def planted(self, sess, exc) -> bool:
        """Is this failure made of what the workload planted in ready()?"""
        excs = chain(exc)
        leaves = [e for e in excs if not isinstance(e, BaseExceptionGroup) and not isinstance(e, SelectError)]
        ok = bool(leaves)
        for e in leaves:
            for st in sess.sts:
                fl = st.port.flaky
                if fl is not None and e in fl.raised:
                    fl.raised.remove(e)
                    break
            else:
                ok = False
        return ok

    async def loop_over(self, a, sess, box, spec) -> str:
        w = self.world
        prev, prev_handled, prev_left = None, True, False
        body = spec["body"]
        while True:
            out, val = await a.call(box[0].__anext__(), ("select", sess.sid), None)
            if w.stop_now:
                return "end"
            if out == "cancelled":
                # The loop may have been ending already, because of a failure.
                sess.ending = not prev_handled or any(
                    st.port.flaky is not None and set(map(id, st.port.flaky.raised)) - {id(e) for _, e in st.port.flaky.cleanup}
                    for st in sess.sts)
                return "cancelled"
            if out == "spurious_cancel":
                w.violate(("C18", "C21"), "spurious-cancel", "a select() loop raised CancelledError by itself")
                return "error"
            if out == "exc" and isinstance(val, StopAsyncIteration):
                if not prev_handled:
                    w.violate("C22", "unhandled-not-detected", "the loop ended although its last item was not handled")
                left = [s.rid for s in sess.sts if s.rid not in sess.reported]
                if left:
                    w.violate(self.blame(None, {"C19"}), "ended-too-early", f"the loop ended, {left} did not stop")
                return "exhausted"
            if out == "exc" and isinstance(val, UnhandledSelectedError):
                if prev_handled:
                    w.violate("C22", "false-unhandled", f"an item was handled but the loop raised {brief(val)}")
                elif val.selected is not prev:
                    w.violate("C22", "unhandled-item", "UnhandledSelectedError carries another item")
                w.count("unhandled_item_detected")
                return "error"
            if out == "exc":
                if not prev_handled:
                    if isinstance(val, (SelectError, BaseExceptionGroup)) and any(
                            isinstance(e, UnhandledSelectedError) for e in (val.__context__, *chain(val))):
                        # A receiver failed while the unhandled item was being reported.
                        self.planted(sess, val)
                        return "error"
                if isinstance(val, SelectError) and val.__cause__ is not None and self.planted(sess, val):
                    w.count("select_error")
                    return "error"
                if isinstance(val, BaseExceptionGroup) and self.planted(sess, val):
                    return "error"
                w.violate(self.blame(None, {"C23"}), "loop-raised",
                          f"the loop raised {brief(val)} caused by {val.__cause__!r}")
                return "error"
            # An item.
            if not prev_handled:
                w.violate("C22", "unhandled-not-detected", "the loop went on although an item was not handled")
            sess.n += 1
            idx = sess.n - 1
            prev, prev_handled = val, idx not in spec["unh"]
            if not isinstance(val, Selected):
                w.violate("C18", "not-an-item", f"select() yielded {val!r}")
                return "error"
            self.handle(a, sess, val, spec, prev_handled)
            if w.stop_now:
                return "end"
            self.fairness(sess)
            ex = spec["exit"]
            if prev_handled and body and ex[0] != "none" and sess.n >= ex[1] and not ex[2]:
                return ex[0]
            if prev_handled and body:
                for op in body[idx % len(body)]:
                    if op[0] == "yield":
                        for _ in range(op[1]):
                            await asyncio.sleep(0)
                    elif op[0] == "sleep":
                        await asyncio.sleep(op[1] / 1e6)
                    elif op[0] == "stall":
                        w.count("loop_stall")
                        w.loop.stall(op[1])
                    elif op[0] == "gc":
                        gc.collect()
                    elif op[0] == "look":
                        self.look()
                    else:
                        await self.do(a, op)
                    if w.stop_now:
                        return "end"
                self.fairness(sess)
            for st in sess.sts:
                if st.port.spec["t"] == "timer" and st.port.running and (
                        st.port.ticks >= self.MAX_TICKS or sess.n > 200):
                    st.port.ticks = self.MAX_TICKS
                    await self.op_stop(a, st.rid)
            if ex[0] != "none" and sess.n >= ex[1]:
                # Leaving with an unhandled item is fine: nobody asks for the next one.
                return ex[0]

    def handle(self, a, sess, item, spec, handled) -> None:
        """The if-chain of the loop body."""
        w = self.world
        if self.plan.get("look") and w.prop == "C33":
            self.look_at("an item", item)
            self.look_at("its exception", item.exception)
        if spec["foreign"] and any(selected_from(item, r) for r in (self.foreign, *sess.sts[sess.n % len(sess.sts)].port.twins)):
            w.violate("C18", "selected-from-foreign", "selected_from() is true for a receiver that was not selected")
        if not handled:
            # What it is can only be asked in a way that handles it, so ask a copy.
            src = self.account(a, sess, copy.copy(item), None)
            if src is not None and spec.get("others"):
                # The if-chain asks for everything but the receiver the item is from.
                w.count("asked_for_others_only")
                for st in sess.sts:
                    if st is not src and selected_from(item, st.recv):
                        w.violate(("C18", "C22"), "selected-from-other", f"an item of {src.rid} is also from {st.rid}")
                    for twin in st.port.twins:
                        if selected_from(item, twin):
                            w.violate(("C18", "C22"), "selected-from-foreign",
                                      f"selected_from() is true for a receiver that was not selected, similar to {st.rid}")
            return
        src = None
        order = list(sess.sts)
        if spec["rev"]:
            order.reverse()
        for st in order:
            r = selected_from(item, st.recv)
            if r is not True and r is not False:
                w.violate("C18", "selected-from-value", f"selected_from() returned {r!r}")
            if r:
                if src is not None:
                    w.violate("C18", "two-sources", f"selected_from() is true for {src.rid} and {st.rid}")
                src = st
                if spec["chain"]:
                    break
        self.account(a, sess, item, src)

    def account(self, a, sess, item, src):
        """Check one item against the model of its receiver; returns that receiver."""
        w = self.world
        if src is None:
            froms = [st for st in sess.sts if selected_from(item, st.recv)]
            if len(froms) != 1:
                w.violate(("C18", "C22") if froms else "C18", "no-source", f"selected_from() is true for {[s.rid for s in froms]}")
                return None
            src = froms[0]
        rid, p = src.rid, src.port
        sess.since.pop(rid, None)
        exc = item.exception
        if item.was_stopped is not isinstance(exc, ReceiverStoppedError):
            w.violate(("C23", "C19"), "was_stopped", f"was_stopped is {item.was_stopped}, the exception is {exc!r}")
        if exc is None:
            value = item.message
            if item.message is not value:
                w.violate("C18", "message-identity", "the message changes")
            w.log(a.name, "item", sess.sid, rid, self.describe(src, value))
            self.after_stop(sess, src)
            err = p.take(value)
            if err:
                w.violate(self.blame(src), "wrong-message", f"select() yielded {err} from {rid}")
            src.n_got += 1
            return src
        try:
            m = item.message
        except BaseException as e:  # noqa: BLE001
            if e is not exc or item.exception is not exc:
                w.violate("C23", "error-identity", f"message raised {e!r}, exception was {exc!r} and is {item.exception!r}")
            if item.was_stopped is not isinstance(exc, ReceiverStoppedError):
                w.violate(("C23", "C19"), "was_stopped", f"was_stopped is {item.was_stopped} once message raised {exc!r}")
        else:
            w.violate("C23", "error-not-raised", f"message returned {m!r} although the exception is {exc!r}")
        if isinstance(exc, ReceiverStoppedError) or self.final_error(src, exc):
            w.log(a.name, "item", sess.sid, rid, "stopped")
            w.count("stop_items")
            self.after_stop(sess, src)
            if not (p.stop_due() if p.exact_stop else p.may_stop()):
                w.violate(self.blame(src, {"C19"}), "stop-too-early",
                          f"{rid} was reported as stopped, undelivered: {p.left()[:5]}")
            sess.reported.add(rid)
            src.stopped = True
            return src
        w.log(a.name, "item", sess.sid, rid, type(exc).__name__)
        self.after_stop(sess, src)
        if isinstance(exc, AssertionError) and not isinstance(exc, BOOMS):
            w.violate(self.blame(src, {"C19"} if rid in sess.reported else ()), "item-without-message",
                      f"select() yielded an item of {rid}, which has no message: {brief(exc)}")
            return src
        w.count("error_items")
        err = p.take_error(exc)
        if err:
            w.violate(self.blame(src, {"C23"}), "wrong-error", f"select() yielded {err} from {rid}")
        return src

    def after_stop(self, sess, st) -> None:
        if st.rid in sess.reported:
            self.world.violate(("C19",), "selected-after-stop", f"{st.rid} was selected again after its stop")

    # -- invariants ------------------------------------------------------------------------
    def fairness(self, sess) -> None:
        """No receiver waits while a bounded number of items of others go by."""
        n = len(sess.sts)
        for st in sess.sts:
            if st.rid in sess.reported:
                continue
            if st.port.has_item() or st.port.stop_due():
                since = sess.since.setdefault(st.rid, sess.n)
                if sess.n - since > 6 * n + 20:
                    what = "stopped" if not st.port.has_item() else f"has {len(st.port.left())} messages"
                    self.world.violate(("C20",), "starved",
                                       f"{st.rid} {what}, {sess.n - since} items of other receivers were selected")
            else:
                sess.since.pop(st.rid, None)

    def allowed_tasks(self) -> int:
        n = sum(st.port.waiting_tasks() for st in self.rs.values())
        for s in self.sessions.values():
            if s.active:
                n += len(s.sts) + 1
        return n

    def no_tasks_left(self, why) -> None:
        """A loop was just left in a way that waits for its tasks."""
        if self.unsettled or self.world.stop_now:
            return
        self.world.count("checked_immediate_cleanup")
        n, tasks = self.allowed_tasks(), self.lib_tasks()
        if len(tasks) > n:
            self.world.violate("C21", "leaked-tasks", f"{len(tasks)} background tasks right after the loop was left by "
                                                      f"{why}, {n} can be accounted for")

    def quiescent(self) -> None:
        super().quiescent()
        w = self.world
        if w.stop_now or not self.init_task.done():
            return
        if self.unsettled:
            # Loops that were just dropped are closed by the garbage collection, at the latest now.
            gc.collect()
            if w.loop._ready:
                return
        self.fs.poll()
        for src in self.sources.values():
            if src.limit is not None:
                n = len(src.accepted) - src.pos
                merges = next((st.port.spec["t"] == "merge" for st in self.rs.values() if src in st.port.sources), False)
                if n > src.limit + 1 + 2 * merges:
                    w.violate("C34", "taken-ahead", f"{src.sid} (limit {src.limit}) accepted {n} messages nobody received")
        for who, kind, sid in self.blocked():
            if kind == "aclose":
                w.violate("C21", "aclose-stuck", f"{who} waits for a select() loop to close")
            if kind in self.WAITS:
                st = self.rs[sid]
                if st.port.has_item() or st.port.stop_due():
                    w.violate(self.blame(st, {"C19"} if st.port.stop_due() else ()) | {"C21"}, "waiter-stranded",
                              f"{who} waits in {kind}({sid}), which has {st.port.left()[:5]}")
            if kind != "select":
                continue
            sess = self.sessions[sid]
            for st in sess.sts:
                if st.rid in sess.reported:
                    continue
                fl = st.port.flaky
                if st.port.has_item():
                    w.violate(self.blame(st, {"C20"} | ({"C19"} if sess.reported else set())), "message-not-selected",
                              f"the loop waits although {st.rid} has {st.port.left()[:5]}")
                elif st.port.stop_due():
                    w.violate(self.blame(st, {"C19", "C20"}), "stop-not-selected", f"the loop waits although {st.rid} stopped")
                elif fl is not None and fl.raised and not self.left_early:
                    w.violate("C23", "failure-swallowed", f"the loop waits although ready() of {st.rid} failed")
            if len(sess.reported) == len(sess.sts):
                w.violate("C19", "loop-does-not-end", "the loop waits although all its receivers were reported stopped")
        tasks, n = self.lib_tasks(), self.allowed_tasks()
        if len(tasks) > n:
            what = sorted(coro_name(t) for t in tasks)
            w.violate("C21", "leaked-tasks", f"{len(tasks)} background tasks are alive ({what}), {n} can be accounted for")
        self.unsettled = False

    def owned(self) -> set:
        """The receivers of tasks that did not end: they may select them at any time."""
        out = set()
        for a in self.world.actors.values():
            if a.task is not None and not a.task.done():
                for op in a.ops:
                    if op[0] == "select":
                        out.update(op[1])
        return out

    def epilogue(self) -> None:
        w = self.world
        mode = self.cfg["epi"]
        names = [s.actor for s in self.sessions.values() if s.active]
        if mode != "close" and names:
            self.left_early = True
            self.phase_ops("cancel", [("e:cancel", [["cancel", n] for n in names] + [["yield", 3]])])
            if mode == "again":
                rids = [s.rid for s in self.rs.values()]
                spec = {"body": [], "unh": [], "exit": ["none"], "foreign": True, "rev": False, "chain": False}
                self.phase_ops("again", [("e:again", [["select", rids, spec]])])
        if w.stop_now or w.loop.capped:
            return
        for _ in range(400):
            active = self.owned()
            # Draining lets blocked senders and other actors go on.
            n = sum(st.uses for st in self.rs.values())
            ops = [["drain", rid, 3] for rid, st in self.rs.items()
                   if rid not in active and st.port.spec["t"] != "timer"] * 3
            self.phase_ops("drain", [("e:drain", ops)])
            if w.stop_now or w.loop.capped:
                return
            if n == sum(st.uses for st in self.rs.values()):
                break
        active = self.owned()
        for rid, st in self.rs.items():
            if st.port.left() and rid not in active:
                w.violate(self.blame(st) | {"C21"}, "message-lost", f"{rid}: accepted but not delivered {st.port.left()[:6]}")
        ops = [["close", sid] for sid in self.sources]
        for rid, st in self.rs.items():
            t = st.port.spec["t"]
            if t in ("event", "timer"):
                ops.append(["stop", rid])
            elif t == "watch":
                ops.append(["fsend", rid])
        self.phase_ops("close", [("e:close", ops)])
        longest = max([s.port.iv for s in self.rs.values() if s.port.spec["t"] == "timer"], default=0)
        self.phase_ops("wait", [("e:wait", [["sleep", 7 * longest + 100_000]])])
        if w.stop_now or w.loop.capped:
            return
        for s in self.sessions.values():
            if s.active and not any(self.rs[r].port.spec["t"] == "watch" and not self.rs[r].port.ended
                                    for r in [st.rid for st in s.sts]):
                w.violate(("C19",), "loop-does-not-end", f"loop {s.sid} did not end, reported: {sorted(s.reported)}")
        active = self.owned()
        ops = []
        for rid, st in self.rs.items():
            if rid in active or (st.port.spec["t"] == "watch" and not st.port.ended):
                continue
            ops += [["drain", rid, 3], ["drain", rid, 3], ["drain", rid, 3], ["recv", rid, 5], ["anext", rid, 5]]
        self.phase_ops("after", [("e:after", ops)])
        if w.stop_now or w.loop.capped:
            return
        for rid, st in self.rs.items():
            if rid not in active and st.port.exact_stop and not st.stopped and (
                    st.port.spec["t"] != "watch" or st.port.ended):
                w.violate(self.blame(st, {"C19", "C21"}), "not-stopped", f"{rid} did not report its stop")

    def drain_again(self, st, a) -> bool:
        """Go on after an error, unless nothing was received at all."""
        n, st.drain_uses = getattr(st, "drain_uses", -1), st.uses
        return n != st.uses

    def summary(self):
        return sorted((k, s.n_got) for k, s in self.rs.items())

    def model_state(self):
        return (tuple((s.port.has_item(), s.port.stop_due(), s.inflight) for s in self.rs.values()),
                tuple((s.active, len(s.reported)) for s in self.sessions.values()))

    def release(self) -> None:
        super().release()
        for n in ("sources", "sessions"):
            getattr(self, n, {}).clear()
        self.foreign = self.last_boom = None


# -- plans ------------------------------------------------------------------------------------
def generate(rng, prop, tier) -> dict:
    pace = Pace(rng)
    big = tier == "thorough" and rng.random() < 0.3
    n = rng.choice([1, 2, 2, 3, 3, 4, 5]) + (2 if big else 0)
    if rng.random() < 0.02:
        n = rng.choice([9, 12, 17, 24])
    errors = rng.random() < (1.0 if prop == "C23" else 0.2)
    flood = rng.random() < {"C20": 0.6, "C34": 0.5, "C37": 0.8}.get(prop, 0.08)
    slow = prop == "C20" or rng.random() < 0.4
    steals = rng.random() < 0.25
    none_ok = [1]
    ports, feeds = [], []
    iv = pace.step * rng.choice([2, 5, 9, 20])
    for i in range(n):
        rid = f"p{i}"
        t = rng.choices(["chan", "merge", "event", "timer", "watch"], [6, 1.5, 2, 2, 0.5])[0]
        spec = {"id": rid, "t": t}
        if t in ("chan", "merge"):
            spec["srcs"] = [{"id": f"s{i}_{j}", "kind": rng.choice(["any", "bro"]), "limit": rng.choice([1, 1, 2, 5, 100])}
                            for j in range(1 if t == "chan" else rng.choice([1, 2, 3]))]
            spec["map"] = rng.random() < 0.25
            feeds += [s["id"] for s in spec["srcs"]]
        elif t == "timer":
            spec["interval"] = max(1, rng.choice([iv, iv, iv // 2, 3 * iv]))
        ports.append(spec)
    timers = [p["id"] for p in ports if p["t"] == "timer"]
    events = [p["id"] for p in ports if p["t"] == "event"]
    watches = [p["id"] for p in ports if p["t"] == "watch"]
    mid = [0]

    def send(sid):
        mid[0] += 1
        return ["send", sid, mid[0], gen_kind(rng, none_ok)]

    def fsop(rid):
        ch = []
        for _ in range(rng.choice([1, 1, 2, 3])):
            mid[0] += 1
            ch.append([rng.choice("amd"), f"f{mid[0]}"])
        return ["fs", rid, ch]

    def stimulus():
        c = []
        if feeds:
            c += [send(rng.choice(feeds))] * 4
        if events:
            c += [["set", rng.choice(events)]] * 2
        if watches:
            c.append(fsop(rng.choice(watches)))
        return rng.choice(c) if c else ["yield", 1]

    actors = []
    for i in range(rng.choice([1, 2, 2, 3])):
        ops = list(pace.gap()) if rng.random() < 0.6 else []
        for _ in range(rng.randrange(1, 14)):
            ops.append(stimulus())
            ops += pace.gap()
        actors.append({"n": f"S{i}", "ops": ops})
    if flood:
        bro = [s["id"] for p in ports if "srcs" in p for s in p["srcs"]
               if s["kind"] == "bro" or s["limit"] == 100 or prop in ("C34", "C37")]
        for sid in rng.sample(bro, min(len(bro), rng.choice([1, 1, 2]))):
            mid[0] += 1
            ops = [["flood", sid, 1000 * (mid[0] + 1), rng.choice([40, 70, 90])]]
            actors.append({"n": f"L{sid}", "ops": (pace.gap() if rng.random() < 0.5 else []) + ops})
    closes = rng.random() < (0.9 if prop == "C19" else 0.45)
    if closes:
        for p in ports:
            if rng.random() > 0.7:
                continue
            targets = [["close", s["id"]] for s in p.get("srcs", ())] or ([["stop", p["id"]]] if p["t"] != "watch" else
                                                                         [["fsend", p["id"]]])
            for op in targets:
                o = rng.choice(actors)["ops"]
                o.insert(len(o) if rng.random() < 0.4 else rng.randrange(len(o) + 1), op)
    all_mids = [op[2] for a in actors for op in a["ops"] if op[0] == "send"]
    by_src: dict = {}
    for a in actors:
        for op in a["ops"]:
            if op[0] == "send":
                by_src.setdefault(op[1], []).append(op[2])
    if errors:
        for p in ports:
            if "srcs" not in p or rng.random() < 0.4:
                continue
            mine = [m for s in p["srcs"] for m in by_src.get(s["id"], ())]
            q = rng.choice([0.0, 0.2, 0.5])
            p["bad"] = [m for m in mine if rng.random() < q]
            p["ready_bad"] = [] if p["map"] or rng.random() < 0.5 else sorted(
                {rng.randrange(1, 12) for _ in range(rng.choice([1, 1, 2]))})
    if rng.random() < (0.35 if prop in ("C19", "C22") else 0.2):
        cls = rng.choice(["hash", "equal", "late", "dying"] + ["equal"] * 2 * (prop == "C22") + ["dying"] * (prop == "C19"))
        for p in ports:
            if "srcs" in p and not p["map"] and rng.random() < 0.8:
                p["cls"] = cls
                p["bad"] = p.get("bad") or []
                p["ready_bad"] = p.get("ready_bad") or []
    if rng.random() < (0.3 if prop == "C23" else 0.1):
        for p in ports:
            if "srcs" in p and not p["map"] and rng.random() < 0.7:
                p["on_cancel"] = rng.choice(["fail", "fail", "slow"])
                p["bad"] = p.get("bad") or []
                p["ready_bad"] = p.get("ready_bad") or []
    # Who selects what: each port belongs to one consumer.
    n_cons = rng.choice([1, 1, 1, 2]) if n > 1 else 1
    groups = [[] for _ in range(n_cons)]
    for p in ports:
        rng.choice(groups).append(p["id"])
    groups = [g for g in groups if g]

    def body(g):
        out = []
        for _ in range(rng.choice([1, 1, 2, 3])):
            acts = []
            for _ in range(rng.choice([0, 0, 1, 1, 2, 3])):
                c = [["yield", rng.randrange(1, 5)]]
                if slow:
                    c += [["sleep", pace.step * rng.choice([0, 1, 1, 2, 5])]] * 2
                    c += [["stall", rng.choice([1, iv, 2 * iv])]]
                c += [stimulus()] * 1
                gt = [r for r in timers if r in g]
                if gt:
                    c += [["reset", rng.choice(gt), rng.choice([0, 0, 1, iv])]] * 2
                    c += [["stop", rng.choice(gt)]] * (rng.random() < 0.3)
                ge = [r for r in events if r in g]
                if ge and closes:
                    c += [["stop", rng.choice(ge)]]
                gs = [s["id"] for p in ports if p["id"] in g for s in p.get("srcs", ())]
                if gs and closes:
                    c += [["close", rng.choice(gs)]] * (rng.random() < 0.3)
                if steals:
                    c += [["steal", rng.choice(g)]]
                acts.append(rng.choice(c))
            out.append(acts)
        return out

    def sel(g, last):
        # A body may close or send: never more than a bounded number of messages in total.
        k = rng.random()
        early = {"C21": 0.85, "C22": 0.4}.get(prop, 0.45)
        if last and rng.random() < 0.7:
            early = 0.2
        ex = ["none"]
        if k < early:
            ex = [rng.choice(["break", "break", "raise", "aclose"]), rng.choice([1, 1, 2, 3, 5]), rng.random() < 0.5]
        unh = []
        if rng.random() < (0.7 if prop == "C22" else 0.1):
            unh = sorted({rng.randrange(0, 6) for _ in range(rng.choice([1, 1, 2]))})
        rids = list(g)
        rng.shuffle(rids)
        if len(rids) > 1 and rng.random() < 0.15:
            rids.pop()
        if rng.random() < 0.04:
            rids.append(rids[0])  # given twice
        b = body(g)
        return ["select", rids, {"body": b if rng.random() < 0.85 else [[]], "unh": unh, "exit": ex,
                                 "foreign": rng.random() < 0.5, "others": rng.random() < 0.6, "rev": rng.random() < 0.3, "chain": rng.random() < 0.6}]

    def fix_body(op):
        # Body actions repeat: their messages would not be unique.
        for acts in op[2]["body"]:
            for x in [x for x in acts if x[0] in ("send", "fs")]:
                acts.remove(x)
        return op

    for i, g in enumerate(groups):
        ops = list(pace.gap()) if rng.random() < 0.5 else []
        k = rng.choice([1, 2, 3, 5] if prop == "C21" else [1, 1, 2, 3])
        for j in range(k):
            ops.append(fix_body(sel(g, j == k - 1)))
            if rng.random() < 0.4:
                ops += pace.gap()
            if rng.random() < 0.35:
                ops += recv_ops(rng, pace, g, rng.choice([1, 1, 2, 3]), p_timeout=1.0, p_bg=0.25, p_ready=0.3,
                                iters=False)
        # A direct receive without timeout would keep the actor from selecting.
        for op in ops:
            if op[0] in ("recv", "anext", "ready", "rc") and op[2] is None:
                op[2] = pace.step
        actors.append({"n": f"C{i}", "ops": ops})
    names = [a["n"] for a in actors if a["n"][0] == "C"]
    if rng.random() < {"C21": 0.6}.get(prop, 0.3):
        actors.append({"n": "D0", "ops": disruptor_ops(rng, pace, names, rng.randrange(1, 5))})
        for a in actors:
            if a["ops"] and rng.random() < 0.4:
                a["ops"].insert(rng.randrange(len(a["ops"])) + 1, ["cancel", rng.choice(names)])
    del all_mids
    rng.shuffle(actors)
    return {
        "family": "selecting",
        "cfg": {"ports": ports, "name": rng.choice([None, None, "same"]), "epi": rng.choice(["close", "close", "cancel", "again"])},
        "actors": actors,
        "sched": gen_sched(rng),
    }
