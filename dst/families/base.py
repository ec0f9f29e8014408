"""What all workload families share: messages, receivers under test, receive operations."""

from __future__ import annotations

import asyncio
import contextlib
import gc
import weakref

from frequenz.channels import (
    ChannelClosedError,
    Receiver,
    ReceiverError,
    ReceiverStoppedError,
    SenderError,
)

from ..core import Actor, SimHang, stable


# -- message values -----------------------------------------------------------------------
class Msg:
    __slots__ = ("mid", "__weakref__")

    def __init__(self, mid):
        self.mid = mid

    def __repr__(self):
        return f"m{self.mid}"


class FalsyMsg(Msg):
    __slots__ = ()

    def __bool__(self):
        return False

    def __len__(self):
        return 0


class OddEqMsg(Msg):
    """Equal to everything (such as a mock.ANY), hash always the same."""

    __slots__ = ()

    def __eq__(self, other):
        return True

    def __ne__(self, other):
        return False

    def __hash__(self):
        return 7


class NoBoolMsg(Msg):
    """No truth value and no equality (such as a numpy array)."""

    __slots__ = ()
    __hash__ = object.__hash__

    def __bool__(self):
        raise ValueError("the truth value of this message is ambiguous")

    def __eq__(self, other):
        raise ValueError("the truth value of this message is ambiguous")


class ExcMsg(Exception):
    """A message value that is itself an exception instance."""

    def __init__(self, mid):
        super().__init__(mid)
        self.mid = mid

    def __repr__(self):
        return f"m{self.mid}"


class StopMsg(ReceiverStoppedError):
    """A message value that is the stop error of some other receiver."""

    def __init__(self, mid):
        super().__init__(None)
        self.mid = mid

    def __repr__(self):
        return f"m{self.mid}"


class AwaitMsg(Msg):
    """A message that can be awaited, called, iterated over, and not hashed."""

    __slots__ = ()
    __hash__ = None

    def __eq__(self, other):
        return self is other

    def __await__(self):
        return iter(())

    def __iter__(self):
        return iter((1, 2))

    def __call__(self, *args, **kw):
        return None


KINDS = {"n": Msg, "f": FalsyMsg, "q": OddEqMsg, "a": NoBoolMsg, "x": ExcMsg, "s": StopMsg, "w": AwaitMsg}


def make_msg(mid, kind: str):
    if kind == "0":
        return None
    return KINDS[kind](mid)


def gen_kind(rng, allow_none: list) -> str:
    """Most messages are plain; `allow_none` is emptied once a None was handed out."""
    r = rng.random()
    if r < 0.62:
        return "n"
    if r < 0.72:
        return "f"
    if r < 0.79:
        return "q"
    if r < 0.86:
        return "a"
    if r < 0.90:
        return "x"
    if r < 0.92:
        return "s"
    if r < 0.95:
        return "w"
    if allow_none:
        allow_none.pop()
        return "0"
    return "f"


class Boom(Exception):
    """An error planted by the workload in a receiver or a mapping function."""

    def __init__(self, mid):
        super().__init__(f"boom {mid}")
        self.mid = mid


class BoomReceiverError(ReceiverError):
    """A receiver error which does not mean that the receiver stopped."""

    def __init__(self, mid, receiver):
        super().__init__(f"boom {mid}", receiver)
        self.mid = mid


class BoomChannelError(ChannelClosedError):
    """The error of some other channel; it does not mean that the receiver stopped."""

    def __init__(self, mid):
        super().__init__(None)
        self.mid = mid


def _boom(base):
    class Planted(base):
        def __init__(self, mid):
            super().__init__(f"boom {mid}")
            self.mid = mid

    Planted.__name__ = Planted.__qualname__ = "Boom" + base.__name__
    return Planted


# Errors that code may raise for all kinds of reasons, and that a library might catch for its own.
PLAIN_BOOMS = tuple(_boom(b) for b in (KeyError, ValueError, RuntimeError, TimeoutError, AssertionError, OSError, TypeError,
                                       asyncio.InvalidStateError, IndexError, AttributeError, EOFError))
BOOMS = (Boom, BoomReceiverError, BoomChannelError) + PLAIN_BOOMS


def make_boom(mid, receiver, n):
    if n % 5 == 1:
        return BoomReceiverError(mid, receiver)
    if n % 5 == 2:
        return BoomChannelError(mid)
    if n % 5 == 3:
        return Boom(mid)
    return PLAIN_BOOMS[(n // 5 * 2 + (n % 5 == 4)) % len(PLAIN_BOOMS)](mid)


def chain(exc):
    """The exceptions reachable through causes (and contexts)."""
    out, todo, seen = [], [exc], set()
    while todo:
        e = todo.pop()
        if e is None or id(e) in seen:
            continue
        seen.add(id(e))
        out.append(e)
        todo.append(e.__cause__)
        if isinstance(e, BaseExceptionGroup):
            todo.extend(e.exceptions)
    return out


def brief(exc) -> str:
    return f"{type(exc).__name__}: {stable(str(exc))[:100]}"


class RecvState:
    """What the harness knows about one receiver."""

    def __init__(self, rid, recv, comp):
        self.rid = rid
        self.recv = recv
        self.comp = comp  # properties of the component this receiver belongs to
        self.inflight = 0
        self.ready_true = False  # a ready() returned True, nothing was consumed since
        self.last_ready = None
        self.stopped = False  # has reported that it stopped
        self.n_got = 0
        self.uses = 0  # consumptions of any outcome, and anything else that undoes readiness
        self.channel = None
        self.can_restart = False  # timers


class Family:
    DIRECT = False  # the receivers are those of channels
    GENERIC: tuple = ()  # properties broken by an unexpected exception / cancellation

    def __init__(self, world, plan) -> None:
        self.world = world
        self.plan = plan
        self.cfg = plan.get("cfg", {})
        self.rs: dict = {}
        self.bg: list = []  # (task, rid) background ready() calls started by the workload
        self.none_mid = None
        self.phase = "main"
        self.mids: dict = {}
        self.originals: dict = {}  # mid -> weak reference
        self.msg_refs: dict = {}  # mid -> weak reference (only to decide C37)
        self.kept_at = 8
        self.decoy = self.decoy_sender = self.decoy_recv = None

    def seams(self):
        """Context manager with the stubs this family needs during a run."""
        return contextlib.nullcontext()

    # -- life cycle ------------------------------------------------------------------------
    def setup(self) -> None:
        if self.plan.get("early"):  # before the loop runs
            self.world.count("built_before_the_loop_runs")
            try:
                self.build().send(None)
            except StopIteration:
                pass
            except Exception as e:  # noqa: BLE001
                self.world.violate("C39", "needs-running-loop", f"creating objects before the loop runs raised {brief(e)}")
                return
        self.init_task = self.world.loop.create_task(self._init())

    async def _init(self) -> None:
        if not self.plan.get("early"):
            await self.build()
        for a in self.plan["actors"]:
            self.world.spawn(Actor(self.world, a["n"], a["ops"]))

    async def build(self) -> None:
        raise NotImplementedError

    def phase_ops(self, name: str, actors: list) -> None:
        """Spawn more actors once everything else came to rest, and run them."""
        w = self.world
        if w.stop_now or w.loop.capped:
            return
        self.phase = name
        w.log("phase", name)

        async def start():
            for n, ops in actors:
                w.spawn(Actor(w, n, ops))

        t = w.loop.create_task(start(), name="harness")
        w.run()
        if w.loop.capped and not w.stop_now:
            self.on_cap()
        del t

    def check_actors(self) -> None:
        """Actor tasks never die from an exception; one that did found a library failure."""
        for a in list(self.world.actors.values()):
            t = a.task
            if t is not None and t.done() and not t.cancelled() and t.exception() is not None:
                raise_harness_or_report(self, t.exception(), a.name)
        t = self.init_task
        if t is not None and t.done() and not t.cancelled() and t.exception() is not None:
            raise_harness_or_report(self, t.exception(), "init")

    def finish(self) -> None:
        self.check_actors()
        if self.world.stop_now:
            return
        self.epilogue()
        self.check_actors()

    def epilogue(self) -> None:
        pass

    def on_cap(self) -> None:
        """The step cap was hit: the library spins without making progress."""
        self.world.violate(self.GENERIC, "livelock", f"no rest after {self.world.loop.steps} scheduler steps")

    # -- a second channel of the same kind and name (anycast, broadcast) --------------------
    def add_decoy(self, chan, **kw) -> None:
        self.decoy = chan
        self.decoy_sender = chan.new_sender()
        self.decoy_recv = chan.new_receiver(**kw)
        self.decoy_q: list = []
        self.decoy_closed = False

    async def op_dsend(self, a, k) -> None:
        w = self.world
        w.count("messages_on_a_second_channel")
        mid = f"d{k}"
        w.log(a.name, "dsend?", mid)
        out, val = await a.call(self.decoy_sender.send(self.new_msg(mid, "n")), ("dsend", mid), 5)
        w.log(a.name, "dsend", mid, out)
        if out == "ok":
            self.decoy_q.append(mid)
            if self.decoy_closed:
                w.violate(self.GENERIC, "decoy-send", f"send of {mid} succeeded on a closed channel")
        elif out == "exc" and not self.decoy_closed:
            w.violate(self.GENERIC, "decoy-send", f"send of {mid} on an open channel raised {brief(val)}")

    async def op_drecv(self, a) -> None:
        w = self.world
        out, val = await a.call(self.decoy_recv.receive(), ("drecv", "decoy"), 5)
        mid = self.mid_of(val) if out == "ok" else type(val).__name__ if out == "exc" else out
        w.log(a.name, "drecv", mid)
        if out == "ok":
            if not self.decoy_q or self.decoy_q[0] != mid:
                w.violate(self.GENERIC, "decoy-message", f"the second channel delivered {mid}, expected {self.decoy_q[:3]}")
            else:
                self.decoy_q.pop(0)
        elif out == "exc" and (not self.decoy_closed or self.decoy_q):
            w.violate(self.GENERIC, "decoy-stop", f"the second channel's receiver raised {brief(val)}, "
                                                  f"undelivered: {self.decoy_q[:3]}")

    async def op_dclose(self, a) -> None:
        self.world.log(a.name, "dclose")
        self.decoy_closed = True
        await a.call(self.decoy.close(), ("dclose", "decoy"))

    # -- cancellation (C36) ----------------------------------------------------------------
    def spurious_cancel(self, what) -> None:
        self.world.violate("C36", "spurious-cancel", f"{what} raised CancelledError although nobody cancelled the caller")

    def cancel_swallowed(self, actor, how, exc) -> None:
        self.world.violate("C36", "cancel-swallowed",
                           f"the {how} of {actor.name} in {actor.blocked_on} had no effect"
                           + (f", it raised {brief(exc)}" if exc is not None else ""))

    def check_cancels(self) -> None:
        now = self.world.loop.time()
        for a in self.world.actors.values():
            if a.blocked_on is None or a.task is None or a.task.done():
                continue
            if a.cancel_req:
                self.world.violate("C36", "cancel-ignored", f"{a.name} was cancelled but goes on waiting in {a.blocked_on}")
            elif a.deadline is not None and now > a.deadline + 1e-6:
                self.world.violate("C36", "timeout-ignored", f"{a.name} goes on waiting in {a.blocked_on} after its timeout")
        for task, rid, cancelled in self.bg:
            if cancelled and not task.done():
                self.world.violate("C36", "cancel-ignored", f"a cancelled ready() on {rid} does not end")

    # -- inspection (C33) ------------------------------------------------------------------
    def inspectables(self):
        """(label, object) of everything a user may print."""
        return [(str(rid), st.recv) for rid, st in self.rs.items() if st.recv is not None]

    def truths(self):
        """(what, observed, expected) of the public attributes, as far as the history tells."""
        return ()

    def look(self) -> None:
        """Look at everything; nothing of this shows up in the history of the run."""
        w = self.world
        if not self.plan.get("look") or w.prop != "C33" or w.stop_now:
            return
        w.count("inspections")
        for label, obj in self.inspectables():
            self.look_at(label, obj)
        try:
            truths = list(self.truths())
        except (SimHang, KeyboardInterrupt):
            raise
        except BaseException as e:  # noqa: BLE001
            w.violate("C33", "attribute-raised", f"reading a public attribute raised {brief(e)}")
            return
        for what, seen, want in truths:
            if seen is not want and seen != want:
                w.violate("C33", "untrue", f"{what} is {seen!r}, the history says {want!r}")

    def look_at(self, label, obj) -> None:
        texts = []
        for fn in (str, repr, str, repr):
            try:
                text = fn(obj)
            except (SimHang, KeyboardInterrupt):
                raise
            except BaseException as e:  # noqa: BLE001
                self.world.violate("C33", "inspection-raised", f"{fn.__name__}() of {label} raised {brief(e)}")
                return
            texts.append(text)
            if not text and not isinstance(obj, BaseException):
                self.world.violate("C33", "inspection-empty", f"{fn.__name__}() of {label} is empty")
                return
        if texts[:2] != texts[2:]:
            self.world.violate("C33", "inspection-changes", f"str() or repr() of {label} differs when called twice")

    def look_error(self, exc) -> None:
        if self.plan.get("look") and self.world.prop == "C33" and isinstance(exc, Exception):
            self.look_at(f"a {type(exc).__name__}", exc)
            if isinstance(exc, BoomReceiverError) and str(exc) != f"boom {exc.mid}":
                self.world.violate("C33", "untrue", f"a ReceiverError says {str(exc)!r}, not the message it was given")

    # -- what is kept alive (C37) ----------------------------------------------------------
    def settled(self, mid) -> bool:
        """Everybody who was to get this message got it, or it failed."""
        return False

    def may_keep(self) -> int:
        """How many settled messages may legitimately be alive: a few per object and waiting task."""
        return 4 + len(self.rs) + sum(1 for a in self.world.actors.values() if not a.finished)

    def check_kept(self) -> None:
        w = self.world
        if w.prop != "C37" or w.stop_now:
            return
        # A message that is settled must be gone soon; look from time to time.
        if self.msg_refs and len(self.msg_refs) >= self.kept_at:
            gc.collect()
            kept = []
            for mid, ref in list(self.msg_refs.items()):
                if ref() is None:
                    del self.msg_refs[mid]
                    w.count("messages_released")
                elif self.settled(mid):
                    kept.append(mid)
            if len(kept) > self.may_keep():
                w.violate("C37", "messages-kept", f"{len(kept)} messages are alive although they were delivered: "
                                                  f"{kept[:8]}, {self.may_keep()} can be accounted for")
            self.kept_at = len(self.msg_refs) + 8

    def summary(self):
        return ()

    def abstract_state(self):
        """What counts as one state in the evidence: who waits where, and the model's size."""
        return (self.phase[:1], tuple(sorted((k, str(t) if k != "send" else "") for _w, k, t in self.blocked())),
                self.model_state())

    def model_state(self):
        return ()

    def warned(self, actor, text) -> None:
        """The library logged a warning (C40)."""

    def expected(self, exc) -> bool:
        """May a task of the library end with this, when everything is cancelled?"""
        return all(isinstance(e, (*BOOMS, StopAsyncIteration, ReceiverStoppedError, BaseExceptionGroup)) or hasattr(e, "mid")
                   for e in chain(exc))

    def look_around(self) -> None:
        """Printing works after the end, too."""
        try:
            for _what, o in self.inspectables():
                str(o), repr(o)
        except Exception as e:  # noqa: BLE001
            self.world.violate(("C39", "C33"), "inspection-raised", f"after the loop was closed: {brief(e)}")

    def release(self) -> None:
        self.rs.clear()
        self.bg.clear()
        self.init_task = self.decoy = self.decoy_sender = self.decoy_recv = None

    # -- messages --------------------------------------------------------------------------
    def new_msg(self, mid, kind):
        if kind == "0":
            self.none_mid = mid
        m = make_msg(mid, kind)
        if m is not None:
            self.originals[mid] = weakref.ref(m)
            if self.world.prop == "C37":
                self.msg_refs[mid] = weakref.ref(m)
        return m

    def mid_of(self, value):
        if value is None:
            return self.none_mid if self.none_mid is not None else "None?"
        mid = getattr(value, "mid", f"?{type(value).__name__}")
        ref = self.originals.get(mid)
        if ref is not None and ref() is not value and not isinstance(value, BOOMS):
            self.world.violate(self.GENERIC, "message-copied", f"{mid} is not the object that was sent")
        return mid

    # -- receivers -------------------------------------------------------------------------
    def add_recv(self, rid, recv, comp=None, channel=None) -> RecvState:
        st = RecvState(rid, recv, self.GENERIC if comp is None else comp)
        st.channel = channel
        self.rs[rid] = st
        return st

    def got(self, st, value, actor) -> None:
        raise NotImplementedError

    def stop_reported(self, st, actor) -> None:
        pass

    def using(self, st) -> None:
        """A ready()/receive() starts in the running step."""

    def failed(self, st, exc, actor, via) -> None:
        self.world.violate(set(st.comp) | {"C11"}, "unexpected-exception",
                           f"{via} on {st.rid} raised {brief(exc)}")

    def _got(self, st, value, actor, via) -> None:
        st.ready_true = False
        st.n_got += 1
        st.uses += 1
        self.world.log(actor.name, via, st.rid, "->", self.describe(st, value))
        if st.stopped and not st.can_restart:
            self.world.violate("C12", "message-after-stop",
                               f"{st.rid} delivered {self.describe(st, value)} after it had reported its stop")
        self.got(st, value, actor)

    def describe(self, st, value):
        return self.mid_of(value)

    def _stop(self, st, exc, actor, via) -> None:
        """`exc`: the ReceiverStoppedError, or StopAsyncIteration from anext."""
        w = self.world
        w.log(actor.name, via, st.rid, "stopped")
        if st.ready_true:
            w.violate(set(st.comp) | {"C11", "C12"}, "stop-before-message",
                      f"{st.rid} reported its stop although ready() had returned True for a message")
        st.ready_true = False
        st.uses += 1
        st.stopped = True
        if isinstance(exc, ReceiverStoppedError) and exc.receiver is not st.recv and self.stop_names_receiver(st, via):
            w.violate("C12", "stop-error-receiver",
                      f"{via} on {st.rid} raised ReceiverStoppedError for another receiver: {exc.receiver}")
        if st.channel is not None:
            closed = [e for e in chain(exc) if isinstance(e, ChannelClosedError)]
            if self.DIRECT and isinstance(exc, ReceiverStoppedError):
                closed = [e for e in closed if e is exc.__cause__]  # as documented for channel receivers
            if not any(e.channel is st.channel for e in closed):
                w.violate(("C12", *self.close_props()), "stop-without-cause",
                          f"{via} on {st.rid}: no ChannelClosedError naming the channel is the cause of "
                          f"{brief(exc)}")
        self.stop_reported(st, actor)

    def close_props(self):
        return ()

    def stop_names_receiver(self, st, via) -> bool:
        return via == "recv"

    # -- operations on receivers -----------------------------------------------------------
    async def do(self, actor, op) -> None:
        await getattr(self, "op_" + op[0])(actor, *op[1:])

    def usable(self, rid):
        st = self.rs.get(rid)
        return st if st is not None and st.recv is not None else None

    def _outcome(self, st, out, val, actor, via) -> None:
        w = self.world
        if out == "ok":
            self._got(st, val, actor, via)
        elif out == "exc":
            if isinstance(val, (ReceiverStoppedError, StopAsyncIteration)):
                if via in ("recv", "consume") and not isinstance(val, ReceiverStoppedError):
                    w.violate(set(st.comp) | {"C12"}, "wrong-stop-error", f"{via} on {st.rid} raised {brief(val)}")
                if via == "anext" and not isinstance(val, StopAsyncIteration):
                    w.violate(set(st.comp) | {"C12"}, "wrong-stop-error", f"{via} on {st.rid} raised {brief(val)}")
                self._stop(st, val, actor, via)
            else:
                st.ready_true = False
                st.uses += 1
                w.log(actor.name, via, st.rid, "raised", type(val).__name__)
                self.failed(st, val, actor, via)
        elif out == "spurious_cancel":
            w.log(actor.name, via, st.rid, "spurious-cancel")
            w.violate(set(st.comp) | {"C11", "C36"}, "spurious-cancel",
                      f"{via} on {st.rid} raised CancelledError although nobody cancelled the caller")
        else:
            w.log(actor.name, via, st.rid, out)

    async def op_recv(self, a, rid, timeout=None) -> None:
        st = self.usable(rid)
        if st is None:
            return
        self.world.log(a.name, "recv?", rid)
        st.inflight += 1
        self.using(st)
        out, val = await a.call(st.recv.receive(), ("recv", rid), timeout)
        st.inflight -= 1
        self._outcome(st, out, val, a, "recv")

    async def op_anext(self, a, rid, timeout=None) -> None:
        st = self.usable(rid)
        if st is None:
            return
        self.world.log(a.name, "anext?", rid)
        st.inflight += 1
        self.using(st)
        out, val = await a.call(st.recv.__anext__(), ("anext", rid), timeout)
        st.inflight -= 1
        self._outcome(st, out, val, a, "anext")

    async def op_iter(self, a, rid, n, pause=0) -> None:
        """`async for` over the receiver, for at most n messages."""
        st = self.usable(rid)
        if st is None or n <= 0:
            return
        self.world.log(a.name, "iter?", rid, n)

        async def loop():
            k = 0
            self.using(st)
            async for v in st.recv:
                self._got(st, v, a, "iter")
                del v
                k += 1
                if k >= n or self.world.stop_now:
                    return True
                for _ in range(pause):
                    await asyncio.sleep(0)
            return False

        st.inflight += 1
        out, val = await a.call(loop(), ("iter", rid), None)
        st.inflight -= 1
        if out == "ok":
            if val is False:
                self._stop_iter(st, a)
        else:
            self._outcome(st, out, val, a, "iter")

    def _stop_iter(self, st, a) -> None:
        chan, st.channel = st.channel, None  # the cause is not visible to `async for`
        try:
            self._stop(st, None, a, "iter")
        finally:
            st.channel = chan

    async def op_ready(self, a, rid, timeout=None) -> bool:
        st = self.usable(rid)
        if st is None:
            return False
        self.world.log(a.name, "ready?", rid)
        st.inflight += 1
        self.using(st)
        stopped = st.stopped
        out, val = await a.call(st.recv.ready(), ("ready", rid), timeout)
        st.inflight -= 1
        return self._ready_outcome(st, out, val, a.name, stopped)

    def _ready_outcome(self, st, out, val, who, was_stopped) -> bool:
        w = self.world
        if out == "ok":
            w.log(who, "ready", st.rid, val)
            if val is not True and val is not False:
                w.violate(set(st.comp) | {"C11"}, "ready-result", f"ready() on {st.rid} returned {val!r}")
            if val:
                if was_stopped and not st.can_restart:
                    w.violate("C12", "ready-after-stop", f"{st.rid}: ready() returned True after the stop was reported")
                st.last_ready = True
                self.became_ready(st)
                return True
            st.last_ready = False
            if st.ready_true:
                w.violate(set(st.comp) | {"C11"}, "ready-lost",
                          f"{st.rid}: ready() returned False although an earlier ready() returned True and nothing "
                          "was consumed")
            self.ready_false(st)
            return False
        if out == "exc":
            w.log(who, "ready", st.rid, "raised", type(val).__name__)
            self.failed_ready(st, val)
        elif out == "spurious_cancel":
            w.log(who, "ready", st.rid, "spurious-cancel")
            w.violate(set(st.comp) | {"C11", "C36"}, "spurious-cancel",
                      f"ready() on {st.rid} raised CancelledError although nobody cancelled the caller")
        else:
            w.log(who, "ready", st.rid, out)
        return False

    def failed_ready(self, st, exc) -> None:
        self.world.violate(set(st.comp) | {"C11"}, "ready-raised", f"ready() on {st.rid} raised {brief(exc)}")

    def became_ready(self, st) -> None:
        """ready() just returned True in the running step: a message is there right now."""
        st.ready_true = True

    def ready_false(self, st) -> None:
        pass

    async def op_consume(self, a, rid) -> None:
        """consume(), if an earlier ready() allows it."""
        st = self.usable(rid)
        if st is None:
            return
        if not st.ready_true and not (st.last_ready is False and (st.stopped or st.inflight == 0) and not st.can_restart):
            return
        expect_stop = not st.ready_true
        try:
            out, val = "ok", st.recv.consume()
        except (SimHang, KeyboardInterrupt):
            raise
        except BaseException as e:  # noqa: BLE001
            out, val = "exc", e
        if out == "ok" and expect_stop:
            self.world.violate("C12", "message-after-stop",
                               f"{rid}: consume() returned a message after ready() had returned False")
        self._outcome(st, out, val, a, "consume")

    async def op_rc(self, a, rid, timeout=None, gap=0) -> None:
        """ready(), a gap during which others run, ready() again, consume()."""
        if await self.op_ready(a, rid, timeout):
            for _ in range(gap):
                await asyncio.sleep(0)
            st = self.usable(rid)
            if st is not None and st.ready_true:
                if gap % 2:
                    await self.op_ready(a, rid, None)
                await self.op_consume(a, rid)
        else:
            st = self.usable(rid)
            if st is not None and st.last_ready is False and gap % 2:
                await self.op_consume(a, rid)

    async def op_bg(self, a, rid, k) -> None:
        """Start ready() in a child task and abandon it after k scheduler rounds.

        This is what a select() loop that is left does: the cancelled task is not awaited
        by anyone before the receiver is used again.
        """
        st = self.usable(rid)
        if st is None:
            return
        w = self.world
        w.log(a.name, "bg", rid, k)
        st.inflight += 1
        stopped = st.stopped
        entry = [None, rid, False]

        async def child():
            # Nothing runs between the return of ready() and the bookkeeping.
            self.using(st)
            try:
                out, val = "ok", await st.recv.ready()
            except asyncio.CancelledError:
                if w.dead:
                    raise
                out, val = ("cancelled" if entry[2] else "spurious_cancel"), None
            except (SimHang, KeyboardInterrupt):
                raise
            except BaseException as e:  # noqa: BLE001
                out, val = "exc", e
            st.inflight -= 1
            if entry in self.bg:
                self.bg.remove(entry)
            self._ready_outcome(st, out, val, "bg", stopped)

        self.bg.append(entry)
        task = w.loop.create_task(child(), name=f"bg:{rid}")
        entry[0] = task

        def never_started(_t, st=st, entry=entry):
            if entry in self.bg:
                self.bg.remove(entry)
                st.inflight -= 1

        task.add_done_callback(never_started)
        del task
        for _ in range(k):
            await asyncio.sleep(0)
        if entry in self.bg:
            entry[2] = True
            w.count("abandoned_ready")
            entry[0].cancel()

    async def op_drain(self, a, rid, timeout_us=5) -> None:
        """Receive until nothing more comes."""
        while not self.world.stop_now:
            st = self.usable(rid)
            if st is None or st.stopped:
                return
            n = st.n_got
            await self.op_recv(a, rid, timeout_us)
            if st.n_got == n and not self.drain_again(st, a):
                return

    def drain_again(self, st, a) -> bool:
        return False

    # -- invariants ------------------------------------------------------------------------
    def blocked(self):
        """(who, kind, target) for every library call that cannot continue right now."""
        out = []
        for a in self.world.actors.values():
            if a.blocked_on is not None and a.task is not None and not a.task.done():
                out.append((a.name, a.blocked_on[0], a.blocked_on[1]))
        for task, rid, cancelled in self.bg:
            if not task.done():
                out.append(("bg", "bg-cancelled" if cancelled else "ready", rid))
        return out

    WAITS = ("recv", "anext", "iter", "ready")

    def quiescent(self) -> None:
        self.check_actors()
        self.check_cancels()
        self.look()
        self.check_kept()
        for who, kind, rid in self.blocked():
            if kind == "bg-cancelled":
                self.world.violate(set(self.GENERIC) | {"C11"}, "cancel-ignored",
                                   f"a cancelled ready() on {rid} does not end")
            if kind not in self.WAITS:
                continue
            st = self.rs.get(rid)
            if st is None:
                continue
            if st.ready_true and not st.can_restart:
                self.world.violate(set(st.comp) & {"C04"} | {"C11"}, "waiter-stuck-although-ready",
                                   f"{who} is stuck in {kind}() on {rid}, for which ready() already returned True")
            if st.stopped and not st.can_restart:
                self.world.violate("C12", "waits-after-stop", f"{who} waits in {kind}() on {rid} after its stop")

    def lib_tasks(self):
        """Tasks that are neither actors nor started by the workload."""
        own = self.world.actor_tasks() | {id(t) for t, _r, _c in self.bg}
        if self.init_task is not None:
            own.add(id(self.init_task))
        return [t for t in self.world.loop.alive() if id(t) not in own and t.get_name() != "harness"]


class HarnessError(Exception):
    pass


LIB_MARK = "/frequenz/channels/"


def from_library(exc) -> bool:
    for e in chain(exc) + ([exc.__context__] if exc.__context__ else []):
        tb = e.__traceback__
        while tb is not None:
            if LIB_MARK in tb.tb_frame.f_code.co_filename:
                return True
            tb = tb.tb_next
    return False


def raise_harness_or_report(fam, exc, who) -> None:
    if isinstance(exc, SimHang):
        raise exc
    if from_library(exc):
        fam.world.violate(set(fam.GENERIC) | {"C11"}, "unexpected-exception", f"{who}: {brief(exc)}")
        return
    raise HarnessError(f"{who}: {brief(exc)}") from exc


def check_send_error(fam, props, exc, channel, sender, what) -> None:
    """A send on a closed channel failed: is it the documented error?"""
    if not isinstance(exc, SenderError):
        fam.world.violate(props, "wrong-send-error", f"{what} raised {brief(exc)} instead of SenderError")
        return
    if getattr(exc, "sender", None) is not sender:
        fam.world.violate(props, "wrong-send-error", f"{what} raised a SenderError that does not name the sender")
    cause = exc.__cause__
    if not isinstance(cause, ChannelClosedError) or getattr(cause, "channel", None) is not channel:
        fam.world.violate(props, "send-error-cause",
                          f"{what}: the SenderError is not caused by a ChannelClosedError naming the channel")


__all__ = [n for n in dir() if not n.startswith("__")]
