"""Deterministic simulator for asyncio programs: virtual clock, seeded scheduler choices, actors.

One `World` is one simulated execution.  Everything that can vary is decided by the plan (a
JSON value: which actors run which operations, with which yields, delays, faults) and by the
scheduler PRNG seeded from the plan.  Nothing reads a real clock or a real thread.
"""

from __future__ import annotations

import asyncio
import gc
import hashlib
import heapq
import logging
import math
import random
import re
import signal
import sys
import time as _time
import warnings
import weakref
from asyncio import CancelledError

REAL_MONOTONIC = _time.monotonic
REAL_PERF = _time.perf_counter

logging.disable(logging.CRITICAL)
warnings.filterwarnings("ignore", message="coroutine .* was never awaited")


def coro_name(task) -> str:
    coro = task.get_coro()
    return getattr(coro, "__qualname__", type(coro).__name__)


class SimHang(BaseException):
    """Raised from the watchdog signal when a single run takes absurdly long."""


class StopRun(Exception):
    """Ends the run early (a violation of the checked property was found)."""


class _Hashed:
    """Hash by a seeded creation counter, so that set iteration order is a seeded choice."""

    def __hash__(self) -> int:
        return self._sim_hash


class SimTask(asyncio.Task):  # type: ignore[misc]
    def __init__(self, coro, *, loop, **kwargs):
        self._sim_hash = loop.next_hash(kwargs.get("name"))
        super().__init__(coro, loop=loop, **kwargs)
        self.sim_no = loop.register_task(self)

    def __hash__(self) -> int:
        return self._sim_hash


class SimFuture(asyncio.Future):  # type: ignore[misc]
    def __init__(self, *, loop):
        self._sim_hash = loop.next_hash()
        super().__init__(loop=loop)

    def __hash__(self) -> int:
        return self._sim_hash


class SimLoop(asyncio.BaseEventLoop):
    """An asyncio event loop with virtual time.

    It keeps asyncio's documented guarantees (callbacks run in FIFO order, timers never early)
    and lets the seed choose what asyncio leaves open: the order of timers due at the same
    instant, how late the loop wakes up, the iteration order of sets of tasks.
    """

    def __init__(self, world: "World") -> None:
        super().__init__()
        sched = world.plan.get("sched", {})
        self._world = world
        self._vt: float = float(sched.get("t0", 0.0))
        self._wall_skew: float = 0.0
        self._rng = random.Random(f"sched-{sched.get('seed', 0)}")
        self._hash_seed: int = self._rng.getrandbits(60)
        self._hash_mode: str = sched.get("hash", "seeded")
        self._hash_n = 0
        self._names: dict[str, int] = {}
        self._late_p: float = sched.get("late_p", 0.0)
        self._late_max: int = sched.get("late_us", 0)
        self._frac: bool = sched.get("frac", False)
        self._ties: bool = sched.get("ties", True)
        self._eager: bool = sched.get("eager", False)
        self._selector = None
        self._clock_resolution = 1e-9
        self.steps = 0
        self.max_steps = 60_000
        self.far: float | None = None  # timers that are further away than this many seconds are not waited for
        self.shutdown_at: int | None = (world.plan.get("shutdown") or {}).get("at")
        self.capped = False
        self.live_tasks: dict[int, weakref.ref] = {}
        self._task_no = 0
        self.set_task_factory(self._factory)
        self.set_exception_handler(self._exc_handler)
        self.t_start = self._vt

    # -- seams -------------------------------------------------------------------------
    def _factory(self, loop, coro, context=None, **kw):
        if context is not None:
            kw["context"] = context
        if self._eager and self.is_running():
            kw["eager_start"] = True
        return SimTask(coro, loop=loop, **kw)

    def create_future(self):
        return SimFuture(loop=self)

    def next_hash(self, name=None) -> int:
        self._hash_n += 1
        if self._hash_mode == "fifo":
            return self._hash_n
        if name is not None and self._hash_mode in ("name", "rname"):
            # Tasks of the same name keep landing in the same place of a set (whatever the name is).
            h = self._names.setdefault(str(name), len(self._names) + 1)
            return h if self._hash_mode == "name" else 0xFFFF - h
        x = (self._hash_n * 0x9E3779B97F4A7C15 + self._hash_seed) & 0xFFFFFFFFFFFFFFFF
        x ^= x >> 29
        x = (x * 0xBF58476D1CE4E5B9) & 0xFFFFFFFFFFFFFFFF
        return (x >> 16) & 0x3FFFFFFFFFF

    def register_task(self, task) -> int:
        self._task_no += 1
        self.live_tasks[self._task_no] = weakref.ref(task)
        return self._task_no

    def alive(self):
        """All tasks that are not done."""
        out = []
        for no, ref in list(self.live_tasks.items()):
            t = ref()
            if t is None or t.done():
                del self.live_tasks[no]
            else:
                out.append(t)
        return out

    def _exc_handler(self, loop, context) -> None:
        exc = context.get("exception")
        self._world.loop_errors.append(
            (str(context.get("message", ""))[:80], type(exc).__name__ if exc else None)
        )

    def _horizon(self) -> float:
        """Timers before this are due (a real clock never stands still, so it does not get stuck at one that is due now)."""
        return max(self._vt + self._clock_resolution, math.nextafter(self._vt, math.inf))

    def time(self) -> float:
        return self._vt

    def now_us(self) -> int:
        return round(self._vt * 1_000_000)

    def stall(self, us: int) -> None:
        """The running callback blocks the loop for this long."""
        self._vt += us / 1_000_000

    def _process_events(self, event_list) -> None:
        pass

    def _write_to_self(self) -> None:
        pass

    def run_in_executor(self, executor, func, *args):
        raise RuntimeError("real threads are not available in the simulation")

    # -- the loop ------------------------------------------------------------------------
    def _run_once(self) -> None:
        self.steps += 1
        if self.steps == self.shutdown_at:
            self._world.shutting = True
            self.stop()
        if self.steps > self.max_steps:
            self.capped = True
            self.stop()
            return
        sched = self._scheduled
        ready = self._ready
        while sched and sched[0]._cancelled:
            heapq.heappop(sched)._scheduled = False
        if not ready and not (sched and sched[0]._when < self._horizon()):
            # Quiescent instant: nothing can run before time advances.
            if self._world.shutting:
                self.stop()
                return
            try:
                self._world.quiescent()
            except StopRun:
                self.stop()
                return
            while sched and sched[0]._cancelled:
                heapq.heappop(sched)._scheduled = False
            if not ready:
                if not sched:
                    self.stop()
                    return
                when = sched[0]._when
                if self.far is not None and when > self._vt + self.far:
                    self.stop()
                    return
                if when > self._vt:
                    self._vt = when
                    if self._frac:
                        # Clocks do not stop at whole microseconds; loops may be early by their resolution.
                        self._vt += self._rng.choice([-0.9e-9, self._rng.random() * 1e-6, 0.4e-6, 0.6e-6])
                    if self._late_p and self._rng.random() < self._late_p:
                        self._vt += self._rng.randrange(1, self._late_max + 1) / 1e6
                        self._world.count("late_wakeup")
        if sched:
            end = self._horizon()
            due = []
            while sched and sched[0]._when < end:
                h = heapq.heappop(sched)
                h._scheduled = False
                if not h._cancelled:
                    due.append(h)
            if len(due) > 1 and self._ties:
                i = 0
                while i < len(due):
                    j = i + 1
                    while j < len(due) and due[j]._when == due[i]._when:
                        j += 1
                    if j - i > 1:
                        grp = due[i:j]
                        self._rng.shuffle(grp)
                        due[i:j] = grp
                        self._world.count("timer_tie_permuted")
                    i = j
            ready.extend(due)
        for _ in range(len(ready)):
            h = ready.popleft()
            if not h._cancelled:
                h._run()
                if self._world.stop_now:
                    self.stop()
                    return
        h = None


_ADDRESS = re.compile(r"0x[0-9a-fA-F]+|\b\d{1,3}(?:_\d{3}){3,}|\b[1-9]\d{13,}\b")


def stable(text: str) -> str:
    """Without object addresses, which differ from process to process."""
    return _ADDRESS.sub("<id>", text)


class World:
    """One simulated execution and everything recorded about it."""

    def __init__(self, plan: dict, prop: str) -> None:
        self.plan = plan
        self.prop = prop
        self.seq = 0
        self.trace: list[tuple] = []
        self.violations: list[tuple[str, str]] = []  # of the checked property
        self.others: list[tuple[tuple, str, str]] = []
        self.loop_errors: list[tuple] = []
        self.counts: dict[str, int] = {}
        self.stop_now = False
        self.actors: dict[str, Actor] = {}
        self.family = None
        self.hung = False
        self.dead = False
        self.shutting = False  # the program ends: asyncio.run() cancels everything
        self.states: set = set()
        self.loop = SimLoop(self)

    def count(self, what: str, n: int = 1) -> None:
        self.counts[what] = self.counts.get(what, 0) + n

    def log(self, *data) -> int:
        self.seq += 1
        self.trace.append((self.seq, self.loop.now_us()) + data)
        return self.seq

    def violate(self, props, kind: str, detail: str) -> None:
        if self.dead:
            return
        if isinstance(props, str):
            props = (props,)
        detail = stable(detail)
        if self.prop in props:
            self.violations.append((kind, detail))
            self.log("VIOLATION", kind, detail)
            self.stop_now = True
        else:
            self.others.append((tuple(props), kind, detail))

    def quiescent(self) -> None:
        if self.dead:
            return
        if self.family is not None and not self.stop_now:
            self.family.quiescent()
            self.states.add(self.family.abstract_state())
        if self.stop_now:
            raise StopRun

    def run(self) -> None:
        """Run until nothing is left to run (or a violation, or the step cap)."""
        if not self.stop_now and not self.loop.capped:
            self.loop.run_forever()

    def digest(self) -> str:
        return hashlib.sha256(repr(self.trace).encode()).hexdigest()

    def spawn(self, actor: "Actor") -> None:
        self.actors[actor.name] = actor
        actor.task = self.loop.create_task(actor.main())
        actor.task.set_name("actor:" + actor.name)

    def actor_tasks(self):
        return {id(a.task) for a in self.actors.values()}

    def shutdown(self, how: str) -> None:
        """The program ends here: what asyncio.run() does, or just closing the loop ("abrupt")."""
        loop, fam = self.loop, self.family
        self.shutting = True
        loop.shutdown_at = None
        if self.stop_now or loop.capped:
            return
        n = len(self.trace)
        lib = fam.lib_tasks()
        self.count("shutdown_" + how)
        if lib:
            self.count("shutdown_with_library_tasks")
        self.log("shutdown", how, len(lib))
        failed = []

        def unraisable(hook) -> None:
            where = getattr(hook.object, "__module__", None) or ""
            if where.startswith("frequenz.channels"):
                failed.append(f"{getattr(hook.object, '__qualname__', '?')}: {type(hook.exc_value).__name__}")

        saved, sys.unraisablehook = sys.unraisablehook, unraisable
        try:
            if how == "cancel":
                alive = loop.alive()
                for t in alive:
                    t.cancel()
                del alive
                try:
                    del t
                except UnboundLocalError:
                    pass
                loop.run_forever()
                left = sorted(coro_name(x) for x in fam.lib_tasks())
                stuck = sorted(a.name for a in self.actors.values() if a.task is not None and not a.task.done())
                if left or stuck:
                    self.violate("C39", "survives-shutdown", f"all tasks were cancelled, but {left + stuck} did not end")
                for x in lib:
                    if x.done() and not x.cancelled() and x.exception() is not None and not fam.expected(x.exception()):
                        self.violate("C39", "fails-at-shutdown",
                                     f"the task {coro_name(x)} was cancelled, and raised {x.exception()!r}")
                lib = x = None
                for _ in range(3):  # suspended asynchronous generators are closed
                    gc.collect()
                    task = loop.create_task(loop.shutdown_asyncgens(), name="harness")
                    loop.run_forever()
                    if not task.done():
                        self.violate("C39", "survives-shutdown", "asynchronous generators do not close")
                    del task
                    loop._asyncgens_shutdown_called = False
                if fam.lib_tasks():
                    self.violate("C39", "survives-shutdown", "closing asynchronous generators left tasks")
            lib = None
            loop.close()
            fam.look_around()
            fam.release()
            self.actors.clear()
            loop._ready.clear()
            loop._scheduled.clear()
            gc.collect()
        finally:
            sys.unraisablehook = saved
        if failed:
            self.violate("C39", "finaliser-failed", f"dropped after the loop was closed ({how}): {failed[0]}")
        self.count("events_before_shutdown", n)

    def teardown(self) -> None:
        loop = self.loop
        self.dead = True
        loop.max_steps = loop.steps + 5000
        self.stop_now = False
        for _ in range(6):
            alive = loop.alive()
            if not alive:
                break
            for t in alive:
                t.cancel()
            loop.run_forever()
        loop._ready.clear()
        loop._scheduled.clear()
        loop.close()
        self.actors.clear()


class Actor:
    """A simulated user task executing a list of operations."""

    def __init__(self, world: World, name: str, ops: list) -> None:
        self.world = world
        self.name = name
        self.ops = ops
        self.pc = -1
        self.task: asyncio.Task | None = None
        self.cancellable = False
        self.cancel_req = 0
        self.blocked_on = None  # description of the library call in flight, or None
        self.deadline = None  # when a timeout around it is due
        self.finished = False

    async def main(self) -> None:
        self.task = asyncio.current_task()  # eager tasks run before spawn() gets to know them
        try:
            for self.pc, op in enumerate(self.ops):
                name = op[0]
                if self.world.shutting:
                    return
                if name == "yield":
                    for _ in range(op[1]):
                        await asyncio.sleep(0)
                elif name == "sleep":
                    await asyncio.sleep(op[1] / 1e6)
                elif name == "stall":
                    self.world.count("loop_stall")
                    self.world.log(self.name, "stall", op[1])
                    self.world.loop.stall(op[1])
                elif name == "wall":
                    self.world.count("wall_clock_jump")
                    self.world.loop._wall_skew += op[1] / 1e6
                elif name == "gc":
                    self.world.count("gc")
                    gc.collect()
                elif name == "cancel":
                    self.do_cancel(op[1])
                elif name == "look":
                    self.world.family.look()
                else:
                    await self.world.family.do(self, op)
        finally:
            self.finished = True

    def do_cancel(self, target: str) -> None:
        a = self.world.actors.get(target)
        if a is None or not a.cancellable or a.cancel_req or a.task is None or a is self:
            return
        if a.task.done():
            return
        a.cancel_req = 1
        self.world.count("cancel_in_flight")
        self.world.log(self.name, "cancel", target)
        a.task.cancel()

    async def call(self, aw, blocked_on=None, timeout_us: int | None = None):
        """Await a library call; returns (outcome, value)."""
        self.cancellable = True
        self.blocked_on = blocked_on
        limit = None
        aw = [aw]  # like in a plain `await`, nothing but the evaluation stack has it
        try:
            if timeout_us is None:
                v = await aw.pop()
            else:
                self.deadline = self.world.loop.time() + timeout_us / 1e6
                async with asyncio.timeout(timeout_us / 1e6) as limit:
                    v = await aw.pop()
                if limit.expired():
                    self.world.family.cancel_swallowed(self, "timeout", None)
            if self.cancel_req:
                self.world.family.cancel_swallowed(self, "cancellation", None)
            return ("ok", v)
        except CancelledError:
            if self.world.dead or self.world.shutting:
                raise
            if self.cancel_req:
                self._uncancel()
                return ("cancelled", None)
            self.world.family.spurious_cancel(blocked_on)
            return ("spurious_cancel", None)
        except TimeoutError as e:
            if limit is None or not limit.expired() or hasattr(e, "mid"):  # not of our timeout
                return self.raised(e, limit)
            self.world.count("timeout_fired")
            return ("timeout", None)
        except (KeyboardInterrupt, SystemExit, SimHang):
            raise
        except BaseException as e:  # noqa: BLE001
            return self.raised(e, limit)
        finally:
            self.cancellable = False
            self.blocked_on = None
            self.deadline = None
            if self.cancel_req:
                self._uncancel()

    def raised(self, e, limit):
        if self.world.family is None:  # collected after the end
            return ("exc", e)
        if self.cancel_req or (limit is not None and limit.expired()):
            self.world.family.cancel_swallowed(self, "cancellation" if self.cancel_req else "timeout", e)
        self.world.family.look_error(e)
        return ("exc", e)

    def _uncancel(self) -> None:
        if self.cancel_req:
            self.cancel_req = 0
            self.task.uncancel()


class patched_time:
    """Real clocks read by library code during a run return simulated time."""

    def __init__(self, loop: SimLoop) -> None:
        self.loop = loop

    def __enter__(self):
        loop = self.loop
        self.saved = (_time.time, _time.monotonic, _time.perf_counter, _time.sleep,
                      _time.time_ns, _time.monotonic_ns, _time.perf_counter_ns)

        def _sleep(s):
            loop.stall(int(s * 1e6))

        def mono():
            # A clock of its own; the library has to use the one of the loop.
            return 5000.25 + 0.75 * loop._vt

        def wall():
            return 1.7e9 + loop._vt + loop._wall_skew

        _time.time = wall
        _time.monotonic = mono
        _time.perf_counter = mono
        _time.sleep = _sleep
        _time.time_ns = lambda: int(wall() * 1e9)
        _time.monotonic_ns = lambda: int(mono() * 1e9)
        _time.perf_counter_ns = lambda: int(mono() * 1e9)
        return self

    def __exit__(self, *a):
        (_time.time, _time.monotonic, _time.perf_counter, _time.sleep,
         _time.time_ns, _time.monotonic_ns, _time.perf_counter_ns) = self.saved
        return False


class Warnings(logging.Handler):
    """The warnings the library logs during a run are given to the family."""

    def __init__(self, world) -> None:
        super().__init__(logging.WARNING)
        self.world = world
        self.logger = logging.getLogger("frequenz.channels")

    def __enter__(self):
        if self.world.prop == "C40":
            logging.disable(logging.NOTSET)
            self.propagate, self.logger.propagate = self.logger.propagate, False
            self.logger.addHandler(self)

    def __exit__(self, *a):
        if self.world.prop == "C40":
            logging.disable(logging.CRITICAL)
            self.logger.propagate = self.propagate
            self.logger.removeHandler(self)

    def emit(self, record) -> None:
        w = self.world
        if w.dead or w.stop_now or w.shutting or w.family is None:
            return
        task = asyncio.current_task(w.loop)
        who = next((a for a in w.actors.values() if a.task is task), None)
        try:
            text = record.getMessage()
        except Exception as e:  # noqa: BLE001
            w.violate("C40", "bad-warning", f"a warning can't be formatted: {type(e).__name__}")
            return
        w.log(who.name if who else "?", "warning")
        w.count("warning_logged")
        w.family.warned(who, text)


class Result:
    __slots__ = ("violations", "others", "digest", "steps", "vtime", "counts", "events", "capped", "trace",
                 "loop_errors", "states", "switches", "hung")


def execute(plan: dict, prop: str, keep_trace: bool = False, lines: bool = False) -> Result:
    """Run one plan to completion in a fresh world (two of them if it is about looking at things)."""
    if plan.get("again"):
        # A program that ends in the middle leaves nothing behind in the process: the next
        # event loop sees the same as the one before it.
        first = execute_once({**plan, "shutdown": None}, prop, True, lines)
        if first.hung:
            return first
        res = execute_once(plan, prop, keep_trace, lines)
        if res.hung or res.violations:
            return res
        again = execute_once({**plan, "shutdown": None}, prop, True, lines)
        if again.hung or again.violations:
            return again
        if again.digest != first.digest:
            res.violations.append(("leaves-state-behind", difference("the same program in the next event loop", first, again)))
        return res
    if not plan.get("look"):
        res = execute_once(plan, prop, keep_trace, lines)
        if prop == "C10" and res.others and not res.violations and not res.hung:
            # Something went wrong: is it because receivers were dropped? Then it does not happen
            # in the same run with the references kept.
            ref = execute_once({**plan, "keep_dropped": True}, prop, False, lines)
            if not ref.others and not ref.violations and not ref.hung:
                _props, kind, detail = res.others[0]
                res.violations.append(("drop-disturbs-" + kind, f"{detail}; not if the dropped receivers are kept"))
        return res
    ref = execute_once({**plan, "look": False}, prop, True, lines)
    if ref.hung:
        return ref
    res = execute_once(plan, prop, True, lines)
    if not res.violations and not ref.violations and res.digest != ref.digest:
        res.violations.append(("inspection-disturbs", difference("printing objects changes what happens", ref, res)))
    if not keep_trace:
        res.trace = None
    return res


def difference(what: str, ref: Result, res: Result) -> str:
    a = [e[1:] for e in ref.trace] + [None]
    b = [e[1:] for e in res.trace] + [None]
    i = next((i for i, (x, y) in enumerate(zip(a, b)) if x != y), None)
    return stable(f"{what}: event {i} is {b[i]} instead of {a[i]}" if i is not None else f"{what}: it ends differently")


def execute_once(plan: dict, prop: str, keep_trace: bool = False, lines: bool = False) -> Result:
    """Run one plan to completion in a fresh world."""
    from . import registry  # late: registry imports the families

    world = World(plan, prop)
    CURRENT[0] = world
    fam = registry.FAMILIES[plan["family"]](world, plan)
    world.family = fam
    asyncio.set_event_loop(None)
    hashes = ReceiverHashes(world)
    random_state = random.getstate()
    random.seed(plan.get("sched", {}).get("seed", 0))
    try:
        with patched_time(world.loop), hashes, fam.seams(), Warnings(world):
            try:
                with Watchdog(lines=lines):
                    fam.setup()
                    world.run()
                    if not world.stop_now:
                        if world.loop.capped:
                            fam.on_cap()
                        elif plan.get("shutdown"):
                            world.shutdown(plan["shutdown"]["how"])
                        else:
                            fam.finish()
            except SimHang:
                pass
            except BaseException:
                if not world.hung:
                    raise
            if world.hung:
                world.violations.append(("hang", "the library spins without giving control back to the loop"))
                world.log("VIOLATION", "hang")
            if not world.loop.is_closed():
                world.log("end", fam.summary())
            res = Result()
            res.violations = world.violations
            res.others = world.others
            res.digest = world.digest()
            res.steps = world.loop.steps
            res.vtime = world.loop._vt - world.loop.t_start
            res.counts = dict(world.counts)
            res.events = world.seq
            res.capped = world.loop.capped
            res.loop_errors = list(world.loop_errors)
            res.trace = world.trace if keep_trace else None
            res.states = world.states
            res.hung = world.hung
            last, sw = None, 0
            for ev in world.trace:
                if ev[2] != last:
                    last, sw = ev[2], sw + 1
            res.switches = sw
            if world.loop.is_closed():
                world.dead = True
            elif world.hung:
                world.loop._ready.clear()  # the process is not used for another run
            else:
                fam.release()
                world.teardown()
    finally:
        random.setstate(random_state)
        fam = None
        world.family = None
        CURRENT[0] = None
        gc.collect()
    return res


class ReceiverHashes:
    """Identity hashes of receivers become deterministic, and are reused after an object died.

    Object identity (and so the default hash) is a source of nondeterminism; a freed object's
    identity is typically given to the next object allocated, which this reproduces (LIFO).
    """

    def __init__(self, world: World) -> None:
        self.free: list[int] = []
        self.n = 1000
        self.refs: dict[int, weakref.ref] = {}
        self.reuse = world.plan.get("sched", {}).get("reuse_ids", True)
        self.world = world

    def __enter__(self):
        from frequenz.channels import Receiver

        self.cls = Receiver
        self.had = "__hash__" in Receiver.__dict__
        self.orig = Receiver.__dict__.get("__hash__")
        me = self

        def sim_hash(recv) -> int:
            attrs = getattr(recv, "__dict__", None)
            if attrs is None:
                return object.__hash__(recv)
            h = attrs.get("_dst_hash")
            if h is None:
                if me.free and me.reuse:
                    h = me.free.pop()
                    me.world.count("identity_reused")
                else:
                    me.n += 1
                    h = me.n
                attrs["_dst_hash"] = h
                me.refs[h] = weakref.ref(recv, lambda _r, h=h: me._dead(h))
            return h

        Receiver.__hash__ = sim_hash
        self.ids: dict = {}  # real identity -> (reference, number)
        self.freed: dict = {}  # class -> numbers of objects that died
        self.modules = [m for name, m in list(sys.modules.items())
                        if name.startswith("frequenz.channels") and "id" not in vars(m)]
        for m in self.modules:
            m.id = self.sim_id
        return self

    def sim_id(self, obj) -> int:
        """What the library gets from id(): numbers of dead objects are used again, for the same class first."""
        real, cls = id(obj), type(obj)
        hit = self.ids.get(real)
        if hit is not None and hit[0]() is obj:
            return hit[1]
        free = self.freed.setdefault(cls, [])
        if free and self.reuse:
            no = free.pop()
            self.world.count("identity_reused")
        else:
            self.n += 1
            no = self.n
        try:
            ref = weakref.ref(obj, lambda _r: self._gone(real, cls, no))
        except TypeError:
            if not free or free[-1] != no:
                free.append(no)
            return real
        self.ids[real] = (ref, no)
        return no

    def _gone(self, real, cls, no) -> None:
        if self.ids.get(real, (None, None))[1] == no:
            del self.ids[real]
        self.freed.setdefault(cls, []).append(no)

    def _dead(self, h: int) -> None:
        self.refs.pop(h, None)
        self.free.append(h)

    def __exit__(self, *a):
        for m in self.modules:
            vars(m).pop("id", None)
        self.ids.clear()
        if self.had:
            self.cls.__hash__ = self.orig
        else:
            del self.cls.__hash__
        self.refs.clear()
        return False


CURRENT: list = [None]


class Watchdog:
    """Interrupts a run that burns CPU without coming to an end.

    In search, a CPU-time alarm; when a hang has to be confirmed or replayed, a budget of
    executed lines, which does not depend on the speed of the machine.
    """

    LINES = 6_000_000

    def __init__(self, cpu_s: float | None = 8.0, lines: bool = False) -> None:
        self.cpu_s = cpu_s
        self.lines = lines
        self.n = 0

    def fire(self) -> None:
        w = CURRENT[0]
        if w is not None:
            w.hung = True
            w.stop_now = True
        raise SimHang()

    def __enter__(self):
        if self.lines:
            import sys

            def tr(frame, event, arg):
                self.n += 1
                if self.n > self.LINES:
                    self.n = self.LINES - 20_000
                    self.fire()
                return tr

            sys.settrace(tr)
        elif self.cpu_s:
            signal.signal(signal.SIGPROF, lambda s, f: self.fire())
            signal.setitimer(signal.ITIMER_PROF, self.cpu_s, 0.5)
        return self

    def __exit__(self, *a):
        if self.lines:
            import sys

            sys.settrace(None)
        elif self.cpu_s:
            signal.setitimer(signal.ITIMER_PROF, 0)
        return False
