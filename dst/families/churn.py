"""The same cycle of uses over and over again on long-lived objects: C38.

Nothing here is about which messages arrive; the other families decide that.  What is judged
is what the library still holds after many cycles, compared with what it held after a few.
"""

from __future__ import annotations

import asyncio
import gc
import sys
import types
from collections import Counter, deque
from datetime import timedelta

from frequenz.channels import Anycast, Broadcast, Receiver, ReceiverStoppedError, merge, select, selected_from
from frequenz.channels.event import Event
from frequenz.channels.file_watcher import FileWatcher
from frequenz.channels.timer import SkipMissedAndDrift, SkipMissedAndResync, Timer, TriggerAllMissed

from ..core import SimHang
from ..gen import gen_sched
from ..simfs import SimFS, change
from .base import Boom, Family

US = timedelta(microseconds=1)
POLICIES = {"all": TriggerAllMissed, "resync": SkipMissedAndResync, "drift": SkipMissedAndDrift}
SHORT = 5  # a receive that finds nothing gives up after this many µs


def plus_one(value):
    return value


class Note:
    """A message of a churn run."""

    def __repr__(self):
        return "note"


class Picky:
    """A mapping function that fails for every other message."""

    def __init__(self):
        self.n = 0

    def __call__(self, value):
        self.n += 1
        if self.n % 2:
            raise Boom("f")
        return value


class Unsteady(Receiver):
    """A user-defined receiver that always has something, and sometimes fails."""

    def __init__(self, mode):
        self.mode = mode
        self.n = 0

    async def ready(self):
        self.n += 1
        if self.mode == "wait":
            await asyncio.sleep(1e-6)
        if self.mode == "fail-ready" and self.n % 3 == 0:
            raise Boom("r")
        return not (self.mode == "stop" and self.n % 4 == 0)

    def consume(self):
        if self.mode == "fail" and self.n % 2:
            raise Boom("c")
        if self.mode == "stop" and self.n % 4 == 0:
            raise ReceiverStoppedError(self)
        return self.n


CONTAINERS = (list, dict, set, frozenset, tuple, deque)
COUNTED = (asyncio.Future, asyncio.Lock, asyncio.Condition, asyncio.Event, types.CoroutineType, types.AsyncGeneratorType,
           types.GeneratorType, Note)
KIND: dict = {}  # type -> whether it is counted


class ChurnFamily(Family):
    GENERIC = ("C38",)

    def setup(self) -> None:
        self.world.loop.max_steps = 400_000
        super().setup()

    def seams(self):
        self.fs = SimFS(self.world)
        return self.fs

    async def _init(self) -> None:
        await self.build()  # the actors are spawned once per cycle

    async def build(self) -> None:
        cfg = self.cfg
        self.perm: dict = {}
        p = self.perm
        p["a"] = Anycast(name="a", limit=cfg["alimit"])
        p["b"] = Broadcast(name="b", resend_latest=cfg["resend"])
        p["c"] = Broadcast(name="c")
        p["d"] = Anycast(name="d", limit=3)
        p["sa"], p["sb"], p["sc"], p["sd"] = (p[k].new_sender() for k in "abcd")
        p["ra"] = p["a"].new_receiver()
        p["rb"] = p["b"].new_receiver(limit=cfg["blimit"])
        p["rm"] = p["b"].new_receiver(name="m", limit=4).map(Picky() if cfg["picky"] else plus_one)
        rc, rd = p["c"].new_receiver(limit=4).map(plus_one), p["d"].new_receiver()
        if cfg["merged"]:
            p["rx"] = merge(rc, rd)
        else:
            p["rc"], p["rd"] = rc, rd
        p["ev"] = Event(name="ev")
        p["tm"] = Timer(10 * US, POLICIES[cfg["policy"]](), auto_start=False)
        p["fw"] = FileWatcher(paths=["fw"])
        self.rids = [k for k in p if k in ("ra", "rb", "rm", "rx", "rc", "rd", "ev", "tm", "fw")]
        self.settling = False

    # -- one cycle ---------------------------------------------------------------------------
    def recvs(self, names):
        return [self.perm[n] if n in self.perm else Unsteady(n) for n in names]

    async def call(self, a, aw, what, timeout=None):
        out, val = await a.call(aw, what, timeout)
        if not self.settling:
            self.world.log(a.name, *what, out)
        return out, val

    async def op_send(self, a, ch, n, timeout):
        for _ in range(n):
            await self.call(a, self.perm["s" + ch].send(Note()), ("send", ch), timeout)

    async def op_get(self, a, rid, n, timeout):
        if rid not in self.perm:
            return
        for _ in range(n):
            out, _v = await self.call(a, self.perm[rid].receive(), ("recv", rid), timeout)
            if out != "ok":
                return

    async def op_abandon(self, a, rid, k, await_it):
        if rid not in self.perm:
            return
        t = self.world.loop.create_task(self.perm[rid].ready())
        for _ in range(k):
            await asyncio.sleep(0)
        t.cancel()
        if await_it:
            await asyncio.wait([t])
        self.world.count("abandoned_ready")

    async def op_tmprecv(self, a, ch, named, use, k, n):
        """Receivers that are created, used (or not) and dropped."""
        keep = [await self.tmprecv(a, ch, named, use, k) for _ in range(n)]
        self.world.count("receivers_dropped", len(keep))

    async def tmprecv(self, a, ch, named, use, k):
        c = self.perm[ch]
        kw = {"name": f"n{k}"} if named else {}
        if ch in "bc":
            kw["limit"] = 1 + k % 3
        r = c.new_receiver(**kw) if ch in "bc" else c.new_receiver()
        if use == "map":
            r = r.map(plus_one)
        if use == "ready":
            await self.call(a, r.ready(), ("ready", "tmp"), SHORT)
        elif use == "bg":
            t = self.world.loop.create_task(r.ready())
            for _ in range(k % 4):
                await asyncio.sleep(0)
            t.cancel()
        elif use != "none":
            for _ in range(k):
                await self.call(a, r.receive(), ("recv", "tmp"), SHORT)
        return r

    async def op_tmpsend(self, a, ch, n, k):
        for _ in range(n):
            s = self.perm[ch].new_sender()
            t = self.world.loop.create_task(s.send(Note()))
            for _ in range(k):
                await asyncio.sleep(0)
            t.cancel()
            await asyncio.wait([t])

    async def op_merge(self, a, names, n, end):
        m = merge(*self.recvs([x for x in names if x != "rx"] or ["wait"]))
        for _ in range(n):
            if (await self.call(a, m.receive(), ("recv", "merge"), SHORT))[0] != "ok":
                break
        if end in ("stop", "both"):
            await self.call(a, m.stop(), ("stop", "merge"))
            await self.call(a, m.ready(), ("ready", "merge"), SHORT)
        if end == "bg":
            t = self.world.loop.create_task(m.ready())
            await asyncio.sleep(0)
            t.cancel()
        self.world.count("mergers_dropped")

    async def op_select(self, a, names, n, how):
        recvs = self.recvs(names)
        sources = list({id(r): r for r in recvs}.values())

        async def loop():
            k = 0
            async for sel in select(*sources):
                for r in sources:
                    if selected_from(sel, r):
                        break
                k += 1
                if k >= n:
                    if how == "break":
                        break
                    if how == "raise":
                        raise Boom("s")
                    if how == "hang":
                        await asyncio.sleep(1)

        async def unhandled():
            async for _sel in select(*sources):
                pass

        async def by_hand():
            it = select(*sources)
            for _ in range(n):
                sel = await anext(it, None)
                if sel is None:
                    break
                for r in sources:
                    selected_from(sel, r)
            if how == "aclose":
                await it.aclose()

        fn = {"unhandled": unhandled, "aclose": by_hand, "leave": by_hand}.get(how, loop)
        out, val = await self.call(a, fn(), ("select", ""), 40)
        del val
        self.world.count("selects_" + how)

    async def op_event(self, a, how, n):
        e = self.perm["ev"]
        for _ in range(n):
            if how == "wait":
                await self.call(a, e.ready(), ("ready", "ev"), SHORT)
            elif how == "set":
                e.set()
                e.set()
                await self.call(a, e.receive(), ("recv", "ev"), SHORT)
            else:
                t = Event(name="tmp") if how == "stop" else Event()
                w = [self.world.loop.create_task(t.receive()) for _ in range(2)]
                await asyncio.sleep(0)
                t.set()
                if how == "stop":
                    t.stop()
                else:
                    for x in w:
                        x.cancel()
                await asyncio.wait(w)
                for x in w:
                    if not x.cancelled():
                        x.exception()

    async def op_timer(self, a, how, n):
        t = self.perm["tm"]
        for i in range(n):
            if how == "reset":
                t.reset(start_delay=i * US)
                await self.call(a, t.ready(), ("ready", "tm"), SHORT)
            elif how == "tick":
                t.reset()
                await self.call(a, t.receive(), ("recv", "tm"), 50)
                self.world.loop.stall(35)
                await self.call(a, t.receive(), ("recv", "tm"), 50)
            elif how == "stop":
                t.reset()
                w = self.world.loop.create_task(t.ready())
                await asyncio.sleep(0)
                t.stop()
                await self.call(a, t.ready(), ("ready", "tm"), SHORT)
                await asyncio.wait([w])
            elif how == "rewait":
                # Reset, again and again, while somebody waits.
                x = Timer(3600 * 10**6 * US, POLICIES["all"]())
                w = self.world.loop.create_task(x.ready())
                for _ in range(3):
                    await asyncio.sleep(0)
                    x.reset(start_delay=7200 * 10**6 * US)
                await asyncio.sleep(0)
                if i % 2:
                    x.stop()
                w.cancel()
                await asyncio.wait([w])
            elif how == "giveup":
                # Waiting is given up long before the timer is due.
                x = t if i % 2 else Timer(3600 * 10**6 * US, POLICIES["drift"]())
                if i % 2:
                    x.reset(start_delay=10**6 * US)
                for _ in range(2):
                    await self.call(a, x.ready(), ("ready", "tmp"), SHORT)
                    await self.call(a, x.receive(), ("recv", "tmp"), SHORT)
            else:
                x = Timer(3 * US, POLICIES[how](), start_delay=i * US)
                await self.call(a, x.receive(), ("recv", "tmp"), SHORT)
                await self.call(a, x.ready(), ("ready", "tmp"), SHORT)
        t.stop()

    async def op_watch(self, a, how, n):
        for i in range(n):
            if how == "perm":
                cur = self.fs.current("fw")
                if cur is not None:
                    cur.report([change("m", f"x{i}"), change("a", f"y{i}")])
                await self.call(a, self.perm["fw"].receive(), ("recv", "fw"), SHORT)
                await self.call(a, self.perm["fw"].receive(), ("recv", "fw"), SHORT)
            else:
                f = FileWatcher(paths=["tmp"])
                if how in ("use", "wait"):
                    await self.call(a, f.ready(), ("ready", "tmp"), SHORT)
                if how == "use":
                    cur = self.fs.current("tmp")
                    if cur is not None:
                        cur.report([change("m", "z")])
                    await self.call(a, f.receive(), ("recv", "tmp"), SHORT)
                await asyncio.sleep(0)
                del f
                gc.collect()
                self.world.count("filewatcher_dropped")

    async def op_chan(self, a, kind, n):
        """A channel that is created, used, closed and forgotten."""
        for i in range(n):
            c = Anycast(name="t", limit=1) if kind == "any" else Broadcast(name="t", resend_latest=bool(i % 2))
            s, r, q = c.new_sender(), c.new_receiver(), c.new_receiver()
            tasks = [self.world.loop.create_task(x) for x in (r.receive(), q.map(plus_one).receive())]
            await asyncio.sleep(0)
            tasks += [self.world.loop.create_task(s.send(Note())) for _ in range(4)]
            await asyncio.sleep(0)
            tasks[0].cancel()
            tasks[-1].cancel()
            await c.close()
            await asyncio.wait(tasks)
            for t in tasks:
                if not t.cancelled():
                    t.exception()
            await self.call(a, s.send(Note()), ("send", "closed"), SHORT)

    async def op_look(self, a):
        """Printing, and properties."""
        for o in self.perm.values():
            str(o), repr(o)

    async def op_settle(self, a):
        """Everything is emptied: the end of a cycle."""
        self.settling = True
        for ch in "abcd":
            await self.call(a, self.perm["s" + ch].send(Note()), ("send", ch), SHORT)
        for rid in self.rids:
            k = 0
            while k < 40 and (await self.call(a, self.perm[rid].receive(), ("recv", rid), SHORT))[0] == "ok":
                k += 1
        self.settling = False

    # -- what is held ------------------------------------------------------------------------
    def census(self) -> Counter:
        for key in list(self.fs.notifiers):
            self.fs.notifiers[key] = [n for n in self.fs.notifiers[key] if not n.closed]
        gc.collect()
        out: Counter = Counter()
        for o in gc.get_objects():
            t = type(o)
            k = KIND.get(t)
            if k is None:
                k = KIND[t] = issubclass(t, COUNTED) or t.__module__.startswith("frequenz.channels")
            if k:
                out[t.__name__] += 1
        for h in list(self.world.loop._scheduled):
            if not h._cancelled:
                out["scheduled callbacks"] += 1
        todo = list(self.perm.values())
        for name, mod in list(sys.modules.items()):
            if name.startswith("frequenz.channels") and mod is not None:
                for v in vars(mod).values():
                    if isinstance(v, CONTAINERS) and not isinstance(v, tuple):
                        todo.append(v)
                    elif isinstance(v, type) and v.__module__ == name:
                        todo.extend(x for x in vars(v).values() if isinstance(x, CONTAINERS))
        seen: set = set()
        while todo:
            o = todo.pop()
            if id(o) in seen:
                continue
            seen.add(id(o))
            if isinstance(o, CONTAINERS):
                out["container entries"] += len(o)
                todo.extend(o.values() if isinstance(o, dict) else o)
                if isinstance(o, dict):
                    todo.extend(o)
                continue
            mod = type(o).__module__
            if isinstance(o, type) or not (mod.startswith(("frequenz.channels", "asyncio.locks", "asyncio.queues", "weakref",
                                                           "_weakrefset"))):
                continue
            todo.extend(vars(o).values() if hasattr(o, "__dict__") else ())
            for s in getattr(type(o), "__slots__", ()) or ():
                todo.append(getattr(o, s, None))
        return out

    def quiescent(self) -> None:
        self.check_actors()
        if self.init_task.done():
            self.fs.poll()

    def epilogue(self) -> None:
        w = self.world
        n = self.cfg["cycles"]
        early: Counter = Counter()
        late: Counter | None = None
        w.loop.far = 60.0
        for i in range(n):
            self.phase_ops("cycle", [(a["n"], a["ops"]) for a in self.plan["actors"]])
            if w.stop_now or w.loop.capped:
                return
            self.phase_ops("settle", [("settle", [["gc"], ["settle"], ["sleep", 60_000]])])
            if w.stop_now or w.loop.capped:
                return
            # What is there at most in the first half, and at least at the end.
            if i < n // 2 and i % 5 == 4:
                early |= self.census()
            elif i >= n - 3:
                now = self.census()
                late = now if late is None else late & now
            w.count("cycles")
        w.loop.far = None
        growth = {k: late[k] - early[k] for k in late if late[k] - early[k] >= max(4, n // 8)}
        if growth:
            w.violate("C38", "growth", f"after {n} equal cycles there are more and more: {', '.join(sorted(growth))}")

    def on_cap(self) -> None:
        self.world.count("step_cap")

    def release(self) -> None:
        self.perm.clear()
        super().release()

    def summary(self):
        return ()


def generate(rng, prop, tier) -> dict:
    cfg = {"alimit": rng.choice([1, 2, 10]), "blimit": rng.choice([1, 2, 50]), "resend": rng.random() < 0.5,
           "picky": rng.random() < 0.3, "merged": rng.random() < 0.6, "policy": rng.choice(sorted(POLICIES)),
           "cycles": rng.choice([30, 40]) if tier == "quick" else rng.choice([40, 80, 120])}
    rids = ["ra", "rb", "rm", "ev", "tm", "fw"] + (["rx"] if cfg["merged"] else ["rc", "rd"])
    odd = ["wait", "fail", "stop", "fail-ready"]

    def one():
        ch = rng.choice("abcd")
        timeout = rng.choice([0, 1, SHORT])
        srcs = rng.sample(rids, rng.randrange(1, 4)) + rng.sample(odd, rng.choice([0, 0, 1, 2]))
        return rng.choice([
            lambda: ["send", ch, rng.randrange(1, 6), timeout],
            lambda: ["send", ch, rng.randrange(1, 6), timeout],
            lambda: ["get", rng.choice(rids), rng.randrange(1, 5), timeout],
            lambda: ["abandon", rng.choice(rids), rng.randrange(4), rng.random() < 0.5],
            lambda: ["tmprecv", ch, rng.random() < 0.4, rng.choice(["none", "ready", "bg", "map", "recv"]), rng.randrange(4),
                     rng.choice([1, 1, 2, 5])],
            lambda: ["tmpsend", ch, rng.randrange(1, 4), rng.randrange(3)],
            lambda: ["merge", srcs, rng.randrange(4), rng.choice(["stop", "drop", "both", "bg"])],
            lambda: ["merge", srcs, rng.randrange(4), rng.choice(["stop", "drop", "both", "bg"])],
            lambda: ["select", srcs, rng.randrange(1, 4),
                     rng.choice(["break", "raise", "hang", "unhandled", "aclose", "leave"])],
            lambda: ["select", srcs, rng.randrange(1, 4),
                     rng.choice(["break", "raise", "hang", "unhandled", "aclose", "leave"])],
            lambda: ["event", rng.choice(["wait", "set", "stop", "drop"]), rng.randrange(1, 3)],
            lambda: ["timer", rng.choice(["reset", "tick", "stop", "all", "drift", "resync", "rewait", "giveup"]), rng.randrange(1, 3)],
            lambda: ["watch", rng.choice(["perm", "perm", "use", "new", "wait", "wait"]), rng.randrange(1, 3)],
            lambda: ["chan", rng.choice(["any", "bro"]), rng.randrange(1, 3)],
            lambda: ["look"],
        ])()

    actors = []
    for i in range(rng.choice([1, 1, 1, 2, 3])):
        ops = []
        for _ in range(rng.choice([1, 1, 2, 3, 5])):
            ops.append(one())
            if rng.random() < 0.3:
                ops.append(["yield", rng.randrange(1, 4)])
        actors.append({"n": f"c{i}", "ops": ops})
    if len(actors) > 1 and rng.random() < 0.4:
        actors.append({"n": "k", "ops": [["yield", rng.randrange(6)], ["cancel", "c0"]]})
    sched = gen_sched(rng)
    sched["reuse_ids"] = rng.random() < 0.5
    return {"family": "churn", "cfg": cfg, "actors": actors, "sched": sched}
