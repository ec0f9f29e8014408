"""Workloads over merge() and map() of all kinds of receivers at once: C13 to C16 (and others).

Every source - an event, a timer, a file watcher, a channel - is wrapped in a mapping function
that makes a unique object of each value.  A call of that function is the moment at which the
value was taken, and is checked against a reference model of the source; the objects are then
followed through the tree of mergers and mapped receivers.
"""

from __future__ import annotations

import gc
import os
import pathlib
import weakref
from datetime import timedelta

from frequenz.channels import Anycast, Broadcast, Receiver, merge
from frequenz.channels.event import Event
from frequenz.channels.file_watcher import Event as FileEvent
from frequenz.channels.file_watcher import FileWatcher
from frequenz.channels.timer import Timer

from ..gen import Pace, disruptor_ops, gen_sched, recv_ops, sprinkle
from ..simfs import SimFS, change
from .base import Family, brief, gen_kind
from .filewatcher import NUM, TYPES
from .timer import Model, around, build_policy, policy_next, us


class Tagged:
    """One value that was taken from a source."""

    __slots__ = ("sid", "seq", "value", "hops", "__weakref__")

    def __init__(self, sid, seq, value):
        self.sid, self.seq, self.value, self.hops = sid, seq, value, 0

    def __repr__(self):
        return f"{self.sid}#{self.seq}"


class Source:
    """The reference model of one source."""

    prop = ()
    stop_op = None

    def __init__(self, fam, spec):
        self.fam, self.spec, self.sid = fam, spec, spec["id"]
        self.taken = 0  # values taken so far
        self.out: list = []  # those that were taken and not delivered
        self.merges = 0  # mergers above it
        self.maps = 0  # mapping functions above the tagging one
        self.closed = False
        self.passed = 0
        self.sides = spec["side"][0] if spec.get("side") else 0  # how often its function still has a side effect

    def take(self, value) -> None:
        raise NotImplementedError

    def waiting(self) -> bool:
        """There is a value that can be taken right now."""
        raise NotImplementedError

    def ended(self) -> bool:
        return self.closed and not self.waiting()

    def bad(self, kind, detail) -> None:
        self.fam.world.violate(self.prop, kind, f"{self.sid}: {detail}")


class EventSource(Source):
    prop = ("C24", "C14", "C13")

    def __init__(self, fam, spec):
        super().__init__(fam, spec)
        self.obj = Event(name=self.sid)
        self.is_set = False

    def take(self, value):
        if value is not None:
            self.bad("value", f"an event delivered {value!r}")
        if not self.is_set:
            self.bad("receive-without-set", "taken without a pending set()")
        self.is_set = False

    def waiting(self):
        return self.is_set


class ChannelSource(Source):
    prop = ("C14", "C13")

    def __init__(self, fam, spec):
        super().__init__(fam, spec)
        if spec["kind"] == "any":
            self.obj = Anycast(name=self.sid, limit=spec["limit"])
        else:
            self.obj = Broadcast(name=self.sid)
        self.end = self.obj.new_sender()
        self.queue: list = []
        self.flying: set = set()  # their send() did not return yet

    def take(self, value):
        mid = self.fam.mid_of(value)
        if not self.queue and mid in self.flying:
            self.flying.remove(mid)
            return
        if not self.queue or self.queue[0] != mid:
            self.bad("wrong-message", f"{mid} was taken, expected {self.queue[:2]}")
            return
        self.queue.pop(0)

    def waiting(self):
        return bool(self.queue)


class TimerSource(Source):
    def __init__(self, fam, spec):
        super().__init__(fam, spec)
        w = fam.world
        pol = spec["policy"]
        self.prop = ("C25", {"all": "C26", "resync": "C27", "drift": "C28"}[pol[0]], "C14")
        kw = {"start_delay": us(spec["delay"])} if spec["delay"] else {}
        self.obj = Timer(us(spec["interval"]), build_policy(fam, self.sid, pol), **kw)
        self.m = Model(spec["interval"], pol)
        self.m.reset(w.loop.now_us(), spec["delay"], False)

    def take(self, value):
        w, m = self.fam.world, self.m
        now = w.loop.now_us()
        if not isinstance(value, timedelta):
            self.bad("tick-value", f"a timer delivered {value!r}")
            return
        if not m.running:
            w.violate(("C30", "C14"), "tick-while-stopped", f"{self.sid} ticked although it is stopped")
            return
        drift = round(value.total_seconds() * 1_000_000)
        if now < m.next:
            self.bad("early-tick", f"ticked at {now}, scheduled for {m.next}")
        if drift != now - m.next:
            self.bad("wrong-drift", f"ticked with drift {drift} us, expected {now - m.next} us")
        if now - m.next >= m.interval:
            w.count("missed_ticks")
        m.next = policy_next(m.pol, m.interval, m.next, now, m.start)
        m.n += 1

    def waiting(self):
        return self.m.running and self.fam.world.loop.now_us() > self.m.next + 1

    def ended(self):
        m = self.m
        return not m.running

    def over(self) -> bool:
        """A stopped timer may be noticed only when its next tick would have been due."""
        m = self.m
        return not m.running and self.fam.world.loop.now_us() > m.stop_due + 1


class WatchSource(Source):
    prop = ("C31", "C14")

    def __init__(self, fam, spec):
        super().__init__(fam, spec)
        kw = {} if spec["types"] is None else {"event_types": {TYPES[t] for t in spec["types"]}}
        self.kinds = set(spec["types"] or "amd")
        self.obj = FileWatcher(paths=[self.sid], **kw)
        self.queue: list = []
        self.seen: dict = {}

    def sync(self):
        for n in self.fam.fs.notifiers.get(self.sid, ()):
            k = self.seen.get(id(n), 0)
            for b in n.batches[k:]:
                ev = [(NUM[c], str(p)) for c, p in b if NUM[c] in self.kinds]
                if ev:
                    self.queue.append(ev)
            self.seen[id(n)] = len(n.batches)
        return self.queue

    def take(self, value):
        q = self.sync()
        if not isinstance(value, FileEvent) or not isinstance(value.path, pathlib.Path):
            self.bad("not-an-event", f"a file watcher delivered {value!r}")
            return
        ev = (NUM[value.type.value], str(value.path))
        if not q or ev not in q[0]:
            self.bad("wrong-event", f"{ev} was taken, expected one of {q[:1]}")
            return
        q[0].remove(ev)
        if not q[0]:
            q.pop(0)

    def waiting(self):
        return bool(self.sync())


SOURCES = {"event": EventSource, "timer": TimerSource, "watch": WatchSource, "any": ChannelSource, "bro": ChannelSource}


class MixedFamily(Family):
    GENERIC = ("C14", "C15")

    def seams(self):
        self.fs = SimFS(self.world)
        return self.fs

    async def build(self) -> None:
        self.sources: dict = {}
        self.handles: dict = {}
        self.merger_refs: dict = {}
        self.mergers: dict = {}
        self.stopped = None  # "stopping" or "stopped": the only merger
        self.direct = False
        self.dropped: list = []
        self.max_passed = 0
        recv, _sids = self.make(self.cfg["top"])
        self.top = self.add_recv("top", recv, comp=("C14", "C15"))

    def make(self, node):
        if node["t"] == "src":
            src = self.sources[node["id"]] = SOURCES[node["kind"]](self, node)
            obj = src.obj if isinstance(src.obj, Receiver) else src.obj.new_receiver(
                **({"limit": 100_000} if node["kind"] == "bro" else {}))
            self.world.count("source_" + node["kind"])
            recv = obj.map(self.tagging(node["id"]))
            if self.cfg["keep"]:
                self.handles[node["id"]] = recv
            return recv, [src]
        if node["t"] == "map":
            recv, srcs = self.make(node["src"])
            for s in srcs:
                s.maps += 1
            return recv.map(self.through(node["id"])), srcs
        subs = [self.make(n) for n in node["srcs"]]
        recv = merge(*[r for r, _s in subs])
        srcs = [s for _r, ss in subs for s in ss]
        for s in srcs:
            s.merges += 1
        self.merger_refs[node["id"]] = weakref.ref(recv)
        self.mergers[node["id"]] = len(subs)
        if self.cfg["keep"]:
            self.handles[node["id"]] = recv
        return recv, srcs

    def tagging(self, sid):
        def f(value):
            src = self.sources[sid]
            w = self.world
            if self.stopped == "stopped" and not self.direct and not w.dead:
                w.violate("C16", "taken-after-stop", f"a value of {sid} was taken after stop() of the merger")
            src.take(value)
            t = Tagged(sid, src.taken, value)
            src.taken += 1
            src.out.append(t)
            if len(src.out) > 2 * src.merges + 1 and not self.direct:
                w.violate("C34", "taken-ahead", f"{len(src.out)} values of {sid} were taken that nobody received, "
                                                f"{src.merges} mergers are above it")
            if src.sides > 0 and not w.dead:
                src.sides -= 1
                self.side(*src.spec["side"][1:])
            return t

        return f

    def side(self, what, sid, *args) -> None:
        """A mapping function that does something to a source, maybe the one that is being consumed."""
        w = self.world
        src = self.sources[sid]
        w.log("f", what, sid, *args)
        w.count("side_effect_" + what)
        if what == "set":
            src.is_set = src.is_set or not src.closed
            src.obj.set()
        elif what == "treset":
            if src.m.running:
                src.m.reset(w.loop.now_us(), args[0], True)
                src.obj.reset(start_delay=us(args[0]))
        elif not src.closed:
            src.closed = True
            if isinstance(src, TimerSource):
                src.m.stop(w.loop.now_us())
            src.obj.stop()

    def through(self, fid):
        def f(value):
            if not isinstance(value, Tagged):
                self.world.violate(("C13", "C14"), "wrong-argument", f"{fid} was called with {value!r}")
            else:
                value.hops += 1
            return value

        return f

    def inspectables(self):
        if not self.init_task.done():
            return []
        return [*((k, s.obj) for k, s in self.sources.items()), *self.handles.items(), *super().inspectables()]

    def describe(self, st, value):
        return repr(value) if isinstance(value, Tagged) else f"?{type(value).__name__}"

    def stop_names_receiver(self, st, via) -> bool:
        return False

    # -- model -----------------------------------------------------------------------------
    def got(self, st, value, actor) -> None:
        w = self.world
        if not isinstance(value, Tagged):
            w.violate(("C14", "C13"), "invented-message", f"{st.rid} yielded {value!r}")
            return
        src = self.sources[value.sid]
        if not any(t is value for t in src.out):
            w.violate("C14", "duplicate", f"{st.rid} yielded {value} again")
            return
        if src.out[0] is not value:
            w.violate("C14", "source-order", f"{st.rid} yielded {value}, the next one of that source is {src.out[0]}")
        src.out.remove(value)
        w.count("delivered_" + src.spec["kind"])
        if value.hops != src.maps and not self.direct:
            w.violate("C13", "mapping-calls", f"{value.hops} of {src.maps} functions were applied to {value}")
        # Fairness (C35).
        src.passed = 0
        for o in self.sources.values():
            if o is src:
                continue
            if not (o.out or o.waiting()):
                o.passed = 0
                continue
            o.passed += 1
            self.max_passed = max(self.max_passed, o.passed)
            if o.passed > 4 * len(self.sources) + 8 and not self.stopped:
                w.violate("C35", "starved", f"{o.passed} values of other sources came out, {o.sid} has some, too")

    def pending(self) -> list:
        return [t for s in self.sources.values() for t in s.out]

    def stop_reported(self, st, actor) -> None:
        w = self.world
        if self.pending():
            w.violate({"C14", "C15", "C12"} | ({"C16"} if self.stopped else set()), "stop-too-early",
                      f"{st.rid} reported its stop, {self.pending()} were taken and not delivered")
        elif not self.stopped:
            bad = [s.sid for s in self.sources.values() if not s.ended()]
            if bad:
                w.violate({"C15", "C12"}, "stop-too-early", f"{st.rid} reported its stop, but {bad} did not end")

    def ready_false(self, st) -> None:
        self.stop_reported(st, None)

    def became_ready(self, st) -> None:
        st.ready_true = True
        if self.cfg["top"]["t"] == "merge" and not self.pending():
            self.world.violate({"C11", "C15"}, "ready-without-message", f"ready() on {st.rid} returned True without a message")

    # -- operations ------------------------------------------------------------------------
    async def op_set(self, a, sid) -> None:
        src = self.sources[sid]
        self.world.log(a.name, "set", sid)
        if not src.closed:
            src.is_set = True
        src.obj.set()

    async def op_send(self, a, sid, mid, kind) -> None:
        src = self.sources[sid]
        self.world.log(a.name, "send?", sid, mid)
        src.flying.add(mid)
        out, _val = await a.call(src.end.send(self.new_msg(mid, kind)), ("send", mid), None)
        self.world.log(a.name, "send", mid, out)
        if out == "ok" and mid in src.flying:
            src.queue.append(mid)
        src.flying.discard(mid)

    async def op_fs(self, a, sid, changes) -> None:
        n = self.fs.current(sid)
        self.world.log(a.name, "fs", sid, changes, n is not None)
        if n is not None:
            self.world.count("changes_reported", len(changes))
            n.report([change(k, p) for k, p in changes])

    async def op_treset(self, a, sid, delay) -> None:
        src = self.sources[sid]
        if not src.m.running:
            return  # the merger is done with it
        self.world.log(a.name, "treset", sid, delay)
        self.world.count("merged_timer_reset")
        src.m.reset(self.world.loop.now_us(), delay, True)
        src.obj.reset(start_delay=us(delay))

    async def op_end(self, a, sid) -> None:
        """Stop or close one source, whatever that means for it."""
        src = self.sources[sid]
        if src.closed:
            return
        self.world.log(a.name, "end", sid)
        self.world.count("ended_" + src.spec["kind"])
        if isinstance(src, WatchSource):
            n = self.fs.current(sid)
            if n is None:
                return
            src.closed = True
            n.finish("stop")
            return
        src.closed = True
        if isinstance(src, ChannelSource):
            await a.call(src.obj.close(), ("close", sid))
        else:
            if isinstance(src, TimerSource):
                src.m.stop(self.world.loop.now_us())
            src.obj.stop()

    async def op_nothing(self, a, sid) -> None:
        """The native watcher of a file watcher times out, and is asked again."""
        n = self.fs.current(sid)
        self.world.log(a.name, "nothing", sid, n is not None)
        if n is not None:
            n.finish("timeout")

    async def op_mstop(self, a) -> None:
        """stop() on the only merger of the tree."""
        if len(self.mergers) != 1 or not self.cfg["keep"] or self.stopped:
            return
        w = self.world
        (mid,) = self.mergers
        w.log(a.name, "mstop?", mid)
        w.count("merger_stopped")
        self.stopped = "stopping"
        out, val = await a.call(self.handles[mid].stop(), ("mstop", mid))
        w.log(a.name, "mstop", mid, out)
        if out == "ok":
            self.stopped = "stopped"
        elif out in ("exc", "spurious_cancel"):
            w.violate("C16", "stop-raised", f"stop() of {mid} ended with {out} {brief(val) if val else ''}")

    async def op_drop(self, a) -> None:
        st = self.usable("top")
        if st is None or st.inflight:
            return
        self.world.log(a.name, "drop")
        self.world.count("pipeline_dropped")
        self.handles.clear()
        self.dropped.append(weakref.ref(st.recv))
        self.dropped += self.merger_refs.values()
        st.recv = None
        for s in self.sources.values():
            s.obj = None if isinstance(s, (EventSource, TimerSource, WatchSource)) else s.obj
        del self.rs["top"]

    async def op_direct(self, a, sid) -> None:
        """Take from a source under a stopped merger what is left in it."""
        self.direct = True
        recv = self.handles[sid]
        for _ in range(300):
            out, val = await a.call(recv.receive(), ("direct", sid), 5)
            if out != "ok":
                break
            self.world.log(a.name, "direct", sid, repr(val))
            if isinstance(val, Tagged):
                self.sources[val.sid].out.remove(val)

    # -- invariants ------------------------------------------------------------------------
    def quiescent(self) -> None:
        super().quiescent()
        w = self.world
        if w.stop_now or not self.init_task.done():
            return
        self.fs.poll()
        for who, kind, target in self.blocked():
            if kind == "mstop":
                w.violate("C16", "stop-stuck", f"{who} waits in stop() of {target}")
            if kind not in self.WAITS or target != "top":
                continue
            if self.pending():
                w.violate({"C15", "C14", "C11"}, "waiter-stranded", f"{who} waits in {kind}(), {self.pending()} were taken for it")
            elif self.stopped == "stopped":
                w.violate("C16", "stuck-after-end", f"{who} waits in {kind}() after stop() of the merger")
            elif not self.stopped:
                ready = [s.sid for s in self.sources.values() if s.waiting()]
                if ready:
                    props = {"C15", "C11"}.union(*(self.sources[x].prop for x in ready))
                    w.violate(props, "waiter-stranded", f"{who} waits in {kind}(), {ready} have something for it")
                elif all(s.over() if isinstance(s, TimerSource) else s.ended() for s in self.sources.values()):
                    w.violate({"C15", "C12"}, "stuck-after-end", f"{who} waits in {kind}(), all sources have ended")
                for s in self.sources.values():
                    if isinstance(s, WatchSource) and not s.closed:
                        n = self.fs.current(s.sid)
                        if n is None or n.waiter is None:
                            w.violate({"C15", "C31", "C32"}, "not-watching", f"{who} waits in {kind}(), {s.sid} does not watch")
                        elif n.paths != {os.path.abspath(s.sid)}:
                            w.violate("C31", "wrong-paths", f"{s.sid} watches {sorted(n.paths)}")

    def watches(self) -> int:
        return sum(isinstance(s, WatchSource) for s in self.sources.values())

    # -- end ---------------------------------------------------------------------------------
    def epilogue(self) -> None:
        w = self.world
        mode = self.cfg["epi"]
        # Everything works after all that happened.
        ops = []
        if not self.stopped:
            for k, s in enumerate(self.sources.values()):
                if s.closed:
                    continue
                if isinstance(s, EventSource):
                    ops += [["set", s.sid]]
                elif isinstance(s, WatchSource):
                    ops += [["fs", s.sid, [["a", "y0"], ["m", "y1"], ["d", "y1"]]]]
                elif isinstance(s, ChannelSource) and (s.spec["kind"] == "bro" or len(s.queue) < s.spec["limit"]):
                    ops += [["send", s.sid, 50_000 + k, "n"]]
        for s in self.sources.values():
            if isinstance(s, TimerSource):
                ops += [["end", s.sid]]
        self.phase_ops("timers", [("e:timers", ops)])
        if w.stop_now or w.loop.capped:
            return
        now = w.loop.now_us()
        wait = max([s.m.stop_due - now for s in self.sources.values() if isinstance(s, TimerSource)] + [0])
        self.phase_ops("wait", [("e:wait", [["sleep", wait + 5]])])
        if mode == "drop" and not self.stopped:
            self.drain()
            self.check_out()
            self.drop()
            return
        if mode == "stop":
            self.phase_ops("stop", [("e:stop", [["mstop"]])])
        self.drain()  # tasks that were blocked go on, and may stop the merger only now
        self.check_out()
        if w.stop_now or w.loop.capped:
            return
        if self.stopped:
            if self.lib_tasks() and len(self.lib_tasks()) > self.watches():
                w.violate("C16", "leaked-tasks", "background tasks survive stop() of the merger")
            for i in range(60):  # senders that were blocked go on
                n = sum(s.taken for s in self.sources.values())
                self.phase_ops(f"direct{i}", [(f"x:direct{i}", [["direct", s] for s in self.sources])])
                if w.stop_now or w.loop.capped:
                    return
                left = [s.sid for s in self.sources.values() if s.waiting()]
                if not left or i > 3 and n == sum(s.taken for s in self.sources.values()):
                    break
            if left:
                w.violate(("C16", "C14"), "lost-by-stop", f"{left} have values nobody can get after stop() of the merger")
        else:
            left = [s.sid for s in self.sources.values() if s.waiting()]
            if left:
                w.violate({"C14", "C15"}.union(*(self.sources[x].prop for x in left)), "message-lost",
                          f"{left} have values which were not delivered")
            self.phase_ops("end", [("e:end", [["end", s] for s in self.sources] + [["recv", "top", 5]])])
            self.drain()
            self.phase_ops("end2", [("e:end2", [["end", s] for s in self.sources])])
            self.drain()
            self.check_out()
        if w.stop_now or w.loop.capped:
            return
        never = [s for s in self.sources.values() if isinstance(s, WatchSource) and not s.closed]
        if never and not self.stopped:
            return  # nobody ever used the merged receiver
        self.phase_ops("after", [("e:after", [["recv", "top", None], ["ready", "top", None], ["anext", "top", None],
                                              ["consume", "top"]])])
        if w.stop_now or w.loop.capped:
            return
        if not self.top.stopped:
            w.violate(("C15", "C12"), "not-stopped", "the merged receiver did not stop after all its sources ended")
        if not self.stopped and self.lib_tasks():
            w.violate("C16", "leaked-tasks", f"{len(self.lib_tasks())} background tasks survived the end of all sources")

    def drain(self) -> None:
        for i in range(300):
            if self.world.stop_now or self.world.loop.capped:
                return
            n = self.top.n_got
            pend = sum(not a.finished for a in self.world.actors.values())
            self.phase_ops(f"{self.phase[:3]}d{i}", [(f"{self.phase[:3]}:d{i}", [["drain", "top", 5]])])
            if n == self.top.n_got and pend == sum(not a.finished for a in self.world.actors.values()):
                return

    def check_out(self) -> None:
        if self.pending() and not self.world.stop_now and not self.world.loop.capped:
            self.world.violate({"C14"} | ({"C16"} if self.stopped else set()), "message-lost",
                               f"taken and never delivered: {self.pending()[:6]}")

    def drop(self) -> None:
        w = self.world
        self.phase_ops("drop", [("e:drop", [["drop"], ["sleep", 5], ["gc"], ["sleep", 200_000], ["gc"], ["sleep", 200_000]])])
        if w.stop_now or w.loop.capped or not self.dropped:
            return
        gc.collect()
        if any(r() is not None for r in self.dropped) and not w.loop._eager:
            w.violate("C16", "dropped-kept-alive", "a merged receiver was dropped but is still alive after a collection")
        if self.lib_tasks():
            w.violate("C16", "leaked-tasks", f"{len(self.lib_tasks())} background tasks survive dropping the merged receiver")
        for lst in self.fs.notifiers.values():
            if any(not n.closed for n in lst):
                w.violate("C32", "watch-survives", "a background watch goes on after everything was dropped")

    def summary(self):
        return sorted((k, s.taken) for k, s in self.sources.items()) if hasattr(self, "sources") else ()

    def model_state(self):
        if not hasattr(self, "top"):
            return ()
        return tuple((s.spec["kind"], s.waiting(), min(len(s.out), 3), s.closed) for s in self.sources.values())

    def release(self) -> None:
        super().release()
        self.top = None
        getattr(self, "handles", {}).clear()
        for s in getattr(self, "sources", {}).values():
            s.obj = s.end = None


def generate(rng, prop, tier) -> dict:
    pace = Pace(rng)
    big = tier == "thorough" and rng.random() < 0.3
    ids = [0]
    sources: list = []
    weights = {"event": 3, "timer": 3, "watch": 2, "any": 2, "bro": 2}

    def name(p):
        ids[0] += 1
        return f"{p}{ids[0]}"

    def src():
        kind = rng.choices(list(weights), list(weights.values()))[0]
        n = {"t": "src", "id": f"{kind[0]}{len(sources)}", "kind": kind}
        if kind == "timer":
            iv = rng.choice([3, 10, 10, 50, 1000, 1000, 33_333])
            pol = rng.choice(["all", "resync", "drift"])
            n.update(interval=iv, policy=[pol, rng.choice([0, 0, 1, iv // 2, iv]) if pol == "drift" else None],
                     delay=rng.choice([0, 0, 1, iv // 3, 2 * iv]))
        elif kind == "watch":
            n["types"] = rng.choice([None, None, "a", "md", "amd"])
        elif kind == "any":
            n["limit"] = rng.choice([1, 2, 5, 100])
        sources.append(n)
        return n

    def wrap(node, p):
        while rng.random() < p:
            node = {"t": "map", "id": name("f"), "src": node}
            p *= 0.5
        return node

    def tree(depth):
        if depth == 0 or rng.random() < 0.6:
            return wrap(src(), 0.3)
        return wrap({"t": "merge", "id": name("m"), "srcs": [tree(depth - 1) for _ in range(rng.choice([1, 2, 2, 3]))]}, 0.25)

    d = 0 if prop == "C16" else rng.choice([0, 0, 1, 2])
    top = {"t": "merge", "id": name("m"),
           "srcs": [tree(d) for _ in range(rng.choice([1, 2, 2, 3, 3, 4]) + (2 if big else 0))]}
    top = wrap(top, 0.2)
    for n in sources:  # mapping functions with side effects
        t = rng.choice(sources)
        if rng.random() < 0.2 and t["kind"] in ("event", "timer"):
            what = ["set", t["id"]] if t["kind"] == "event" else ["treset", t["id"], rng.choice([0, 0, 3, t["interval"]])]
            n["side"] = [rng.choice([1, 2, 4]), *(what if rng.random() < 0.8 else ["end", t["id"]])]
    nmerge = sum(1 for n in _nodes(top) if n["t"] == "merge")
    none_ok = [1]
    actors = []
    mid = 0
    for i in range(rng.choice([1, 2, 2, 3])):
        ops = [["yield", rng.randrange(1, 6)]] if rng.random() < 0.6 else list(pace.gap())
        for _ in range(rng.randrange(1, 16 if big else 10)):
            s = rng.choice(sources)
            sid, kind = s["id"], s["kind"]
            if kind == "event":
                ops.append(["set", sid])
            elif kind == "watch":
                ops.append(["fs", sid, [[rng.choice("amd"), f"p{mid + j}"] for j in range(rng.choice([1, 1, 2, 3]))]]
                           if rng.random() < 0.85 else ["nothing", sid])
                mid += 3
            elif kind == "timer":
                r = rng.random()
                if r < 0.3:
                    ops.append(["treset", sid, rng.choice([0, 0, 1, s["interval"], around(rng, s["interval"])])])
                elif r < 0.6:
                    ops.append(["stall", min(around(rng, s["interval"]), 40 * s["interval"])])
                else:
                    ops.append(["sleep", min(around(rng, s["interval"]), 40 * s["interval"])])
            else:
                ops.append(["send", sid, mid, gen_kind(rng, none_ok)])
                mid += 1
            ops += pace.gap()
        actors.append({"n": f"S{i}", "ops": ops})
    ends = rng.random() < {"C15": 0.8, "C12": 0.8}.get(prop, 0.4)
    if ends:
        for s in sources:
            if rng.random() < 0.6:
                sprinkle(rng, rng.choice(actors)["ops"], ["end", s["id"]])
    cancels = rng.random() < 0.5
    p_to = rng.choice([0, 0.1, 0.3]) if cancels else 0
    p_bg = rng.choice([0, 0.15, 0.3]) if cancels else 0
    for i in range(rng.choice([1, 1, 2])):
        ops = (pace.gap() if rng.random() < 0.4 else []) + recv_ops(
            rng, pace, ["top"], rng.randrange(1, 14), p_timeout=p_to, p_bg=p_bg, p_ready=rng.choice([0, 0.2, 0.4]))
        actors.append({"n": f"R{i}", "ops": ops})
    names = [a["n"] for a in actors if a["n"][0] == "R"]
    if cancels:
        actors.append({"n": "D0", "ops": disruptor_ops(rng, pace, names, rng.randrange(1, 6))})
    if nmerge == 1 and rng.random() < (0.5 if prop == "C16" else 0.1):
        sprinkle(rng, rng.choice(actors)["ops"], ["mstop"])
    rng.shuffle(actors)
    return {"family": "mixed",
            "cfg": {"top": top, "keep": nmerge == 1 and (prop == "C16" or rng.random() < 0.5),
                    "epi": rng.choice(["end", "stop", "drop", "drop"] if prop == "C16" else ["end", "end", "stop", "drop"])},
            "actors": actors, "sched": gen_sched(rng, timers=True)}


def _nodes(node):
    yield node
    for n in node.get("srcs", ()):
        yield from _nodes(n)
    if "src" in node:
        yield from _nodes(node["src"])
