"""Workloads over FileWatcher receivers on a simulated file watcher: C31, C32 (and C11, C12)."""

from __future__ import annotations

import gc
import os
import pathlib
import weakref

from frequenz.channels.file_watcher import Event, EventType, FileWatcher

from ..gen import Pace, disruptor_ops, gen_sched, recv_ops, sprinkle
from ..simfs import CHANGE, SimFS, change
from .base import Family, brief, chain

TYPES = {"a": EventType.CREATE, "m": EventType.MODIFY, "d": EventType.DELETE}
NUM = {v: k for k, v in CHANGE.items()}


ODD_NAMES = ("{}~", ".{}", "{}.swp", "{}.pyc", "{}.tmp", ".git/{}", "node_modules/{}", "__pycache__/{}", "a b {}",
             "\u00fc{}", "x/../{}", "/tmp/{}", "#{}#", "{}.TMP", "{}.lock", ".DS_Store")


class WatchBoom(Exception):
    """A failure of the underlying watch."""


class FileWatcherFamily(Family):
    GENERIC = ("C31", "C32")

    def seams(self):
        self.fs = SimFS(self.world)
        return self.fs

    async def build(self) -> None:
        self.failures: list = []
        self.dropped: list = []
        for spec in self.cfg["watchers"]:
            rid = spec["id"]
            kw = {}
            if spec["types"] is not None:
                kinds = [TYPES[t] for t in spec["types"]]
                kw["event_types"] = {"set": set, "list": list, "iter": iter, "dict": dict.fromkeys}[spec.get("form", "set")](kinds)
            if spec["fail_new"]:
                exc = FileNotFoundError(f"no such path: {rid}")
                self.failures.append(exc)
                self.fs.fail_new[rid] = exc
            paths = [rid if spec["str"] else pathlib.Path(rid)]
            paths += [f"{rid}.{i}" if i % 2 else pathlib.Path(f"{rid}.{i}") for i in range(spec["more"])]
            given = list(paths)
            fw = FileWatcher(paths=given, **kw)
            if spec.get("reused"):
                # The caller goes on with its own collections.
                given[:] = ["somewhere-else"]
                if isinstance(kw.get("event_types"), (set, list, dict)):
                    kw["event_types"].clear()
            st = self.add_recv(rid, fw)
            st.paths = {os.path.abspath(p) for p in paths}
            st.kinds = set("amd") if spec["types"] is None else set(spec["types"])
            st.queue = []  # batches (lists of (kind, path)) that are to be delivered
            st.seen = {}  # notifier -> number of its batches in the queue already
            st.done = []  # what was delivered
            st.surfaced = False  # a failure was raised
            st.ended = False  # the underlying watch ended (or failed)
            st.failure = exc if spec["fail_new"] else None

    def truths(self):
        for rid, st in self.rs.items():
            if st.recv is not None:
                yield f"{rid}.event_types", st.recv.event_types, frozenset(TYPES[k] for k in st.kinds)

    def stop_names_receiver(self, st, via) -> bool:
        return via in ("recv", "consume")

    # -- model -----------------------------------------------------------------------------
    def sync(self, st) -> list:
        """What the watch reported and the receiver did not give yet, as batches."""
        for n in self.fs.notifiers.get(st.rid, ()):
            k = st.seen.get(id(n), 0)
            for b in n.batches[k:]:
                ev = [(NUM[c], str(p)) for c, p in b if NUM[c] in st.kinds]
                if ev:
                    st.queue.append(ev)
            st.seen[id(n)] = len(n.batches)
        return st.queue

    def describe(self, st, value):
        if isinstance(value, Event) and isinstance(value.type, EventType):
            return f"{value.type.name}:{value.path}"
        return f"?{value!r}"

    def got(self, st, value, actor) -> None:
        w = self.world
        if not isinstance(value, Event) or not isinstance(value.type, EventType) or \
                not isinstance(value.path, pathlib.Path):
            w.violate("C31", "not-an-event", f"{st.rid} delivered {value!r}")
            return
        ev = (NUM[value.type.value], str(value.path))
        q = self.sync(st)
        if q and ev in q[0]:
            q[0].remove(ev)
            if not q[0]:
                q.pop(0)
            st.done.append(ev)
            return
        props = {"C31", "C11"} | ({"C32"} if self.disturbed() else set())
        if any(ev in b for b in q):
            w.violate(props, "batch-order", f"{st.rid} yielded {ev}, {q[0]} were reported before it")
        elif ev in st.done:
            w.violate(props, "duplicate", f"{st.rid} yielded {ev} again")
        elif ev[0] not in st.kinds:
            w.violate("C31", "filtered-event", f"{st.rid} yielded {ev}, it watches for {sorted(st.kinds)}")
        else:
            w.violate("C31", "invented-event", f"{st.rid} yielded {ev}, which was not reported")

    def disturbed(self) -> bool:
        c = self.world.counts
        return bool(c.get("timeout_fired") or c.get("cancel_in_flight") or c.get("abandoned_ready"))

    def failed(self, st, exc, actor, via) -> None:
        if st.failure is not None and st.failure in chain(exc):
            self.world.count("failure_surfaced")
            st.surfaced = True
            if self.sync(st):
                self.world.violate(("C31",), "failed-before-events",
                                   f"{st.rid} raised the failure of the watch, {st.queue} are undelivered")
            return
        if st.failure == "signal" and isinstance(exc, RuntimeError) and "signal" in str(exc):
            self.world.count("failure_surfaced")
            st.surfaced = True
            return
        self.world.violate({"C31", "C11"} | ({"C32"} if self.disturbed() else set()), "unexpected-exception",
                           f"{via} on {st.rid} raised {brief(exc)}")

    def failed_ready(self, st, exc) -> None:
        self.failed(st, exc, None, "ready")
        self.forget_frames(exc)

    def forget_frames(self, exc) -> None:
        """The planted failures live until the end: they must not keep the receivers alive."""
        for e in chain(exc):
            e.__traceback__ = None
            if e.__context__ is not None:
                e.__context__.__traceback__ = None

    def _stop(self, st, exc, actor, via) -> None:
        if exc is not None and st.failure is not None and st.failure in chain(exc):
            st.surfaced = True
        super()._stop(st, exc, actor, via)

    def stop_reported(self, st, actor) -> None:
        w = self.world
        q = self.sync(st)
        if q:
            w.violate({"C31", "C12"}, "stop-before-events", f"{st.rid} reported its stop, {q} are undelivered")
        elif not st.ended and not (st.failure is not None and st.surfaced):
            w.violate({"C32", "C31", "C12"} if self.disturbed() else {"C31", "C12"}, "stop-while-watching",
                      f"{st.rid} reported its stop although the watch did not end")

    def ready_false(self, st) -> None:
        self.stop_reported(st, None)

    def became_ready(self, st) -> None:
        st.ready_true = True
        if not self.sync(st):
            self.world.violate(("C31", "C11", "C12"), "ready-without-event",
                               f"ready() on {st.rid} returned True without an event")

    # -- operations ------------------------------------------------------------------------
    async def op_fs(self, a, rid, changes) -> None:
        w = self.world
        n = self.fs.current(rid)
        w.log(a.name, "fs", rid, changes, n is not None)
        if n is None:
            w.count("change_without_watch")
            return
        w.count("changes_reported", len(changes))
        if n.waiter is None:
            w.count("changes_while_not_polling")
        n.report([change(k, p) for k, p in changes])

    async def op_fsend(self, a, rid, how) -> None:
        """The underlying watch reports nothing for a while, fails or ends."""
        w = self.world
        n = self.fs.current(rid)
        w.log(a.name, "fsend", rid, how, n is not None)
        if n is None:
            return
        st = self.rs.get(rid)
        w.count("watch_" + how)
        if how == "timeout":
            n.finish("timeout")
            return
        if st is None or st.ended:
            return
        st.ended = True
        if how == "fail":
            st.failure = WatchBoom(rid)
            n.finish(st.failure)
        elif how == "signal":
            st.failure = "signal"
            n.finish("signal")
        else:
            n.finish("stop")

    async def op_drop(self, a, rid) -> None:
        st = self.usable(rid)
        if st is None or st.inflight or any(r == rid for _t, r, _c in self.bg):
            return
        w = self.world
        w.log(a.name, "drop", rid)
        w.count("filewatcher_dropped")
        if isinstance(st.failure, BaseException):
            self.forget_frames(st.failure)
        self.dropped.append((rid, weakref.ref(st.recv), w.loop.now_us()))
        st.recv = None
        del self.rs[rid]

    # -- invariants ------------------------------------------------------------------------
    def quiescent(self) -> None:
        super().quiescent()
        w = self.world
        if w.stop_now or not self.init_task.done():
            return
        self.fs.poll()
        for rid, st in self.rs.items():
            n = self.fs.current(rid)
            if n is not None and n.paths != st.paths:
                w.violate("C31", "wrong-paths", f"{rid} does not watch {sorted(st.paths ^ n.paths)}, or only that")
            if self.fs.notifiers.get(rid) and not st.ended and not st.failure:
                stopped = n is None or (n.stop_event is not None and n.stop_event.is_set())
                if stopped:
                    w.violate({"C32"} if self.disturbed() else {"C32", "C31"}, "watch-stopped",
                              f"the background watch of {rid} was stopped although the receiver is in use")
        for who, kind, rid in self.blocked():
            st = self.rs.get(rid)
            if kind not in self.WAITS or st is None:
                continue
            props = {"C31", "C11"} | ({"C32"} if self.disturbed() else set())
            if self.sync(st):
                w.violate(props, "waiter-stranded", f"{who} waits in {kind}({rid}), {st.queue} were reported")
                continue
            n = self.fs.current(rid)
            if n is None or n.waiter is None:
                w.violate(props, "not-watching", f"{who} waits in {kind}({rid}) but nothing is being watched")

    def epilogue(self) -> None:
        w = self.world
        self.drain("d0")
        mode = self.cfg["epi"]
        # The watchers still work after everything that happened to them.
        ops = []
        for rid in self.rs:
            ops += [["fs", rid, [["a", "x0"], ["m", "x1"], ["d", "x2"]]], ["sleep", 1],
                    ["fs", rid, [["a", "x3"], ["m", "x3"], ["d", "x3"]]]]
        self.phase_ops("more", [("e:more", ops)])
        self.drain("d1")
        if w.stop_now or w.loop.capped:
            return
        for st in self.rs.values():
            if self.sync(st):
                w.violate({"C31", "C11"} | ({"C32"} if self.disturbed() else set()), "events-lost",
                          f"{st.rid} did not deliver {st.queue}")
            n = self.fs.current(st.rid)
            if n is not None and not st.ended and any(NUM[c] in st.kinds for c, _p in n.pending):
                w.violate({"C31", "C32"}, "events-lost", f"{st.rid} did not take {sorted(n.pending)} from the watch")
        if mode == "drop":
            ops = [["drop", rid] for rid in self.rs]
            self.phase_ops("drop", [("e:drop", ops + [["gc"], ["sleep", 10]])])
        else:
            ops = []
            for rid in list(self.rs):
                ops += [["fsend", rid, mode]]
            self.phase_ops("end", [("e:end", ops)])
            ops = []
            for rid in self.rs:
                if self.fs.notifiers.get(rid):
                    ops += [["recv", rid, None], ["recv", rid, None], ["ready", rid, None], ["anext", rid, None],
                            ["recv", rid, None], ["consume", rid]]
            self.phase_ops("after", [("e:after", ops)])
            if w.stop_now or w.loop.capped:
                return
            for st in self.rs.values():
                if st.failure is not None and self.fs.notifiers.get(st.rid) and not st.surfaced:
                    w.violate("C31", "failure-hidden", f"the failure of the watch of {st.rid} was not reported")
                elif st.ended and not st.stopped:
                    w.violate(("C31", "C12"), "not-stopped", f"{st.rid} did not report the end of the watch")
        # Let the actors finish that still wait for watchers that ended.
        self.phase_ops("last", [("e:last", [["sleep", 200_000], ["gc"], ["sleep", 200_000]])])
        if w.stop_now or w.loop.capped:
            return
        gc.collect()
        for rid, ref, _t in self.dropped:
            if ref() is not None:
                w.violate("C32", "dropped-kept-alive", f"{rid} is alive after it was dropped")
            for n in self.fs.notifiers.get(rid, ()):
                if not n.closed:
                    w.violate("C32", "watch-survives", f"the background watch of {rid} goes on after it was dropped")
        if not self.rs and self.lib_tasks():
            w.violate("C32", "leaked-tasks", f"{len(self.lib_tasks())} tasks survive all watchers")

    def drain(self, name) -> None:
        self.phase_ops(name, [(f"{name}:{rid}", [["drain", rid, 5], ["drain", rid, 5]]) for rid in self.rs])

    def summary(self):
        return sorted((k, s.n_got) for k, s in self.rs.items())

    def model_state(self):
        return tuple((len(s.queue) if len(s.queue) < 3 else 3, s.ended, s.inflight,
                      bool(self.fs.current(k) and self.fs.current(k).pending)) for k, s in self.rs.items())


def generate(rng, prop, tier) -> dict:
    pace = Pace(rng)
    n = rng.choice([1, 1, 1, 2])
    specs = []
    for i in range(n):
        types = rng.choice([None, None, "a", "m", "d", "am", "ad", "md", "amd"] + [""] * (rng.random() < 0.05))
        specs.append({"id": f"w{i}", "types": types, "str": rng.random() < 0.5, "more": rng.choice([0, 0, 1, 2, 3, 4]),
                      "form": rng.choice(["set", "list", "iter", "dict"]), "reused": rng.random() < 0.5,
                      "fail_new": rng.random() < 0.03})
    rids = [s["id"] for s in specs]
    cancels = rng.random() < (0.9 if prop == "C32" else 0.5)
    p_to = rng.choice([0, 0.2, 0.5]) if cancels else 0
    p_bg = rng.choice([0, 0.2, 0.4]) if cancels else 0
    actors = []
    uniq = rng.random() < 0.7
    odd = rng.random() < 0.4
    k = 0
    for i in range(rng.choice([1, 1, 2])):
        ops = [["yield", rng.randrange(2, 12)]] if rng.random() < 0.7 else list(pace.gap())
        for _ in range(rng.randrange(1, 9)):
            ch = []
            for _ in range(rng.choice([1, 1, 2, 3, 5])):
                p = f"p{k}" if uniq else f"p{rng.randrange(3)}"
                if odd and rng.random() < 0.5:
                    p = rng.choice(ODD_NAMES).format(p)
                k += 1
                ch.append([rng.choice("amd"), p])
            ops.append(["fs", rng.choice(rids), ch])
            ops += pace.gap()
            if rng.random() < 0.15:
                ops.append(["fsend", rng.choice(rids), "timeout"])
                ops += pace.gap()
        actors.append({"n": f"F{i}", "ops": ops})
    for i in range(rng.choice([1, 1, 1, 2, 2, 3])):
        ops = (pace.gap() if rng.random() < 0.3 else []) + recv_ops(
            rng, pace, rids, rng.randrange(1, 9), p_timeout=p_to, p_bg=p_bg, p_ready=rng.choice([0.1, 0.4]))
        actors.append({"n": f"R{i}", "ops": ops})
    names = [a["n"] for a in actors if a["n"][0] == "R"]
    if cancels:
        actors.append({"n": "D0", "ops": disruptor_ops(rng, pace, names, rng.randrange(1, 7))})
        for a in actors:
            if a["ops"] and rng.random() < 0.4:
                a["ops"].insert(rng.randrange(len(a["ops"])) + 1, ["cancel", rng.choice(names)])
    if rng.random() < (0.35 if prop == "C31" else 0.2):
        sprinkle(rng, rng.choice(actors)["ops"], ["fsend", rng.choice(rids), rng.choice(["fail", "stop", "signal"])])
    if rng.random() < (0.3 if prop == "C32" else 0.05):
        sprinkle(rng, rng.choice(actors)["ops"], ["drop", rng.choice(rids)])
    rng.shuffle(actors)
    return {"family": "filewatcher",
            "cfg": {"watchers": specs,
                    "epi": rng.choice(["drop", "drop", "fail"] if prop == "C32" else ["drop", "fail", "stop", "signal"])},
            "actors": actors, "sched": gen_sched(rng)}
