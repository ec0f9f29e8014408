"""Workloads over trees of map() and merge() receivers: C13 to C17 (and C11, C12)."""

from __future__ import annotations

import functools
import gc
import weakref

from frequenz.channels import Anycast, Broadcast, Receiver, ReceiverError, ReceiverStoppedError, merge

from ..gen import Pace, disruptor_ops, gen_sched, recv_ops
from .base import BOOMS, Family, brief, gen_kind, make_boom


UNSETTLED = 1 << 40  # dropped, but the tasks of the dropped receiver may still run


class Mapped:
    """The result of a mapping function."""

    __slots__ = ("fid", "value", "__weakref__")

    def __init__(self, fid, value):
        self.fid = fid
        self.value = value

    def __repr__(self):
        return f"{self.fid}({self.value!r})"


class OddMapped(Mapped):
    """A result that is falsy, equal to everything and not hashable."""

    __slots__ = ()
    __hash__ = None

    def __bool__(self):
        return False

    def __eq__(self, other):
        return True


class ErrorMapped(ReceiverStoppedError):
    """A result that is an exception itself."""

    def __init__(self, fid, value):
        super().__init__(None)
        self.fid, self.value = fid, value

    def __repr__(self):
        return f"{self.fid}({self.value!r})"


RESULTS = {"odd": OddMapped, "error": ErrorMapped}
MAPPED = (Mapped, ErrorMapped)
CONSTANTS = {"none": None, "zero": 0, "empty": (), "false": False, "text": "", "stop": StopIteration}


class Mapper:
    """A mapping function that is an object, is falsy and has no name."""

    __slots__ = ("f",)

    def __init__(self, f):
        self.f = f

    def __bool__(self):
        return False

    def __call__(self, value):
        return self.f(value)

    def method(self, value):
        return self.f(value)


class Flaky(Receiver):
    """A user-defined receiver whose consume() fails for some messages."""

    def __init__(self, fam, inner, bad, late):
        self._fam, self._inner, self._bad, self._late = fam, inner, bad, late

    async def ready(self) -> bool:
        return await self._inner.ready() or self._late  # the stop may show in consume() only

    def consume(self):
        v = self._inner.consume()
        mid = self._fam.mid_of(v)
        if mid in self._bad:
            raise make_boom(mid, self, mid)
        return v


class Leaf:
    """One source of the tree: the messages it accepted, and what came out."""

    def __init__(self, lid):
        self.lid = lid
        self.accepted: list = []
        self.pos = 0  # how many came out so far
        self.closed = False
        self.stopped_under = None  # a merger above was stopped: number accepted then
        self.stop_done = None  # number accepted when that stop() had returned
        self.dropped_at = None
        self.path: list = []  # mapping function ids from the source upwards
        self.merges: list = []  # ids of the mergers above
        self.top = None
        self.recv = None
        self.limit = None  # of its channel, if that one is bounded
        self.passed = 0  # messages of other sources since it has one

    def available(self) -> int:
        return len(self.accepted) - self.pos


class PipelineFamily(Family):
    GENERIC = ("C13", "C14", "C15", "C16", "C17")

    async def build(self) -> None:
        self.leaves: dict = {}
        self.owner: dict = {}  # mid -> lid
        self.chans: dict = {}
        self.send_ends: dict = {}
        self.mergers: dict = {}  # id -> (weakref, n sources)
        self.stopped_mergers: set = set()
        self.merger_leaves: dict = {}
        self.constants: dict = {}  # fid -> what its constant results were made of
        self.calls: dict = {}  # (fid, mid) -> number of calls
        self.fail: dict = {}  # fid -> set of mids
        self.delivered: set = set()
        self.max_passed = 0
        self.dropped: list = []
        self.settling: list = []
        self.handles: dict = {}  # receivers the user keeps a reference to
        self.direct: dict = {}
        for i, node in enumerate(self.cfg["tops"]):
            recv, leaves, merged, comp = self.make(node)
            rid = f"top{i}"
            st = self.add_recv(rid, recv, comp=comp)
            st.merged = merged
            st.constant = None
            if node["t"] == "map" and node.get("result") in CONSTANTS:
                st.constant = (node["id"], CONSTANTS[node["result"]])
            st.leaves = leaves
            if not merged:
                st.channel = self.chans[leaves[0].lid]
            for lf in leaves:
                lf.top = rid
            if node["t"] == "merge":
                self.top_merge_of = node["id"]

    def make(self, node):
        w = self.world
        if node["t"] == "src":
            lid = node["id"]
            lf = Leaf(lid)
            if node["kind"] == "any":
                ch = Anycast(name=self.cfg.get("name") or lid, limit=node["limit"])
                lf.limit = node["limit"]
                recv = ch.new_receiver()
            else:
                ch = Broadcast(name=self.cfg.get("name") or lid)
                recv = ch.new_receiver(limit=100_000)
            self.chans[lid] = ch
            self.send_ends[lid] = ch.new_sender()
            self.leaves[lid] = lf
            if node["keep"]:
                self.handles[lid] = recv
            lf.kept = node["keep"]
            return recv, [lf], False, ("C13",)
        if node["t"] == "flaky":
            recv, leaves, merged, comp = self.make(node["src"])
            self.fail[node["id"]] = set(node["bad"])
            for lf in leaves:
                lf.path.append((node["id"], True))
            return Flaky(self, recv, self.fail[node["id"]], node.get("late", False)), leaves, merged, comp
        if node["t"] == "map":
            recv, leaves, merged, comp = self.make(node["src"])
            fid = node["id"]
            self.fail[fid] = set(node["bad"])
            for lf in leaves:
                lf.path.append((fid, False))
            return recv.map(self.mapping(node)), leaves, merged, comp
        subs = [self.make(n) for n in node["srcs"]]
        recv = merge(*[s[0] for s in subs])
        leaves = [lf for s in subs for lf in s[1]]
        for lf in leaves:
            lf.merges.append(node["id"])
        self.mergers[node["id"]] = [weakref.ref(recv), len(subs)]
        self.merger_leaves[node["id"]] = leaves
        if node["keep"]:
            self.handles[node["id"]] = recv
        w.count("sources_merged", len(subs))
        comp = ["C14", "C15", "C16"]
        if any(self.fail.get(f) for lf in leaves for f, _x in lf.path):
            comp.append("C17")
        return recv, leaves, True, tuple(comp)

    def mapping(self, node):
        fid, result = node["id"], node.get("result")
        cls = RESULTS.get(result, Mapped)

        # Not a bound method: a mapped receiver must not keep the harness alive, and vice versa.
        def f(value):
            mid = self.inner_mid(value)
            key = (fid, mid)
            self.calls[key] = self.calls.get(key, 0) + 1
            if self.calls[key] > 1:
                self.world.violate(("C13",), "mapped-twice", f"{fid} was called {self.calls[key]} times for {mid}")
            if mid in self.fail[fid]:
                self.world.count("mapping_failed")
                raise make_boom(mid, None, mid)
            if result in CONSTANTS:  # only of outermost functions, without a merger above
                self.world.count("constant_result")
                self.constants.setdefault(fid, []).append(Mapped(fid, value))
                return CONSTANTS[result]
            return cls(fid, value)

        style = node.get("style")
        if style == "partial":
            return functools.partial(lambda x, value, *, y: f(value), 1, y=2)
        if style == "object":
            return Mapper(f)
        if style == "method":
            return Mapper(f).method
        return f

    def unwrap(self, st, value):
        """The result with the message it was made of, also where the result itself does not tell."""
        if getattr(st, "constant", None) is not None and not isinstance(value, MAPPED):
            fid, const = st.constant
            if self.constants.get(fid):
                if value is const:
                    return self.constants[fid].pop(0)
                self.constants[fid].clear()
            self.world.violate("C13", "wrong-result", f"{st.rid} yielded {value!r}, {fid} returned {const!r}")
        return value

    def inspectables(self):
        if not self.init_task.done():
            return []
        return [*((f"channel {k}", c) for k, c in self.chans.items()),
                *((f"sender of {k}", c) for k, c in self.send_ends.items()),
                *((f"receiver {k}", c) for k, c in self.handles.items()), *super().inspectables()]

    def truths(self):
        if self.init_task.done():
            for lid, ch in self.chans.items():
                yield f"name of {lid}", ch.name, self.cfg.get("name") or lid
                if not self.leaves[lid].closed:
                    yield f"is_closed of {lid}", ch.is_closed, False

    def settled(self, mid) -> bool:
        return mid in self.delivered

    def may_keep(self) -> int:
        return super().may_keep() + 2 * len(self.leaves) + 2 * len(self.mergers)

    def inner_mid(self, value):
        while isinstance(value, MAPPED):
            value = value.value
        return self.mid_of(value)

    def describe(self, st, value):
        if st.constant is not None:
            return repr(value)
        return repr(value) if isinstance(value, MAPPED) else self.mid_of(value)

    # -- operations ------------------------------------------------------------------------
    async def op_send(self, a, lid, mid, kind) -> None:
        w = self.world
        w.log(a.name, "send?", lid, mid)
        self.owner[mid] = lid
        lf = self.leaves[lid]
        out, val = await a.call(self.send_ends[lid].send(self.new_msg(mid, kind)), ("send", mid), None)
        w.log(a.name, "send", mid, out)
        if out == "ok":
            lf.accepted.append(mid)

    async def op_flood(self, a, lid, mid, n) -> None:
        for i in range(n):
            await self.op_send(a, lid, mid + i, "n")

    async def op_close(self, a, lid) -> None:
        w = self.world
        w.log(a.name, "close", lid)
        w.count("close")
        self.leaves[lid].closed = True
        await a.call(self.chans[lid].close(), ("close", lid))

    async def op_mstop(self, a, mid) -> None:
        """stop() on a merger the user kept a reference to."""
        w = self.world
        m = self.handles.get(mid)
        if m is None:
            return
        w.log(a.name, "mstop?", mid)
        w.count("merger_stopped")
        if any(st.inflight for st in self.rs.values()):
            w.count("merger_stopped_while_waiting")
        self.stopped_mergers.add(mid)
        for lf in self.leaves.values():
            if mid in lf.merges and lf.stopped_under is None:
                lf.stopped_under = len(lf.accepted)
        out, val = await a.call(m.stop(), ("mstop", mid))
        w.log(a.name, "mstop", mid, out)
        if out == "ok":
            for lf in self.leaves.values():
                if mid in lf.merges and lf.stop_done is None:
                    lf.stop_done = len(lf.accepted)
            if len(self.mergers) == 1 and not self.bg and self.lib_tasks():
                w.violate("C16", "stop-returned-early", f"stop() of {mid} returned before its background tasks ended")
        elif out in ("exc", "spurious_cancel"):
            w.violate("C16", "stop-raised", f"stop() of {mid} ended with {out} {brief(val) if val else ''}")

    async def op_drop(self, a, rid) -> None:
        st = self.usable(rid)
        if st is None or st.inflight:
            return
        w = self.world
        w.log(a.name, "drop", rid)
        w.count("pipeline_dropped")
        for lf in st.leaves:
            lf.dropped_at = UNSETTLED
            for mid in lf.merges:
                self.handles.pop(mid, None)
        if st.merged:
            self.dropped.append((weakref.ref(st.recv), rid, [lf.lid for lf in st.leaves]))
        st.recv = None
        del self.rs[rid]

    # -- model -----------------------------------------------------------------------------
    def expected_error(self, lf, mid) -> bool:
        return any(mid in self.fail.get(f, ()) for f, _x in lf.path)

    def came_out(self, st, mid, what) -> None:
        w = self.world
        lid = self.owner.get(mid)
        lf = self.leaves.get(lid)
        merged = st.merged
        props = {"C14"} if merged else {"C13", "C11"}
        if lf is None or lf not in st.leaves:
            w.violate(props, "invented-message", f"{st.rid} yielded {what}, which was not sent to it")
            return
        if mid in self.delivered:
            w.violate(props | ({"C17"} if self.has_errors(st) else set()), "duplicate", f"{st.rid} yielded {mid} twice")
            return
        self.delivered.add(mid)
        exp = lf.accepted[lf.pos] if lf.pos < len(lf.accepted) else None
        if exp != mid:
            if merged and self.has_errors(st):
                props = props | {"C17"}
            w.violate(props, "source-order",
                      f"{st.rid} yielded {mid} of {lid}, the next one of that source is {exp}")
            if mid in lf.accepted:
                lf.pos = lf.accepted.index(mid)
        lf.pos += 1
        if merged:
            self.fairness(st, lf)
        if lf.stop_done is not None and lf.pos > lf.stop_done:
            w.violate("C16", "taken-after-stop", f"{mid} was sent after stop() of a merger but came out of {st.rid}")

    def fairness(self, st, lf) -> None:
        """No source waits while a bounded number of messages of others go by (C35)."""
        w = self.world
        lf.passed = 0
        for o in st.leaves:
            if o is lf:
                continue
            if not o.available() or o.stopped_under is not None:
                o.passed = 0
                continue
            o.passed += 1
            if o.passed > self.max_passed:
                self.max_passed = o.passed
            if o.passed > 4 * len(st.leaves) + 8:
                w.violate("C35", "starved", f"{st.rid} yielded {o.passed} messages of other sources, "
                                            f"{o.lid} has {o.available()} messages")

    def backlog(self) -> None:
        """No message is taken from a bounded channel long before somebody wants it (C34)."""
        for lf in self.leaves.values():
            if lf.limit is None:
                continue
            most = lf.limit + 2 * len(lf.merges) + 1
            if lf.available() > most:
                self.world.violate("C34", "taken-ahead",
                                   f"{lf.lid} (limit {lf.limit}) accepted {lf.available()} messages nobody received, "
                                   f"with {len(lf.merges)} mergers above it at most {most} may be under way")

    def has_errors(self, st) -> bool:
        return any(self.fail.get(f) for lf in st.leaves for f, _x in lf.path)

    def got(self, st, value, actor) -> None:
        w = self.world
        value = self.unwrap(st, value)
        mid = self.inner_mid(value)
        merged = st.merged
        self.came_out(st, mid, repr(value))
        lf = self.leaves.get(self.owner.get(mid))
        if lf is None:
            return
        fids, v = [], value
        while isinstance(v, MAPPED):
            fids.append(v.fid)
            v = v.value
        fids.reverse()
        want = [f for f, flaky in lf.path if not flaky]
        if self.expected_error(lf, mid):
            w.violate(("C13", "C17") if merged else "C13", "error-lost", f"{st.rid} yielded {value!r} instead of its error")
        elif fids != want:
            w.violate("C13", "wrong-mapping", f"{st.rid} yielded {value!r}, expected the functions {want}")
        else:
            for f in want:
                if self.calls.get((f, mid)) != 1:
                    w.violate("C13", "mapping-calls", f"{f} was called {self.calls.get((f, mid))} times for {mid}")

    def failed(self, st, exc, actor, via) -> None:
        w = self.world
        if not isinstance(exc, BOOMS):
            super().failed(st, exc, actor, via)
            return
        w.count("error_delivered")
        mid = exc.mid
        self.came_out(st, mid, f"error of {mid}")
        lf = self.leaves.get(self.owner.get(mid))
        if lf is not None and not self.expected_error(lf, mid):
            w.violate(("C13", "C17"), "invented-error", f"{st.rid} raised {exc!r}")

    def failed_ready(self, st, exc) -> None:
        w = self.world
        if isinstance(exc, BOOMS):
            w.violate("C17" if st.merged else "C13", "ready-raised", f"ready() on {st.rid} raised {brief(exc)}")
            mid = exc.mid
            self.delivered.add(mid)
            lf = self.leaves[self.owner[mid]]
            if lf.pos < len(lf.accepted) and lf.accepted[lf.pos] == mid:
                lf.pos += 1
        else:
            super().failed_ready(st, exc)

    def ended(self, lf) -> bool:
        """Nothing more can come from this source (beyond what a stopped merger held)."""
        return (lf.closed and not lf.available()) or lf.stopped_under is not None

    def stop_reported(self, st, actor) -> None:
        w = self.world
        bad = [lf for lf in st.leaves if not self.ended(lf)]
        if bad:
            lf = bad[0]
            props = {"C15", "C12"} if st.merged else {"C13", "C12"}
            if self.has_errors(st) and st.merged:
                props.add("C17")
            w.violate(props, "stop-too-early",
                      f"{st.rid} reported its stop, source {lf.lid} is {'closed' if lf.closed else 'open'} with "
                      f"{lf.available()} messages undelivered")

    def ready_false(self, st) -> None:
        self.stop_reported(st, None)

    def became_ready(self, st) -> None:
        st.ready_true = True
        if not any(lf.available() for lf in st.leaves):
            self.world.violate({"C11"} | ({"C15"} if st.merged else {"C13"}), "ready-without-message",
                               f"ready() on {st.rid} returned True without a message")

    def quiescent(self) -> None:
        super().quiescent()
        w = self.world
        if w.stop_now or not self.init_task.done():
            return
        self.backlog()
        for who, kind, target in self.blocked():
            if kind == "mstop":
                w.violate("C16", "stop-stuck", f"{who} waits in stop() of {target}")
            if kind not in self.WAITS or target not in self.rs:
                continue
            st = self.rs[target]
            for lf in st.leaves:
                if lf.stopped_under is None and lf.available():
                    props = {"C15", "C11"} if st.merged else {"C13", "C11"}
                    if st.merged and self.has_errors(st):
                        props.add("C17")
                    w.violate(props, "waiter-stranded",
                              f"{who} waits in {kind}({target}), source {lf.lid} has {lf.available()} messages for it")
                    break
            else:
                if all(self.ended(lf) for lf in st.leaves):
                    stopped = any(lf.stopped_under is not None for lf in st.leaves)
                    props = {"C16"} if stopped else ({"C15", "C12"} if st.merged else {"C13", "C12"})
                    w.violate(props, "stuck-after-end", f"{who} waits in {kind}({target}), all its sources have ended")
        # f is called only when the message is taken: no merger above, so by the consumer.
        if self.phase == "main" and w.loop.steps % 3 == 0:
            for (fid, mid), _n in self.calls.items():
                lf = self.leaves.get(self.owner.get(mid))
                if lf is not None and not lf.merges and mid not in self.delivered and lf.top in self.rs:
                    w.violate("C13", "mapped-before-taken", f"{fid} was called for {mid}, which was not taken yet")
        self.check_tasks()

    def check_tasks(self) -> None:
        w = self.world
        for ref, rid, lids in self.dropped:
            gc.collect()
            # (Frames of tasks that were started eagerly refer to the frames of their creators.)
            if ref() is not None and not w.loop._eager:
                w.violate("C16", "dropped-kept-alive", f"{rid} was dropped but is still alive after a collection")
        if self.dropped:
            # Cancelled tasks of the dropped receivers end when the loop runs again.
            self.settling += [self.leaves[lid] for _r, _rid, lids in self.dropped for lid in lids]
            self.dropped.clear()
            return
        for lf in self.settling:
            lf.dropped_at = len(lf.accepted)
        self.settling.clear()
        allowed = 0
        for mid, (ref, n) in self.mergers.items():
            if mid in self.stopped_mergers or ref() is None:
                continue
            allowed += n
        tasks = self.lib_tasks()
        if len(tasks) > allowed:
            w.violate("C16", "leaked-tasks",
                      f"{len(tasks)} background tasks are alive, the running merged receivers have {allowed} sources")

    # -- end ---------------------------------------------------------------------------------
    def epilogue(self) -> None:
        w = self.world
        for i in range(400):
            n = len(self.delivered)
            pend = [a for a in w.actors.values() if not a.finished]
            self.phase_ops(f"d{i}", [(f"d{i}:{rid}", [["drain", rid, 5]]) for rid in self.rs])
            if w.stop_now or w.loop.capped:
                return
            if n == len(self.delivered) and pend == [a for a in w.actors.values() if not a.finished]:
                break
        self.check_lost()
        if w.stop_now:
            return
        mode = self.cfg.get("epi", "close")
        if mode == "stop":
            ops = [["mstop", m] for m in self.mergers if m in self.handles and m not in self.stopped_mergers]
            self.phase_ops("stop", [("e:stop", ops)])
        # Whatever is sent to the sources under stopped or dropped receivers stays theirs.
        ops = []
        k = 100_000
        for lid, lf in self.leaves.items():
            if lf.stopped_under is not None and lf.kept and not lf.closed:
                ops += [["send", lid, k, "n"]]
                k += 1
        if ops:
            self.phase_ops("more", [("e:more", ops)])
        if mode == "drop":
            self.phase_ops("drop", [(f"e:drop", [["drop", r] for r in self.rs] + [["sleep", 5], ["gc"], ["sleep", 5]])])
            if not w.stop_now:
                self.phase_ops("drop2", [("e:drop2", [["gc"], ["sleep", 5]])])
        self.phase_ops("close", [("e:close", [["close", l] for l in self.leaves])])
        # An error ends one drain, so go on until nothing more comes out.
        for i in range(400):
            n = len(self.delivered)
            ops = []
            for rid in list(self.rs):
                ops += [["drain", rid, 5]]
            self.phase_ops(f"f{i}", [(f"e:f{i}", ops)])
            if w.stop_now or w.loop.capped:
                return
            if i >= 3 and n == len(self.delivered):
                break
        ops = []
        for rid in list(self.rs):
            ops += [["recv", rid, None], ["ready", rid, None], ["anext", rid, None], ["consume", rid]]
        self.phase_ops("after", [("e:after", ops)])
        if w.stop_now or w.loop.capped:
            return
        for st in self.rs.values():
            if not st.stopped:
                w.violate(("C15", "C12") if st.merged else ("C13", "C12"), "not-stopped",
                          f"{st.rid} did not stop after all its sources were closed")
        self.direct_drain()
        if w.stop_now:
            return
        self.check_lost()
        self.phase_ops("last", [("e:last", [["yield", 3]])])
        if w.stop_now:
            return
        if self.lib_tasks():
            w.violate("C16", "leaked-tasks", f"{len(self.lib_tasks())} background tasks survived the end of all sources")

    def direct_drain(self) -> None:
        """Take what is left below stopped or dropped mergers: from the inner mergers, then the sources."""
        acts = []
        for lf in self.leaves.values():
            # Mergers below the topmost stopped one hold messages of their own.
            stopped = [i for i, m in enumerate(lf.merges) if m in self.stopped_mergers]
            below = lf.merges[: stopped[-1]] if stopped else lf.merges[:-1]
            lf.exact = all(m in self.handles for m in below)
            for m in reversed(below):
                if m in self.handles and ["direct_merger", m] not in acts:
                    acts.append(["direct_merger", m])
        if acts:
            # Outer mergers first: their ids grow downwards in the tree.
            acts.sort(key=lambda o: int(o[1][1:]))
            self.phase_ops("directm", [("x:m", acts)])
        acts = []
        for lid, lf in self.leaves.items():
            if lf.kept and (lf.stopped_under is not None or lf.dropped_at is not None) and lf.merges:
                acts.append((f"x:{lid}", [["direct", lid]]))
        if acts:
            self.phase_ops("direct", acts)

    async def op_direct_merger(self, a, mid) -> None:
        """What an inner merger still holds after the one above it was stopped."""
        w = self.world
        recv = self.handles[mid]
        for _ in range(1000):
            out, val = await a.call(recv.receive(), ("direct", mid), 5)
            if out == "ok":
                m = self.inner_mid(val)
            elif out == "exc" and isinstance(val, BOOMS):
                m = val.mid
            else:
                break
            w.log(a.name, "direct", mid, m)
            lf = self.leaves.get(self.owner.get(m))
            if lf is None or lf not in self.merger_leaves[mid]:
                w.violate("C14", "invented-message", f"{mid} yielded {m}, which was not sent to it")
            elif m in self.delivered:
                w.violate(("C14", "C16"), "duplicate", f"{mid} yielded {m}, which was delivered before")
            elif lf.available() and lf.accepted[lf.pos] != m:
                w.violate(("C14", "C16"), "source-order", f"{mid} yielded {m}, expected {lf.accepted[lf.pos]}")
            else:
                lf.pos += 1
            self.delivered.add(m)

    async def op_direct(self, a, lid) -> None:
        w = self.world
        lf = self.leaves[lid]
        recv = self.handles[lid]
        left = []
        while True:
            out, val = await a.call(recv.receive(), ("direct", lid), 5)
            if out != "ok":
                break
            left.append(self.mid_of(val))
        w.log(a.name, "direct", lid, left)
        rest = lf.accepted[lf.pos:]
        if lf.dropped_at is not None:
            must = lf.accepted[max(lf.dropped_at, lf.pos):]
            if must and left[-len(must):] != must:
                w.violate("C16", "taken-after-drop", f"{lid}: left {left}, sent after the drop {must}")
            lf.pos = len(lf.accepted)
            return
        if not lf.exact and rest[len(rest) - len(left):] == left:
            # Some are held by a merger below the stopped one that nobody can reach.
            rest = left
        if left != rest:
            if lf.stop_done is not None and any(m not in left for m in lf.accepted[max(lf.stop_done, lf.pos):]):
                w.violate("C16", "taken-after-stop", f"{lid}: left {left}, expected {rest}")
            else:
                w.violate(("C16", "C14"), "lost-by-stop", f"{lid}: left {left}, expected {rest}")
        lf.pos = len(lf.accepted)

    def check_lost(self) -> None:
        w = self.world
        for lf in self.leaves.values():
            if lf.dropped_at is not None or lf.stopped_under is not None:
                continue
            if lf.available():
                st = self.rs.get(lf.top)
                merged = bool(lf.merges)
                props = {"C14"} if merged else {"C13"}
                if lf.closed:
                    props.add("C12")
                if merged and st is not None and self.has_errors(st):
                    props.add("C17")
                w.violate(props | {"C11"}, "message-lost",
                          f"{lf.lid}: accepted and never delivered: {lf.accepted[lf.pos:][:6]}")

    def summary(self):
        return sorted((k, v.pos) for k, v in self.leaves.items()) if hasattr(self, "leaves") else ()

    def model_state(self):
        if not hasattr(self, "leaves"):
            return ()
        return tuple((lf.available() if lf.available() < 4 else 4, lf.closed, lf.stopped_under is not None,
                      lf.dropped_at is not None) for lf in self.leaves.values())

    def release(self) -> None:
        super().release()
        for n in ("handles", "chans", "send_ends"):
            getattr(self, n, {}).clear()


def generate(rng, prop, tier) -> dict:
    pace = Pace(rng)
    big = tier == "thorough" and rng.random() < 0.3
    errors = rng.random() < {"C17": 1.0, "C13": 0.6}.get(prop, 0.25)
    ids = {"n": 0, "s": 0}
    sources = []
    none_ok = [1]
    n_msgs = rng.randrange(2, 26 if big else 16)
    flood = rng.random() < {"C35": 0.9, "C34": 0.5, "C37": 0.9}.get(prop, 0.04)
    keep_all = prop in ("C16",) or rng.random() < 0.3

    def src():
        lid = f"s{ids['s']}"
        ids["s"] += 1
        sources.append(lid)
        n = {"t": "src", "id": lid, "kind": rng.choice(["any", "bro"]), "limit": rng.choice([1, 1, 2, 3, 10]),
             "keep": keep_all}
        if errors and rng.random() < (0.35 if prop == "C17" else 0.2):
            n = {"t": "flaky", "id": name("k"), "bad": [], "src": n}
        return n

    def name(p):
        ids["n"] += 1
        return f"{p}{ids['n']}"

    def wrap(node, p):
        while rng.random() < p:
            node = {"t": "map", "id": name("f"), "bad": [], "src": node}
            p *= 0.5
        return node

    def tree(depth):
        if depth == 0 or rng.random() < 0.45:
            return wrap(src(), 0.35)
        k = rng.choice([1, 2, 2, 3])
        return wrap({"t": "merge", "id": name("m"), "keep": rng.random() < 0.7,
                     "srcs": [tree(depth - 1) for _ in range(k)]}, 0.25)

    if prop == "C13" or (prop in ("C11", "C12") and rng.random() < 0.5):
        tops = [wrap(src(), 0.85) if rng.random() < 0.7 else wrap(tree(2), 0.7) for _ in range(rng.choice([1, 1, 2]))]
        if tops[0]["t"] == "src":
            tops[0] = {"t": "map", "id": name("f"), "bad": [], "src": tops[0]}
    else:
        d = rng.choice([1, 1, 1, 2])
        tops = []
        for _ in range(rng.choice([1, 1, 1, 2])):
            k = rng.choice([1, 2, 2, 3, 4]) + (2 if big else 0)
            if rng.random() < 0.06:
                k, d = rng.choice([6, 9, 12, 16, 16, 20, 33]), 1
            top = {"t": "merge", "id": name("m"), "keep": rng.random() < (1.0 if prop == "C16" else 0.6),
                   "srcs": [tree(d - 1) for _ in range(k)]}
            tops.append(wrap(top, 0.15))
    # Messages, in order, and which of them fail where.
    msgs = [[rng.choice(sources), m, gen_kind(rng, none_ok)] for m in range(n_msgs)]

    full = len(sources) > 10 and rng.random() < 0.6  # all sources have messages at once
    if full:
        order = sources * rng.choice([1, 1, 2])
        rng.shuffle(order)
        msgs += [[lid, n_msgs + m, "n"] for m, lid in enumerate(order)]

    def plant(node):
        if node["t"] in ("map", "flaky"):
            if errors:
                p = rng.choice([0.0, 0.15, 0.4])
                node["bad"] = [m for _l, m, _k in msgs if rng.random() < p]
            plant(node["src"])
        elif node["t"] == "merge":
            for n in node["srcs"]:
                plant(n)

    for t in tops:
        plant(t)

    def late(node, merged):
        if node["t"] == "flaky":
            node["late"] = merged and rng.random() < 0.3
        for n in node.get("srcs", ()):
            late(n, True)
        if "src" in node:
            late(node["src"], merged)

    def styles(node, outermost):
        if node["t"] == "map":
            node["style"] = rng.choice([None, None, None, "partial", "object", "method"])
            if outermost and not merged_below(node) and rng.random() < 0.35:
                node["result"] = rng.choice(list(CONSTANTS))
            elif rng.random() < 0.25:
                node["result"] = rng.choice(list(RESULTS))
            styles(node["src"], False)
        elif node["t"] == "flaky":
            styles(node["src"], False)
        elif node["t"] == "merge":
            for n in node["srcs"]:
                styles(n, False)

    def merged_below(node):
        return node["t"] == "merge" or "src" in node and merged_below(node["src"])

    for t in tops:
        late(t, False)
        if rng.random() < 0.5:
            styles(t, True)
    actors = []
    if flood:
        for k, lid in enumerate(rng.sample(sources, min(len(sources), rng.choice([1, 1, 2, 3])))):
            n = rng.choice([60, 100, 150] if prop == "C35" else [40, 80])
            actors.append({"n": f"L{lid}", "ops": (pace.gap() if rng.random() < 0.5 else []) +
                           [["flood", lid, 1000 * (k + 1), n]]})
    n_s = rng.choice([1, 2, 2, 3])
    if full:
        pace, n_s = Pace(rng), 1
        pace.style = rng.choice(["burst", pace.style])
    for i in range(n_s):
        ops = pace.gap() if rng.random() < 0.5 else []
        for lid, m, k in msgs:
            # Each source is fed by one actor or by any.
            if m % n_s == i:
                ops.append(["send", lid, m, k])
                ops += pace.gap()
        actors.append({"n": f"S{i}", "ops": ops})
    closes = rng.random() < {"C15": 0.9, "C12": 0.8}.get(prop, 0.4)
    if closes:
        for lid in sources:
            if rng.random() < 0.7:
                actor = rng.choice(actors)
                pos = rng.randrange(len(actor["ops"]) + 1)
                if rng.random() < 0.5:
                    pos = len(actor["ops"])
                actor["ops"].insert(pos, ["close", lid])
    cancels = rng.random() < 0.5
    p_to = rng.choice([0, 0.1, 0.3]) if cancels else 0
    p_bg = rng.choice([0, 0.15, 0.3]) if cancels else 0
    rids = [f"top{i}" for i in range(len(tops))]
    share = rng.random() < (0.5 if prop in ("C11", "C14") else 0.3)
    for i in range(len(tops) + (1 if share else 0)):
        n = rng.randrange(0, 12) if prop != "C34" else rng.choice([0, 1, 2, 3, 6])
        ops = (pace.gap() if rng.random() < 0.4 else []) + recv_ops(
            rng, pace, [rids[i % len(rids)]], n, p_timeout=p_to, p_bg=p_bg,
            p_ready=rng.choice([0, 0.2, 0.4]))
        actors.append({"n": f"R{i}", "ops": ops})
    names = [a["n"] for a in actors if a["n"][0] == "R"]
    if cancels:
        actors.append({"n": "D0", "ops": disruptor_ops(rng, pace, names, rng.randrange(1, 6))})
        for a in actors:
            if a["ops"] and rng.random() < 0.4:
                a["ops"].insert(rng.randrange(len(a["ops"])) + 1, ["cancel", rng.choice(names)])
    if prop == "C16" or rng.random() < 0.12:
        kept: list = []

        def keep(node):
            if node["t"] == "merge":
                if node["keep"]:
                    kept.append(node["id"])
                for n in node["srcs"]:
                    keep(n)
            elif "src" in node:
                keep(node["src"])

        for t in tops:
            keep(t)
        for mid in kept:
            if rng.random() < 0.55:
                actor = rng.choice(actors)
                actor["ops"].insert(rng.randrange(len(actor["ops"]) + 1), ["mstop", mid])
        if rng.random() < 0.25:
            actor = rng.choice(actors)
            actor["ops"].insert(rng.randrange(len(actor["ops"]) + 1), ["drop", rng.choice(rids)])
    rng.shuffle(actors)
    return {
        "family": "pipeline",
        "cfg": {"tops": tops, "name": rng.choice([None, None, "same"]), "epi": rng.choice(["close", "close", "stop", "drop"] if prop != "C16" else
                                                ["close", "stop", "stop", "drop"])},
        "actors": actors,
        "sched": gen_sched(rng),
    }
