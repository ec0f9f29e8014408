"""Workloads over one Broadcast channel: C06 to C10 (and C11, C12 for its receivers)."""

from __future__ import annotations

import gc
import sys
import weakref
from collections import deque

from frequenz.channels import Broadcast

from ..gen import Pace, decoy, disruptor_ops, gen_sched, recv_ops, sprinkle
from .base import Family, check_send_error, gen_kind


class Holder:
    """Keeps a receiver in a reference cycle, so that only the garbage collector frees it."""

    def __init__(self, recv):
        self.recv = recv
        self.me = self


class BroadcastFamily(Family):
    DIRECT = True
    GENERIC = ("C06", "C09")

    async def build(self) -> None:
        c = self.cfg
        self.chan = Broadcast(name="sim", **({"resend_latest": c["resend"]} if c["resend"] or c["senders"] % 2 else {}))
        self.resend = c["resend"]
        if c.get("decoy"):
            self.add_decoy(Broadcast(name="sim", resend_latest=not c["resend"]), limit=1000)
        self.senders = [self.chan.new_sender() for _ in range(c["senders"])]
        self.sent_done: set = set()
        self.sent: list = []  # mids in the order of the send() calls
        self.latest = None  # [mid]
        self.last_sent = None  # (mid, message)
        self.close_start = None
        self.close_end = None
        self.dropped: list = []  # (weakref, rid)
        self.lost: list = []  # the receivers that had no space for the last message
        self.warnings: dict = {}  # by actor
        self.other_warnings: list = []
        self.kept_recvs: list = []
        self.n_sends_pending = 0
        for rid, limit in c["receivers"]:
            self.new_recv(rid, limit)

    def close_props(self):
        return ("C09",)

    def inspectables(self):
        return [("the channel", self.chan), *((f"sender {i}", s) for i, s in enumerate(self.senders)),
                *super().inspectables()] if self.init_task.done() else []

    def truths(self):
        if not self.init_task.done():
            return
        yield "name", self.chan.name, "sim"
        yield "the name in str()", "sim" in str(self.chan), True
        yield "resend_latest", self.chan.resend_latest, self.resend
        if (self.close_start is None) is (self.close_end is None):
            yield "is_closed", self.chan.is_closed, self.close_end is not None
        for rid, st in self.rs.items():
            if st.recv is not None and st.name is not None:
                yield f"the name in repr({rid})", st.name in repr(st.recv), True
        if any(a.blocked_on is not None and a.blocked_on[0] == "send" for a in self.world.actors.values()):
            return
        for rid, st in self.rs.items():
            if st.recv is not None and st.dup_ok is None:
                yield f"len({rid})", len(st.recv), len(st.q)

    def settled(self, mid) -> bool:
        return mid in self.sent_done and not any(mid in st.q or mid == st.dup_ok for st in self.rs.values())

    def may_keep(self) -> int:
        return super().may_keep() + 2

    def stop_names_receiver(self, st, via) -> bool:
        return via in ("recv", "consume")

    def new_recv(self, rid, limit, name=None) -> None:
        w = self.world
        kw = {}
        if limit is not None:
            kw["limit"] = limit
        if name is not None:
            kw["name"] = name
        try:
            recv = self.chan.new_receiver(**kw)
        except Exception as e:  # noqa: BLE001
            w.violate(("C06", "C08", "C10"), "new-receiver-raised", f"new_receiver raised {e!r}")
            return
        st = self.add_recv(rid, recv, channel=self.chan)
        st.name = name
        st.limit = 50 if limit is None else limit
        st.q = deque()
        st.overflowed = False
        st.resent = False
        st.dup_ok = None
        if self.resend and self.latest is not None:
            if self.close_start is None:
                if limit != 0:
                    st.q.append(self.latest[0])
                    st.resent = True
            else:
                st.dup_ok = self.latest[0]  # not specified on a closed channel
        st.wants = self.resend
        w.log("new", rid, limit, list(st.q))

    # -- operations ------------------------------------------------------------------------
    async def op_new(self, a, rid, limit, name=None) -> None:
        if rid not in self.rs:
            self.other_warnings.clear()
            self.new_recv(rid, limit, name)
            if self.other_warnings and limit != 0:
                self.world.violate("C40", "false-warning", f"creating {rid} logged: {self.other_warnings[0]}")

    async def op_drop(self, a, rid, cycle) -> None:
        st = self.usable(rid)
        if st is None or st.inflight:
            return
        w = self.world
        w.log(a.name, "drop", rid, cycle)
        w.count("receiver_dropped_in_cycle" if cycle else "receiver_dropped")
        if cycle and not self.plan.get("keep_dropped"):
            Holder(st.recv)
        if self.plan.get("keep_dropped"):
            self.kept_recvs.append(st.recv)  # it is not used any more, but not released
        else:
            self.dropped.append((weakref.ref(st.recv), rid))
        del self.rs[rid]
        st.recv = None

    async def op_resend(self, a, val) -> None:
        self.world.log(a.name, "resend", val)
        self.world.count("resend_latest_toggled")
        self.chan.resend_latest = val
        self.resend = val

    def warned(self, actor, text) -> None:
        if actor is not None and (actor.blocked_on or " ")[0] == "send":
            self.warnings.setdefault(actor.name, []).append(text)
        elif actor is None or actor.blocked_on is None:
            self.other_warnings.append(text)  # not in a call of a decoy either

    def check_warned(self, a, mid, lost) -> None:
        w = self.world
        if w.prop != "C40" or w.stop_now:
            return
        texts = self.warnings.pop(a.name, [])
        if len(texts) < len(lost):
            w.violate("C40", "silent-loss", f"send of {mid} pushed a message out of {[st.rid for st in lost]}, "
                                            f"{len(texts)} warnings were logged")
        elif len(texts) > len(lost) and not self.dropped:
            w.violate("C40", "false-warning", f"send of {mid} pushed a message out of {[st.rid for st in lost]}, "
                                              f"{len(texts)} warnings were logged: {texts[-1]}")
        for st in lost:
            if st.name is not None and not any(st.name in t for t in texts):
                w.violate("C40", "wrong-warning", f"no warning names {st.rid}, which lost a message: {texts[0]}")

    def op_enqueue_model(self, mid) -> None:
        self.lost = []
        self.sent.append(mid)
        self.latest = [mid]
        for st in self.rs.values():
            st.dup_ok = None
            st.q.append(mid)
            if len(st.q) > st.limit:
                st.q.popleft()
                st.overflowed = True
                self.world.count("receiver_overflow")
                self.lost.append(st)

    async def op_send(self, a, si, mid, kind, gc_at=None) -> None:
        w = self.world
        if kind == "r" and self.last_sent is not None:
            mid, msg = self.last_sent  # the same object once more
            w.count("same_object_sent_again")
        else:
            msg = self.new_msg(mid, "n" if kind == "r" else kind)
            self.last_sent = (mid, msg)
        w.log(a.name, "send?", mid)
        closed_before = self.close_end is not None
        lost = ()
        if self.close_start is None:
            self.op_enqueue_model(mid)
            lost = self.lost
        self.warnings.pop(a.name, None)
        aw = self.senders[si].send(msg)
        del msg
        if gc_at is not None:
            aw = gc_during(w, aw, gc_at)
        out, val = await a.call(aw, ("send", mid), None)
        w.log(a.name, "send", mid, out)
        self.sent_done.add(mid)
        if out == "ok":
            self.check_warned(a, mid, lost)
            if closed_before:
                w.violate("C09", "send-after-close", f"send of {mid} succeeded on a closed channel")
        elif out == "exc":
            if self.close_start is None:
                w.violate(("C06", "C07", "C09", "C10"), "send-raised", f"send of {mid} on an open channel raised {val!r}")
            else:
                check_send_error(self, "C09", val, self.chan, self.senders[si], f"send of {mid}")
        elif out == "spurious_cancel":
            w.violate(("C06", "C09"), "spurious-cancel", f"send of {mid} raised CancelledError")

    async def op_flood(self, a, si, mid, n) -> None:
        for i in range(n):
            await self.op_send(a, si, mid + i, "n")

    async def op_close(self, a) -> None:
        w = self.world
        w.count("close")
        seq = w.log(a.name, "close?")
        if self.close_start is None:
            self.close_start = seq
        out, val = await a.call(self.chan.close(), ("close", "chan"))
        if out == "ok" and self.close_end is None:
            self.close_end = w.log(a.name, "closed")
            if self.chan.is_closed is not True:
                w.violate("C09", "not-closed", "is_closed is not True after close()")
        elif out == "exc":
            w.violate("C09", "close-raised", f"close() raised {val!r}")

    # -- model -----------------------------------------------------------------------------
    def got(self, st, value, actor) -> None:
        w = self.world
        mid = self.mid_of(value)
        if st.dup_ok is not None and not st.q and mid == st.dup_ok:
            st.dup_ok = None
            return
        st.dup_ok = None
        if st.q and st.q[0] == mid:
            st.q.popleft()
            return
        first = st.n_got == 1
        exp = list(st.q)
        text = f"{st.rid} obtained {mid}, expected {exp[:6]}{'...' if len(exp) > 6 else ''}"
        if st.overflowed:
            w.violate(("C07", "C11"), "overflow-mismatch", text)
            w.violate("C06", "sequence-after-overflow", text)
        elif first and (st.resent or (exp and mid in self.sent) or not exp):
            w.violate(("C08", "C06"), "first-message", f"{text} (resend_latest {st.wants})")
        else:
            w.violate(("C06", "C07", "C10", "C11"), "sequence", text)
        # Resynchronise, so that a run for another property goes on.
        while st.q and st.q[0] != mid:
            st.q.popleft()
        if st.q:
            st.q.popleft()

    def stop_reported(self, st, actor) -> None:
        w = self.world
        if self.close_start is None:
            w.violate(("C09", "C12"), "stop-while-open", f"{st.rid} reported a stop, the channel is open")
        elif st.q:
            props = {"C09", "C12"}
            props.add("C07" if st.overflowed else "C06")
            if st.n_got == 0 and st.resent:
                props.add("C08")
            w.violate(props, "stop-before-drained", f"{st.rid} reported its stop with {list(st.q)} undelivered")

    def ready_false(self, st) -> None:
        self.stop_reported(st, None)

    def became_ready(self, st) -> None:
        st.ready_true = True
        if not st.q and st.dup_ok is None:
            self.world.violate(("C06", "C11"), "ready-without-message",
                               f"ready() on {st.rid} returned True without a message")

    # -- invariants ------------------------------------------------------------------------
    def quiescent(self) -> None:
        super().quiescent()
        w = self.world
        if w.stop_now or not self.init_task.done():
            return
        for who, kind, target in self.blocked():
            if kind == "send":
                w.violate(("C07", "C09"), "send-waits", f"{who} waits in send({target})")
            elif kind == "close":
                w.violate("C09", "close-stuck", f"{who} waits in close()")
            elif kind in self.WAITS and target in self.rs:
                st = self.rs[target]
                if st.q:
                    props = {"C09", "C11"}
                    props.add("C07" if st.overflowed else "C06")
                    if st.n_got == 0 and st.resent:
                        props.add("C08")
                    w.violate(props, "receiver-stranded",
                              f"{who} waits in {kind}({target}) with {list(st.q)[:5]} sent to it")
                elif self.close_end is not None and st.dup_ok is None:
                    w.violate("C09", "receiver-stuck-after-close", f"{who} waits in {kind}({target}) after close()")
        if self.dropped:
            gc.collect()
            for ref, rid in self.dropped:
                if ref() is not None:
                    w.violate("C10", "receiver-kept-alive", f"{rid} was dropped but is still alive after a collection")
                else:
                    w.count("receiver_released")
            self.dropped.clear()

    def epilogue(self) -> None:
        w = self.world
        ops = []
        if self.cfg.get("epi") == "close":
            self.phase_ops("close", [("e:close", [["close"]])])
        for i in range(400):
            pend = [a for a in w.actors.values() if not a.finished]
            got = sum(st.n_got for st in self.rs.values())
            self.phase_ops(f"d{i}", [(f"d{i}:{rid}", [["drain", rid, 5]]) for rid in self.rs])
            if w.stop_now or w.loop.capped:
                return
            if got == sum(st.n_got for st in self.rs.values()) and pend == [
                    a for a in w.actors.values() if not a.finished]:
                break
        if self.close_end is None:
            self.check_drained()
            self.phase_ops("close", [("e:close", [["close"]])])
        for rid in list(self.rs):
            ops += [["drain", rid, 5], ["recv", rid, None], ["ready", rid, None], ["anext", rid, None],
                    ["consume", rid]]
        ops += [["send", 0, 9999, "n", None], ["new", "late", 3], ["recv", "late", None], ["recv", "late", None]]
        self.phase_ops("after", [("e:after", ops)])
        if w.stop_now or w.loop.capped:
            return
        for st in self.rs.values():
            if not st.stopped and st.rid != "late":
                w.violate(("C09", "C12"), "not-stopped", f"{st.rid} did not report a stop after close() and drain")
        self.check_drained()

    def check_drained(self) -> None:
        for st in self.rs.values():
            if st.q:
                props = {"C06"} if not st.overflowed else {"C07"}
                if st.n_got == 0 and st.resent:
                    props.add("C08")
                if self.close_end is not None:
                    props.add("C09")
                self.world.violate(props, "message-lost", f"{st.rid} never obtained {list(st.q)}")

    def summary(self):
        return (len(self.sent), sorted((str(k), s.n_got) for k, s in self.rs.items())) if hasattr(self, "sent") else ()

    def model_state(self):
        if not hasattr(self, "n_sends_pending"):
            return ()
        return (self.close_end is not None, self.resend,
                tuple(sorted((str(k), s.limit, len(s.q)) for k, s in self.rs.items())))

    def release(self) -> None:
        super().release()
        self.chan = self.last_sent = None
        self.kept_recvs = []
        self.senders = []


async def gc_during(world, aw, at: int):
    """Await `aw` with a garbage collection injected at the at-th call made inside it."""
    n = 0

    def prof(frame, event, arg):
        nonlocal n
        if event in ("call", "c_call", "return"):
            n += 1
            if n == at:
                sys.setprofile(None)
                world.count("gc_during_send")
                gc.collect()

    sys.setprofile(prof)
    try:
        return await aw
    finally:
        sys.setprofile(None)


def generate(rng, prop, tier) -> dict:
    pace = Pace(rng)
    big = tier == "thorough" and rng.random() < 0.3
    n_s = rng.choice([1, 1, 2, 3])
    n_r = rng.choice([1, 2, 2, 3, 4]) + (2 if big else 0)
    cancels = rng.random() < 0.5
    dynamic = rng.random() < {"C10": 1.0, "C08": 0.95, "C06": 0.6}.get(prop, 0.5)
    toggles = rng.random() < (0.4 if prop == "C08" else 0.1)
    small = rng.random() < (0.9 if prop == "C07" else 0.4)
    none_ok = [1]
    limits = [1, 1, 2, 2, 3, 4] if small else [None, None, 50, 40, 7, 3]
    bursts, burst_p = [1, 2, 3], 0.15
    repeat_p = rng.choice([0, 0, 0.1, 0.4])
    if rng.random() < (0.25 if prop == "C07" else 0.15 if prop in ("C09", "C11") else 0.05):
        limits = rng.choice([[5, 6, 8, 9], [7, 10, 13, 16], [16, 17, 24], [None, 50]])
        m = max(x or 50 for x in limits)
        bursts, burst_p = [m // 2, m, m + 1, m + m // 3], 0.35
    if prop == "C37":
        bursts, burst_p = [5, 20, 40], 0.3
    if rng.random() < 0.07:
        limits = limits + [0]
    mid = 0
    actors = []
    n_new = 0
    crowd = rng.random() < 0.08  # many receivers, or many tasks that wait on few of them
    if crowd and rng.random() < 0.5:
        n_r = rng.choice([6, 9, 14, 14, 20, 40])
    large = rng.random() < 0.015  # large buffers
    if large:
        n_r, limits = rng.choice([1, 2]), [rng.choice([99, 100, 128, 200, 256, 500, 1000, 1024, 2000])]
    if dynamic and not large and rng.random() < (0.2 if prop == "C08" else 0.04):
        n_r = 0  # nobody is there at first
    drops = rng.random() < (1.0 if prop == "C10" else 0.5)
    for i in range(n_s):
        ops = []
        for _ in range(rng.randrange(1, 16 if big else 9)):
            if rng.random() < burst_p:
                for _ in range(rng.choice(bursts)):
                    ops.append(["send", i, mid, "r" if rng.random() < repeat_p else gen_kind(rng, none_ok), None])
                    mid += 1
            gc_at = rng.randrange(1, 40) if drops and rng.random() < (0.35 if prop == "C10" else 0.1) else None
            ops.append(["send", i, mid, "r" if rng.random() < repeat_p else gen_kind(rng, none_ok), gc_at])
            mid += 1
            ops += pace.gap()
        actors.append({"n": f"S{i}", "ops": ops})
    rids = [f"r{i}" for i in range(n_r)]
    first = [[r, rng.choice(limits)] for r in rids]
    p_to = rng.choice([0, 0.1, 0.3]) if cancels else 0
    p_bg = rng.choice([0, 0.1, 0.3]) if cancels else 0
    share = rng.random() < 0.4
    # Consumers may be slow or absent, so that buffers fill.
    for i in range(0 if not n_r else n_r + (1 if share else 0) if not crowd else max(n_r, rng.choice([4, 6, 9]))):
        mine = [rids[i % n_r]]
        n = rng.choice([0, 1, 3, 6, 9]) if small or prop == "C07" else rng.randrange(1, 12)
        ops = (pace.gap() if rng.random() < 0.5 else []) + recv_ops(
            rng, pace, mine, n, p_timeout=p_to, p_bg=p_bg, p_ready=rng.choice([0, 0.2, 0.5]))
        actors.append({"n": f"R{i}", "ops": ops})
    if dynamic:
        for d in range(rng.choice([1, 2])):
            ops = list(pace.gap())
            mine = []
            for _ in range(rng.randrange(2, 7)):
                r = rng.random()
                if r < 0.45 or not mine:
                    rid = f"n{n_new}"
                    n_new += 1
                    ops.append(["new", rid, rng.choice(limits), rng.choice([None, None, "aName"])])
                    mine.append(rid)
                elif r < 0.75 and drops:
                    ops.append(["drop", rng.choice(mine + rids), rng.random() < 0.5])
                else:
                    ops += recv_ops(rng, pace, mine, rng.randrange(1, 3), p_timeout=max(p_to, 0.3), p_bg=p_bg)
                if toggles and rng.random() < 0.4:
                    ops.append(["resend", rng.random() < 0.5])
                ops += pace.gap()
            actors.append({"n": f"N{d}", "ops": ops})
    elif drops:
        actors.append({"n": "X0", "ops": pace.gap() + [["drop", rng.choice(rids), rng.random() < 0.5]]})
    if large:
        n = limits[0] + rng.choice([-1, 0, 1, 1, 5, limits[0] // 5])
        actors.append({"n": "L0", "ops": [["flood", 0, 10_000, n // 2], ["yield", 1], ["flood", 0, 20_000, n - n // 2]]})
    names = [a["n"] for a in actors if a["n"][0] in "RN"]
    if cancels:
        actors.append({"n": "D0", "ops": disruptor_ops(rng, pace, names, rng.randrange(1, 7))})
        for a in actors:
            if a["ops"] and rng.random() < 0.5:
                a["ops"].insert(rng.randrange(len(a["ops"])) + 1, ["cancel", rng.choice(names)])
    elif drops:
        actors.append({"n": "G0", "ops": disruptor_ops(rng, pace, [], 3, extra=[["gc"]])})
    if rng.random() < (0.85 if prop in ("C09", "C12") else 0.25):
        sprinkle(rng, rng.choice(actors)["ops"], ["close"])
    rng.shuffle(actors)
    return {
        "family": "broadcast",
        "cfg": {"decoy": decoy(rng, actors, pace), "resend": rng.random() < (0.75 if prop == "C08" else 0.3), "senders": n_s, "receivers": first,
                "epi": rng.choice(["drain", "drain", "close"])},
        "actors": actors,
        "sched": gen_sched(rng),
    }
