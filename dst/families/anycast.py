"""Workloads over one Anycast channel: C01 to C05 (and C11, C12 for its receivers)."""

from __future__ import annotations

from frequenz.channels import Anycast

from ..gen import Pace, decoy, disruptor_ops, gen_sched, recv_ops, sprinkle
from .base import Family, check_send_error, gen_kind


class AnycastFamily(Family):
    DIRECT = True
    GENERIC = ("C01", "C04", "C05")

    async def build(self) -> None:
        c = self.cfg
        self.limit = 10 if c["limit"] is None else c["limit"]
        self.chan = Anycast(name="sim", **({} if c["limit"] is None else {"limit": self.limit}))
        self.senders = [self.chan.new_sender() for _ in range(c["senders"])]
        for i in range(c["receivers"]):
            st = self.add_recv(f"r{i}", self.chan.new_receiver(), channel=self.chan)
            st.take_lo = None
        if c.get("decoy"):
            self.add_decoy(Anycast(name="sim", limit=3))
        self.sends: dict = {}  # mid -> [start seq, end seq, outcome]
        self.ok_mids: set = set()
        self.taken: dict = {}  # mid -> (lo, hi, rid)
        self.forfeited = 0  # messages that dropped receivers were ready with
        self.close_start = None
        self.close_end = None

    def close_props(self):
        return ("C05",)

    def inspectables(self):
        return [("the channel", self.chan), *((f"sender {i}", s) for i, s in enumerate(self.senders)),
                *super().inspectables()] if self.init_task.done() else []

    def truths(self):
        if not self.init_task.done():
            return
        yield "name", self.chan.name, "sim"
        yield "the name in str()", "sim" in str(self.chan), True
        yield "limit", self.chan.limit, self.limit
        if (self.close_start is None) is (self.close_end is None):
            yield "is_closed", self.chan.is_closed, self.close_end is not None

    def settled(self, mid) -> bool:
        return mid in self.taken or (mid in self.sends and self.sends[mid][2] not in ("pending", "ok"))

    def stop_names_receiver(self, st, via) -> bool:
        return True if via in ("recv", "consume") else False

    # -- model -----------------------------------------------------------------------------
    def slots(self) -> int:
        return sum(1 for st in self.rs.values() if st.ready_true)

    def held(self) -> int:
        """Messages accepted and taken by no receiver; exact at quiescent instants.

        (What dropped receivers had taken is gone. A library that gives it to others would do no worse, so
        where more messages would be an excuse it does not count.)
        """
        return len(self.ok_mids) - len(self.taken) - self.slots() - self.forfeited

    def held_at_least(self, but=None) -> int:
        """A lower bound that holds at any instant."""
        busy = sum(1 for st in self.rs.values() if st is not but and not st.ready_true and st.inflight)
        return self.held() - busy

    def warned(self, actor, text) -> None:
        w = self.world
        if actor is None or (actor.blocked_on or " ")[0] != "send":
            return  # it is about a decoy
        actor.warned = True
        if "sim" not in text:
            w.violate("C40", "wrong-warning", f"the warning does not name the channel: {text}")
        # At most these can be in the buffer: accepted or being accepted, and not received.
        most = sum(1 for mid, rec in self.sends.items()
                   if rec[2] in ("ok", "pending") and mid not in self.taken and ("send", mid) != actor.blocked_on)
        if most < self.limit:
            w.violate("C40", "false-warning", f"{actor.name} was warned ({text}), with at most {most} of {self.limit} "
                                              "messages in the buffer")

    async def op_send(self, a, si, mid, kind, timeout=None) -> None:
        w = self.world
        a.warned = False
        start = w.log(a.name, "send?", mid)
        rec = [start, None, "pending"]
        self.sends[mid] = rec
        closed_before = self.close_end is not None
        in_flight_close = self.close_start is None
        out, val = await a.call(self.senders[si].send(self.new_msg(mid, kind)), ("send", mid), timeout)
        rec[1] = w.log(a.name, "send", mid, out)
        rec[2] = out
        if out == "ok":
            self.ok_mids.add(mid)
            if closed_before:
                w.violate("C05", "send-after-close", f"send of {mid} succeeded on a closed channel")
            elif self.close_end is not None and in_flight_close and self.close_end < rec[1]:
                w.violate("C05", "blocked-send-after-close",
                          f"send of {mid}, waiting for space when the channel was closed, succeeded afterwards")
            if self.held_at_least() > self.limit:
                w.violate("C03", "buffer-over-limit",
                          f"{self.held_at_least()} messages accepted and not taken, limit {self.limit}")
        else:
            if mid in self.taken:
                w.violate("C01", "failed-send-delivered", f"{mid} was delivered but its send ended with {out}")
            if out == "exc":
                if self.close_start is None:
                    w.violate(("C01", "C04"), "send-raised", f"send of {mid} on an open channel raised {val!r}")
                else:
                    check_send_error(self, "C05", val, self.chan, self.senders[si], f"send of {mid}")
            elif out == "spurious_cancel":
                w.violate(("C01", "C04", "C05"), "spurious-cancel", f"send of {mid} raised CancelledError")

    async def op_flood(self, a, si, mid, n) -> None:
        for i in range(n):
            await self.op_send(a, si, mid + i, "n")

    async def op_close(self, a) -> None:
        w = self.world
        w.count("close")
        pend = sum(1 for k in self.sends.values() if k[2] == "pending")
        if pend:
            w.count("close_with_blocked_senders")
        seq = w.log(a.name, "close?")
        if self.close_start is None:
            self.close_start = seq
        out, val = await a.call(self.chan.close(), ("close", "chan"))
        if self.close_end is None and out == "ok":
            self.close_end = w.log(a.name, "closed")
            if self.chan.is_closed is not True:
                w.violate("C05", "not-closed", "is_closed is not True after close()")
        if out == "exc":
            w.violate("C05", "close-raised", f"close() raised {val!r}")

    # take intervals --------------------------------------------------------------------------
    async def do(self, actor, op) -> None:
        if op[0] in ("recv", "anext", "iter", "ready", "rc", "bg"):
            st = self.rs.get(op[1])
            if st is not None and st.take_lo is None:
                st.take_lo = self.world.seq
        await super().do(actor, op)

    async def op_drop(self, a, rid) -> None:
        """Release a receiver, which may be ready with a message; others remain."""
        st = self.usable(rid)
        if st is None or st.inflight or len(self.rs) < 2:
            return
        self.world.log(a.name, "drop", rid)
        self.world.count("ready_receiver_dropped" if st.ready_true else "receiver_dropped")
        self.forfeited += st.ready_true
        del self.rs[rid]
        st.recv = None

    def got(self, st, value, actor) -> None:
        w = self.world
        mid = self.mid_of(value)
        rec = self.sends.get(mid)
        if rec is None:
            w.violate(("C01", "C11"), "invented-message", f"{st.rid} received {mid}, which was never sent")
            return
        if mid in self.taken:
            w.violate(("C01", "C11"), "duplicate", f"{mid} was received by {self.taken[mid][2]} and by {st.rid}")
            return
        if rec[2] not in ("pending", "ok"):
            w.violate("C01", "failed-send-delivered", f"{mid} was delivered to {st.rid} but its send {rec[2]}")
        lo = st.take_lo if st.take_lo is not None else w.seq
        self.taken[mid] = (lo, w.seq, st.rid)
        self.ok_mids.add(mid)
        st.take_lo = w.seq

    def stop_reported(self, st, actor) -> None:
        w = self.world
        if self.close_start is None:
            w.violate(("C05", "C12"), "stop-while-open", f"{st.rid} reported a stop, the channel is open")
        elif self.held_at_least(but=st) > 0:
            w.violate(("C05", "C12", "C01"), "stop-before-drained",
                      f"{st.rid} reported its stop with {self.held_at_least(but=st)} accepted messages undelivered")

    def ready_false(self, st) -> None:
        self.stop_reported(st, None)

    # -- invariants ------------------------------------------------------------------------
    def quiescent(self) -> None:
        super().quiescent()
        w = self.world
        if w.stop_now or self.init_task is None or not self.init_task.done():
            return
        held = self.held()
        if held > self.limit:
            w.violate("C03", "buffer-over-limit", f"{held} messages accepted and not taken, limit {self.limit}")
        if held + self.forfeited < 0:
            w.violate("C01", "phantom", f"receivers hold {-held} messages more than were accepted")
        closed = self.close_end is not None
        for who, kind, target in self.blocked():
            if kind == "send":
                if w.prop == "C40" and not w.actors[who].warned:
                    w.violate("C40", "silent-wait", f"{who} waits in send({target}), no warning was logged")
                if closed:
                    w.violate("C05", "sender-stuck-after-close", f"{who} still waits in send({target}) after close()")
                elif held + self.forfeited < self.limit:
                    w.violate(("C03", "C04"), "sender-stranded",
                              f"{who} waits in send({target}) with {held} of {self.limit} messages in the buffer")
            elif kind in self.WAITS and not self.rs[target].ready_true:
                if held > 0:
                    w.violate(("C04", "C05") if closed else ("C04", "C01", "C11"), "receiver-stranded",
                              f"{who} waits in {kind}({target}) with {held} messages in the channel")
                elif closed:
                    w.violate(("C05", "C04"), "receiver-stuck-after-close",
                              f"{who} still waits in {kind}({target}) after close()")
            elif kind == "close":
                w.violate("C05", "close-stuck", f"{who} waits in close()")

    # -- end of the run ----------------------------------------------------------------------
    def drain(self, tag) -> None:
        w = self.world
        for i in range(400):
            n = len(self.taken)
            pend = [a for a in w.actors.values() if not a.finished]
            self.phase_ops(f"{tag}{i}", [(f"{tag}{i}:{rid}", [["drain", rid, 5]]) for rid in self.rs])
            if w.stop_now or w.loop.capped:
                return
            if len(self.taken) == n and pend == [a for a in w.actors.values() if not a.finished]:
                return

    def drain_again(self, st, a) -> bool:
        return False

    def epilogue(self) -> None:
        w = self.world
        first = self.cfg.get("epi", "drain")
        if first == "close" and self.close_end is None:
            self.phase_ops("close", [("e:close", [["close"]])])
        self.drain("d")
        if w.stop_now or w.loop.capped:
            return
        self.check_lost()
        if w.stop_now:
            return
        if self.close_end is None:
            self.phase_ops("close", [("e:close", [["close"]])])
        self.drain("f")
        ops = []
        for rid in self.rs:
            ops += [["recv", rid, None], ["ready", rid, None], ["anext", rid, None], ["consume", rid]]
        ops.append(["send", 0, 9999, "n", None])
        self.phase_ops("after", [("e:after", ops)])
        if w.stop_now or w.loop.capped:
            return
        for st in self.rs.values():
            if not st.stopped:
                w.violate(("C05", "C12"), "not-stopped", f"{st.rid} did not report a stop after close() and drain")
        self.check_lost()
        self.check_fifo()

    def check_lost(self) -> None:
        w = self.world
        lost = sorted(m for m in self.ok_mids if m not in self.taken)
        if len(lost) > self.forfeited:
            props = {"C01"}
            if self.close_start is not None:
                props.add("C05")
            if any(w.counts.get(k) for k in ("abandoned_ready", "timeout_fired", "cancel_in_flight")) or any(
                o[0] in ("ready", "rc", "bg") for x in self.plan["actors"] for o in x["ops"]
            ):
                props.add("C11")
            w.violate(props, "message-lost", f"accepted and never delivered: {lost}")
        self.check_fifo()

    def check_fifo(self) -> None:
        got = [(m, self.sends[m], t) for m, t in self.taken.items()]
        if len(got) > 80:
            # Only those that can matter: of what was accepted earlier, the one taken last.
            done = sorted((x for x in got if x[1][1] is not None), key=lambda x: x[1][1])
            bad, i, last = [], 0, None
            for b in sorted(got, key=lambda x: x[1][0]):
                while i < len(done) and done[i][1][1] < b[1][0]:
                    if last is None or done[i][2][0] > last[2][0]:
                        last = done[i]
                    i += 1
                if last is not None and last[2][0] > b[2][1]:
                    bad = [last, b]
                    break
            got = bad
        for a, sa, ta in got:
            if sa[1] is None:
                continue
            for b, sb, tb in got:
                if sa[1] < sb[0] and ta[0] > tb[1]:
                    props = ("C02", "C11") if ta[2] == tb[2] else "C02"
                    self.world.violate(
                        props, "fifo",
                        f"{a} was accepted before the send of {b} began, but {tb[2]} received {b} before "
                        f"{ta[2]} could take {a}")
                    return

    def model_state(self):
        if not hasattr(self, "taken"):
            return ()
        return (self.limit, self.held(), self.slots(), self.close_end is not None)

    def summary(self):
        return (len(self.ok_mids), len(self.taken)) if hasattr(self, "taken") else ()

    def release(self) -> None:
        super().release()
        self.chan = None
        self.senders = []


def generate(rng, prop, tier) -> dict:
    pace = Pace(rng)
    n_s, n_r = rng.choice([1, 1, 2, 2, 3, 4]), rng.choice([1, 1, 2, 2, 3])
    limit = rng.choice([1, 1, 1, 2, 2, 3, 5] + [0] * (rng.random() < 0.15))
    big = tier == "thorough" and rng.random() < 0.3
    if big:
        n_s, n_r, limit = rng.choice([3, 5, 6]), rng.choice([3, 4, 5]), rng.choice([1, 2, 3, 4, 7])
    burst_p = 0.0
    if rng.random() < (0.6 if prop == "C37" else 0.12):
        limit, burst_p = rng.choice([(None, 0.5), (6, 0.4), (8, 0.4), (12, 0.5), (20, 0.6)])
    cancels = rng.random() < (0.8 if prop in ("C04", "C11") else 0.55)
    none_ok = [1]
    mid = 0
    actors = []
    # Many tasks that wait at the same time, for messages or for space.
    crowd = rng.choice(["r", "s"]) if rng.random() < 0.12 else None
    if crowd == "r":
        n_s, n_r, limit = rng.choice([1, 2]), rng.choice([4, 6, 9, 14]), rng.choice([limit, 10, None])
        burst_p = rng.choice([0, 0.4])
    elif crowd == "s":
        n_s, n_r = rng.choice([4, 6, 9, 14]), rng.choice([1, 2])
    p_to = rng.choice([0, 0.1, 0.3]) if cancels else 0
    for i in range(n_s):
        ops = []
        if crowd == "r" and rng.random() < 0.8:
            ops = [["yield", 3]] if rng.random() < 0.7 else [["sleep", 1]]
        for _ in range(rng.randrange(1, 12 if big else 8 if crowd != "s" else 3)):
            ops.append(["send", i, mid, gen_kind(rng, none_ok), pace.timeout(p_to)])
            mid += 1
            if rng.random() < burst_p:
                for _ in range(rng.choice([2, limit or 10, 4])):
                    ops.append(["send", i, mid, gen_kind(rng, none_ok), pace.timeout(p_to)])
                    mid += 1
            ops += pace.gap()
        actors.append({"n": f"S{i}", "ops": ops})
    rids = [f"r{i}" for i in range(n_r)]
    share = rng.random() < (0.6 if prop in ("C04", "C11") else 0.3)
    n_ra = n_r + (rng.choice([1, 2]) if share else 0)
    p_bg = rng.choice([0, 0.1, 0.3]) if cancels else 0
    p_ready = rng.choice([0, 0.2, 0.5])
    for i in range(n_ra):
        mine = [rids[i % n_r]] if rng.random() < 0.7 else rids
        n = rng.randrange(0, 12 if big else 9)
        if crowd == "r":
            n = rng.choice([1, 1, 2, 3])
        elif crowd == "s":
            n = rng.choice([2, 4, 9, 14])
        ops = (pace.gap() if rng.random() < 0.5 else []) + recv_ops(
            rng, pace, mine, n, p_timeout=p_to, p_bg=p_bg, p_ready=p_ready)
        actors.append({"n": f"R{i}", "ops": ops})
    if rng.random() < 0.015:  # a large buffer, filled by many
        limit = rng.choice([50, 64, 100, 128, 200, 256, 500, 1000])
        n = limit + rng.choice([-1, 0, 1, 3, limit // 4])
        actors.append({"n": "L0", "ops": [["flood", 0, 10_000, n // 2], ["yield", 1], ["flood", 0, 20_000, n - n // 2]]})
        for a in actors:
            if a["n"][0] == "R":
                a["ops"] = [["yield", 5 + 2 * n]] if rng.random() < 0.6 else []
                a["ops"].append(["iter", rng.choice(rids), rng.choice([1, limit // 2, 2 * limit]), 0])
    names = [a["n"] for a in actors]
    if cancels:
        for d in range(rng.choice([1, 1, 2])):
            actors.append({"n": f"D{d}", "ops": disruptor_ops(rng, pace, names, rng.randrange(1, 7))})
        # Cancellations in the very step in which another operation wakes someone up.
        for a in actors:
            if a["ops"] and rng.random() < 0.5:
                pos = rng.randrange(len(a["ops"])) + 1
                a["ops"].insert(pos, ["cancel", rng.choice(names)])
    if rng.random() < (0.85 if prop in ("C05", "C12") else 0.3):
        sprinkle(rng, rng.choice(actors)["ops"], ["close"])
    if n_r > 1 and rng.random() < 0.15:  # a receiver that is not used any more, perhaps a ready one
        for _ in range(rng.choice([1, 1, 2])):
            rid = rng.choice(rids)
            a = rng.choice([a for a in actors if a["n"][0] == "R"])
            sprinkle(rng, a["ops"], ["drop", rid])
            if rng.random() < 0.6:
                i = a["ops"].index(["drop", rid])
                a["ops"][i:i] = [["ready", rid, pace.timeout(0.5)]]
    rng.shuffle(actors)
    return {
        "family": "anycast",
        "cfg": {"decoy": decoy(rng, actors, pace), "limit": limit, "senders": n_s, "receivers": n_r, "epi": rng.choice(["drain", "drain", "close"])},
        "actors": actors,
        "sched": gen_sched(rng),
    }
