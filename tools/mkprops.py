"""Writes /verif/properties.jsonl (the text of the properties lives here)."""
import json, pathlib
A="src/frequenz/channels/_anycast.py"; B="src/frequenz/channels/_broadcast.py"; R="src/frequenz/channels/_receiver.py"
M="src/frequenz/channels/_merge.py"; S="src/frequenz/channels/_select.py"; E="src/frequenz/channels/event.py"
T="src/frequenz/channels/timer.py"; F="src/frequenz/channels/file_watcher.py"; X="src/frequenz/channels/_exceptions.py"
N="src/frequenz/channels/_sender.py"
P=[]
def p(id,title,statement,over,qtext,why,files,mech,state=(),observe=()):
    P.append(dict(id=id,title=title,statement=statement,quantifier=dict(over=over,text=qtext),why_tests_cant=why,
      anchors=dict(files=files,state=[dict(name=n,meaning=m,where=w) for n,m,w in state],
        mechanism=[dict(name=n,where=w) for n,w in mech],observe_at=list(observe),hook_needed=None)))
SCHED=["schedules","fault_sequences","configurations"]
p("C01","Anycast delivers every accepted message to exactly one receiver",
 "Every message whose send() on an Anycast channel returned normally is obtained by exactly one receive/consume across all receivers of that channel once the channel is drained, and nothing is ever received that was not sent. A send() that raised (cancelled, timed out, or failed because the channel is closed) never delivers its message, and cancelling or timing out a pending receive/ready loses no message.",
 SCHED,"all interleavings of any number of senders and receivers, any buffer limit >= 1, cancellations/timeouts of sends and receives at any instant, close at any instant",
 "Tests send fixed sequences and compare a sum on one schedule; no test cancels an operation in flight, closes with blocked senders, or mixes ready()/consume() between receivers.",
 [A,R],[("buffer append only after space is available","Anycast _Sender.send"),("receiver-local one-message slot filled when popping","Anycast _Receiver.ready/consume")],
 [("channel buffer","messages accepted and not yet taken",A),("per-receiver slot","message taken but not consumed",A)],["Sender.send outcome","Receiver.receive/ready/consume outcome"])
p("C02","Anycast preserves FIFO order",
 "Messages of an Anycast channel are taken in the order in which they were accepted: if the send() of a completed before the send() of b began, then no receiver obtains b before a has been handed to a receiver. In particular messages that one task sends one after the other are seen in that order by any single receiver.",
 SCHED,"all interleavings of senders blocked and unblocked on a full buffer with several receivers, cancellations and timeouts included",
 "Tests check order only for one sender and one receiver without contention; the order in which blocked senders and competing receivers resume depends on the schedule.",
 [A],[("deque appended at the tail and popped at the head","Anycast _Sender.send/_Receiver.ready")],[("channel buffer","FIFO of accepted messages",A)],["send completion order","receive order"])
p("C03","Anycast buffer is bounded and blocks senders only when full",
 "At no time does an Anycast channel hold more than `limit` accepted messages that no receiver has taken; no message is ever dropped to make room. A send() waits if and only if the buffer holds `limit` messages, and it resumes as soon as a receiver takes one.",
 SCHED,"all interleavings, any limit >= 1, many blocked senders, cancellations of blocked senders",
 "test_anycast_full fills one channel from one task with a real 0.2 s timeout; it never has several senders competing for one freed slot.",
 [A],[("re-check of the fullness condition after every wakeup","Anycast _Sender.send")],[("channel buffer","bounded by limit",A)],["send() blocked or completed at quiescent instants"])
p("C04","Anycast never strands a waiting sender or receiver",
 "Whenever the event loop has nothing left to run, no receiver of an open Anycast channel is waiting while the channel holds a message, and no sender is waiting while the buffer has free space. This holds even if other senders or receivers were cancelled or timed out at the very moment they were being woken up, and if several tasks wait on the same receiver.",
 SCHED,"all wake-up/cancellation races between senders, receivers, ready() calls abandoned by a finished select loop, and timeouts",
 "Tests have no cancellation at all; a lost wakeup needs a cancellation to land between a notification and the resumption of the notified task.",
 [A],[("condition variable notification on append and on pop, handed on when the woken task is cancelled","Anycast _Sender.send/_Receiver.ready")],[("waiters of the two conditions","blocked senders/receivers",A)],["pending send()/receive() at quiescent instants"])
p("C05","Closing an Anycast channel fails senders and drains receivers",
 "After close() of an Anycast channel every new send(), and every send() still waiting for space, raises SenderError caused by a ChannelClosedError naming the channel; is_closed is true. Receivers still obtain everything accepted before, and only then get ReceiverStoppedError (the async iteration ends), permanently and without any task being left waiting.",
 SCHED,"close at any point relative to blocked senders, blocked receivers, partially drained buffers, cancellations",
 "Tests close an idle channel; none closes with senders blocked on a full buffer or with receivers in the middle of draining.",
 [A,X,N],[("closed flag checked by send and ready, notify_all on both conditions","Anycast.close")],[("closed flag","channel closed",A)],["send()/receive() outcome after close()"])
p("C06","Broadcast delivers the same sequence to every receiver",
 "Every receiver of a Broadcast channel obtains exactly the messages sent after its creation (while it keeps within its own limit), each exactly once and all receivers in the same order, which is the order of the send() calls. Cancelling or timing out a pending receive loses and duplicates nothing.",
 SCHED,"all interleavings of senders, receivers created and dropped at any time, cancellations of receives",
 "Tests compare sums or one receiver's order for a fixed schedule; receivers never come and go, wait concurrently or get cancelled while messages flow.",
 [B,R],[("enqueue into every live receiver's own queue in one step","Broadcast _Sender.send"),("receiver waits in a loop on the channel condition","Broadcast _Receiver.ready")],[("per-receiver queue","messages not yet consumed",B)],["sequence observed by each receiver"])
p("C07","Broadcast overflow drops only the oldest of the slow receiver",
 "When a Broadcast receiver's buffer already holds its `limit` messages, a new message replaces exactly the oldest buffered one of that receiver, so an overrun receiver always holds the newest `limit` messages in order. Other receivers are unaffected and send() never waits for a receiver.",
 SCHED,"any mix of receiver limits (also 0) and consumption speeds, bursts, stalled receivers",
 "test_broadcast_overflow checks sums for two limits and one burst pattern.",
 [B],[("drop-oldest enqueue per receiver","Broadcast _Receiver.enqueue")],[("per-receiver queue","at most limit newest messages",B)],["sequence observed by each receiver","send() completion"])
p("C08","Broadcast late joiners get the latest message only when asked",
 "With resend_latest set, a receiver created on an open Broadcast channel first obtains the last message sent before its creation (whatever its value, if there was one) and then everything sent later. Without it, the receiver obtains only messages sent after its creation.",
 SCHED,"receivers created at any instant between any sends by any number of senders, any message values including None, resend_latest toggled at run time",
 "Two tests create one late receiver after ten integers.",
 [B],[("latest message kept by the channel and enqueued on receiver creation","Broadcast.new_receiver")],[("latest","last message sent",B)],["first messages of a new receiver"])
p("C09","Closing a Broadcast channel drains and wakes every receiver",
 "After close() of a Broadcast channel every send() raises SenderError caused by a ChannelClosedError naming the channel, and every receiver first obtains what it has buffered and then gets ReceiverStoppedError (caused by ChannelClosedError), permanently. No receiver is left waiting after a send() that reached it or after close(), however many tasks were waiting or were cancelled.",
 SCHED,"close and sends at any point relative to waiting, cancelled and late receivers",
 "Tests close an idle channel with one receiver.",
 [B,X],[("notify_all on send and close","Broadcast _Sender.send / Broadcast.close")],[("closed flag","channel closed",B)],["receive()/send() outcome","pending receives at quiescent instants"])
p("C10","Broadcast channels do not keep or disturb dropped receivers",
 "A Broadcast receiver that the user no longer references is released (it can be garbage collected, and it is not kept alive by the channel), at any time including between and during sends. Dropping it changes nothing for senders and for the remaining receivers, including receivers created afterwards.",
 ["schedules","histories","fault_sequences"],"receivers created and dropped in any order, garbage collection at any point, object identities reused",
 "test_broadcast_receiver_drop drops one receiver once and inspects private state.",
 [B],[("weak references to receivers pruned on send","Broadcast _Sender.send")],[("receiver registry","weak references keyed per receiver",B)],["weak reference to dropped receiver","remaining receivers' sequences"])
p("C11","ready() is idempotent and consume() takes exactly one message",
 "For every receiver kind (channels, mapped, merged, event, file watcher, timer), once ready() returned true, further ready() calls return true without waiting until the message is consumed, and consume() then returns exactly the next message of the stream, so mixing ready()/consume(), receive() and async iteration yields the same stream. A ready() call that is cancelled or abandoned, even while another task already waits on the same receiver, neither loses nor duplicates a message nor leaves the other waiter stuck.",
 ["schedules","fault_sequences","inputs"],"all sequences of ready/consume/receive/iteration on every receiver kind with cancelled and overlapping ready() calls",
 "Tests call ready() at most once per message and never cancel it or overlap two of them, which is what a select loop that is left and restarted does.",
 [R,A,B,M,E,T,F],[("one-slot prefetch / queue check at the start of ready()","every Receiver.ready implementation")],[],["ready()/consume()/receive() results"])
p("C12","A stopped receiver stays stopped and says why",
 "Once a channel, merged, mapped, event or file-watcher receiver has reported that it stopped, ready() returns false at once and every further receive()/consume() raises ReceiverStoppedError whose `receiver` is the object receive() was called on, and async iteration ends without an exception. When the channel of a channel receiver was closed, the ChannelClosedError naming that channel is the `__cause__` of the error (if the receiver is mapped: in its chain of causes). Buffered messages are always delivered before the stop is reported.",
 ["schedules","histories","fault_sequences"],"stopping at any point relative to buffered messages, waiters and cancellations, for every receiver kind and composition by map",
 "Tests check one receive after close on an idle channel.",
 [R,X,A,B,M,E,F],[("StopAsyncIteration/ReceiverStoppedError translation","Receiver.receive/__anext__")],[],["exceptions raised by receive()/consume()"])
p("C13","map() transforms each message exactly once, in order",
 "A receiver obtained by map(f) yields f(m) for exactly the messages m its source would have yielded, in the same order, calling f once per delivered message and only when the message is taken; it stops exactly when its source does. If f raises for a message, that error reaches the caller that takes that message, and the following messages are unaffected.",
 SCHED,"all source kinds, nesting depths, interleavings, cancellations and failing mapping functions",
 "Tests map two integers on one schedule with a function that never fails.",
 [R],[("consume() applies the function to the source's consume()","Receiver.map")],[],["sequence of mapped results and calls of f"])
p("C14","merge() delivers every source message once, in per-source order",
 "A merged receiver yields every message of every merged source exactly once, and the messages of one source in that source's order, for any number and kind of sources including other merged and mapped receivers. Cancelling or timing out a pending receive on the merged receiver loses and duplicates nothing, also when several tasks wait on it.",
 SCHED,"any number of sources, simultaneous readiness, cancellations, overlapping waits",
 "test_merge feeds two channels from one task; simultaneous completions, cancellations and overlapping waits never occur.",
 [M],[("one pending anext task per source, results queue","Merger.ready")],[("pending tasks/results","prefetched messages",M)],["merged sequence"])
p("C15","merge() makes progress and ends exactly when all sources ended",
 "A task waiting on a merged receiver is woken whenever any source has a message, regardless of which other sources have already stopped or are silent. The merged receiver stops (iteration ends, receive() raises ReceiverStoppedError) if and only if every source has stopped and all their messages were delivered.",
 SCHED,"sources closing at any time in any order, before, during and after waits",
 "Test closes two channels in one fixed order.",
 [M],[("re-arming of a source after each message; stopped sources dropped","Merger.ready")],[("pending tasks","sources still active",M)],["merged receive() at quiescent instants"])
p("C16","Stopping or dropping a merged receiver ends it and leaves no tasks",
 "After stop() on a merged receiver no background task of it survives, it takes no further message from its sources, and after what it already holds every receive()/iteration on it — including one that was already waiting in another task — ends as stopped rather than being cancelled or left waiting. A merged receiver that is no longer referenced likewise ends its background tasks.",
 SCHED,"stop at any instant relative to waiting consumers and arriving messages, in any task; drop at any instant",
 "No test calls stop().",
 [M],[("cancel and gather of pending tasks","Merger.stop / finalizer")],[("pending tasks","background receives",M)],["tasks alive after stop()","outcome of concurrent receive()"])
p("C17","An error in one merged source does not affect the others",
 "If taking a message from one of the merged sources raises an error other than stopping, that error is raised exactly once by a receive()/consume() on the merged receiver (never by ready()). All messages of the other sources, and the later messages of the failing one, are still delivered exactly once.",
 SCHED,"errors at any position of any source, coinciding with messages of other sources",
 "No test merges a source that fails.",
 [M,R],[("outcome of the per-source task turned into a result","Merger.ready/consume")],[("results","outcomes not yet consumed",M)],["merged sequence of messages and errors"])
p("C18","select() delivers every message once and names its receiver",
 "A select() loop yields every message of every given receiver exactly once, per receiver in its order; for each yielded item selected_from() is true for the receiver it came from and false for all others, and `message` is that message. An item is only yielded when its receiver really has a message, an error or has stopped at that moment, even if the loop body changed that while handling the previous item (for example by a timer reset).",
 SCHED,"any number and kind of receivers ready at the same time, any handling times and actions of the loop body",
 "Tests use three Event receivers with a fixed timetable and identical (None) messages.",
 [S],[("consume at the moment of yielding, re-arming ready() after handling","select / Selected")],[("pending ready() tasks","one per active receiver",S)],["sequence of Selected items"])
p("C19","select() reports each stop once and ends exactly when all stopped",
 "Within one select() loop a receiver that stops is reported exactly once, with was_stopped true and its ReceiverStoppedError, after all its pending messages (also when it is stopped while a message is pending), and it is not selected again. The loop ends if and only if all its receivers have been reported stopped; other receivers keep being served until then.",
 SCHED,"receivers of every kind stopping at any time and in any order, with and without pending messages",
 "Tests stop three idle Event receivers one after the other.",
 [S,E,F],[("receiver dropped when ready() returned false","select")],[],["was_stopped items and loop end"])
p("C20","select() starves no ready receiver",
 "Whenever a receiver of a running select() loop has a message (or has stopped), it is selected after a number of items bounded by the number of receivers, no matter how many messages the other receivers have and how slowly the loop body runs (unless something else takes its messages meanwhile). The loop never waits while one of its receivers has a message.",
 SCHED,"any number of receivers, some permanently ready, any body speed",
 "test_multiple_ready uses one pending message per receiver per second.",
 [S],[("all completed ready() tasks of a wait are served before waiting again","select")],[],["position of items in the selected sequence"])
p("C21","Leaving a select() loop loses nothing and leaves no tasks",
 "When a select() loop is left by break, exception, cancellation, closing the iterator or exhaustion, all the tasks it created are finished soon after (immediately if the iterator is closed or the exit was an error or cancellation inside it). Messages that were not yielded stay available: the same receivers used in a new loop (even started at once) or directly give every remaining message exactly once.",
 SCHED,"exits at any iteration, with any set of receivers ready, restarted immediately or later, cancellation during cleanup",
 "Tests break out of loops over Event receivers with a fixed timetable only.",
 [S,A,B,E,T,M],[("cancellation of pending ready() tasks in the generator's finalisation","select")],[("pending ready() tasks","to be cancelled on exit",S)],["tasks alive after exit","messages available after exit"])
p("C22","select() detects exactly the unhandled items",
 "If the loop body finishes an iteration without selected_from() having been called with the receiver of the yielded item, the next step of select() raises UnhandledSelectedError carrying that item; if it was called, no such error is raised. Calling selected_from() with other receivers does not count as handling.",
 ["schedules","histories","inputs"],"every iteration of every loop, with several receivers ready at the same time, including stop and error items",
 "One test misses one receiver once at a fixed time.",
 [S],[("handled flag set by selected_from() and checked after the yield","select/selected_from")],[("handled flag","item was matched",S)],["UnhandledSelectedError"])
p("C23","select() reports receiver errors without disturbing others",
 "If taking the message of a selected receiver raises, the item carries that very exception (`exception`, re-raised by `message`), was_stopped is true only for ReceiverStoppedError, and the loop goes on serving all receivers including the failing one. If a receiver fails while being waited for, the loop raises SelectError caused by that failure and the other receivers lose nothing.",
 SCHED,"errors at any position and coinciding with messages of other receivers",
 "Unit tests construct Selected from a mock; no select loop with a failing receiver is run.",
 [S],[("exception captured when the item is created","Selected"),("SelectError raised from ready() failures","select")],[],["Selected.exception/message","SelectError"])
p("C24","Event: every set() wakes exactly one receive, stop ends it",
 "After set() on an Event receiver, exactly one receive() succeeds (sets that happen before it is consumed coalesce) and the event is then waiting again; is_set says whether one is pending. stop() ends the receiver for good: a pending set is still delivered first, waiting tasks are woken, then everything raises ReceiverStoppedError.",
 SCHED,"any interleaving of set, stop, ready, consume, receive, cancellations and several waiting tasks",
 "test_event runs one linear sequence.",
 [E],[("internal event plus is_set/is_stopped flags","Event.set/stop/ready/consume")],[("is_set","pending event",E),("is_stopped","stopped",E)],["receive() outcomes"])
p("C25","Timer ticks are never early, carry the exact drift and are not late",
 "A timer never ticks before its scheduled time, and the value of each tick is exactly the event-loop time at which it became ready minus the scheduled time (microsecond resolution, never negative), whatever the loop's clock origin and independently of the wall clock. A task waiting on a running timer gets the tick as soon as the loop runs at or after the scheduled time; a tick that became due while nobody waited is given at once to the next receive, with one scheduled tick being given at most once. An interval below 1 microsecond, a negative start delay or tolerance, and a start delay without auto_start are refused with ValueError. A timer uses the clock of the loop it was given. Timers that share a missed tick policy do not affect each other.",
 SCHED,"any interval >= 1 microsecond, start delay, loop stall, late wake-up, wall-clock jump, slow consumer, custom policy",
 "Tests use a handful of exact virtual times, 1 s intervals and no stalls, clock offsets or concurrent load.",
 [T],[("integer microsecond schedule, sleep until due, drift computed at readiness","Timer.ready/consume")],[("next tick time","scheduled time",T),("current drift","tick ready but not consumed",T)],["drift and loop time of ticks"])
p("C26","TriggerAllMissed gives every tick of the original schedule",
 "With TriggerAllMissed the n-th tick after a (re)start is scheduled exactly at start plus n intervals, and none is ever skipped: after a delay all missed ticks are given one after the other at once until the timer has caught up. Drift does not accumulate.",
 SCHED,"any sequence of stalls and consumer delays of any length, any interval",
 "Tests check six hand-picked times with a 1 s interval.",
 [T],[("next = scheduled + interval","TriggerAllMissed")],[],["drift and loop time of ticks"])
p("C27","SkipMissedAndResync ticks once and realigns to the start",
 "With SkipMissedAndResync a delayed tick is given once immediately, further missed ticks are skipped, and the next tick is scheduled at the first multiple of the interval counted from the start that lies strictly after the moment the tick became ready. Every scheduled time therefore stays aligned to the start forever.",
 SCHED,"any sequence of stalls and consumer delays of any length, any interval",
 "Tests check a handful of times with a 1 s interval.",
 [T],[("next multiple of the interval after now","SkipMissedAndResync")],[],["drift and loop time of ticks"])
p("C28","SkipMissedAndDrift restarts from late ticks beyond the tolerance",
 "With SkipMissedAndDrift a tick delayed by more than delay_tolerance is given once immediately, skips the missed ones, and the next tick is scheduled one interval after the moment it became ready; a tick delayed by at most the tolerance keeps the schedule (next tick one interval after its scheduled time).",
 SCHED,"any tolerance, interval and sequence of stalls and consumer delays",
 "Tests check a handful of times with one tolerance.",
 [T],[("drift compared with the tolerance","SkipMissedAndDrift")],[("tolerance","maximum tolerated delay",T)],["drift and loop time of ticks"])
p("C29","Timer reset() restarts the schedule, even while being awaited",
 "After reset(start_delay=d) the next tick is scheduled exactly at the time of the call plus d plus the interval, and any earlier pending or scheduled tick is dropped, whether or not a task is currently waiting on the timer and whether the new time is earlier or later than the old one. A stopped or never started timer is running after reset(); a rejected (negative) delay changes nothing.",
 SCHED,"reset at any instant, repeatedly, from any task, inside and outside a select loop, while running, waiting, ready or stopped",
 "Tests reset before waiting only; one integration test resets in a select body.",
 [T],[("recomputed schedule, waiter re-evaluates after sleeping or being notified","Timer.reset/ready")],[("next tick time","scheduled time",T)],["tick times after reset()"])
p("C30","A stopped timer never ticks until it is reset",
 "After stop() no new tick is produced: receives raise ReceiverStoppedError and iteration ends, a receive already waiting is ended no later than the time of the tick it was waiting for, and only reset() starts the timer again. A timer created with auto_start=False starts its interval at the first use or reset(), unless it was stopped before; is_running reflects this.",
 SCHED,"stop/reset/first use in any order at any instant, with and without waiting tasks",
 "Only auto-start variants are tested; stop() while waiting or before starting is not.",
 [T],[("stopped flag checked before and after sleeping","Timer.stop/ready/consume")],[("stopped","stop requested or not started",T)],["receive() outcomes after stop()"])
p("C31","FileWatcher reports every matching change exactly once",
 "A FileWatcher yields, for every change that the operating-system watcher reports for its paths and whose type is among the configured event types, exactly one event with the same type and path, and no other event. Changes reported together are all delivered before later ones, and a failure or end of the underlying watch surfaces to the receiver as an error instead of a hang.",
 SCHED,"any batching, timing and mix of changes and event type filters, backend timeouts and failures, slow consumers",
 "Unit tests fake one change per batch; integration tests touch one file.",
 [F],[("change set drained one by one","FileWatcher.ready/consume"),("event type filter","FileWatcher event filter")],[("pending changes","reported, not consumed",F)],["events received"])
p("C32","Cancelling a FileWatcher wait is harmless and dropping it stops it",
 "Cancelling or timing out a pending ready()/receive() on a FileWatcher (as leaving a select loop does) neither stops the watcher nor loses events: later receives still yield every matching change exactly once. A FileWatcher that is no longer referenced stops its background watch.",
 SCHED,"cancellation at any instant relative to reported changes, repeated, overlapping waits; drop at any instant",
 "No test cancels a pending receive on a FileWatcher.",
 [F],[("wait on the underlying watcher shielded from the consumer's cancellation","FileWatcher.ready"),("stop event set by the finalizer","FileWatcher finalizer")],[("stop event","tells the backend to stop",F)],["events received after cancellation","backend thread ended"])
p("C33","Looking at objects is truthful and disturbs nothing",
 "str(), repr(), len() and the public attributes of channels, senders, receivers of every kind, timer policies, select() items and errors can be used at any moment without raising, and they agree with what happened so far: name, limit, is_closed, resend_latest, len() of a Broadcast receiver (its unconsumed messages), is_set, is_stopped, is_running, interval, missed_tick_policy, delay_tolerance, event_types. Using them changes nothing of what happens afterwards.",
 SCHED,"inspections of every object at any instant of any history over all receiver kinds, compared with the same execution without them",
 "Tests compare a few strings of idle objects; none looks at objects in use, and none can tell that looking has no effect.",
 [A,B,M,R,E,T,F,S],[("str/repr/len and properties without side effects","every public class")],[],["strings, attribute values, the rest of the history"])
p("C34","Pipelines keep the back-pressure of bounded channels",
 "map(), merge() and select() on top of an Anycast channel take messages from it only a bounded number ahead of their consumer: per source at most one that is ready, plus two for every merge() above it, however long nobody consumes and whatever was cancelled. So the senders of a slow consumer wait once the channel is full, instead of messages piling up inside the library.",
 SCHED,"any tree of map/merge and any select loop with slow, stalled, absent or cancelled consumers and any number of messages",
 "Tests consume everything at once; nothing bounds what is taken ahead.",
 [M,R,S,A],[("one task per source, collected only when nothing is ready","Merger.ready"),("a message is taken in consume()","Mapper / select()")],[("results","messages taken from the sources and not consumed",M)],["number of completed send() calls minus received messages"])
p("C35","merge() starves no source",
 "While a merged receiver is being consumed, a source that has a message gets its turn after a number of messages of the other sources that is bounded by the number of sources (at most 4 per source plus 8), no matter how many messages those have, in which order the sources were given, and how merged and mapped receivers are nested.",
 SCHED,"any tree of sources with permanently ready sources next to ones with single messages, any consumption pattern",
 "Tests send the same number of messages to two sources and only check that all arrive.",
 [M],[("all finished tasks are collected in one go and delivered first-in first-out","Merger.ready/consume")],[("results","messages taken from the sources and not consumed",M)],["order of the messages of a merged receiver"])
p("C36","Cancellation and time-outs take effect at once, and only there",
 "A task that is cancelled (or timed out) while it waits in send(), receive(), ready(), iteration, a select() loop, stop() of a merged receiver or close() gets CancelledError (TimeoutError) without waiting for any other event or for time to pass; the library neither swallows it nor turns it into another error (except that failures of receivers while a select() loop is cleaned up are reported instead). No library call raises CancelledError, and no async iteration ends by it, when nobody cancelled the caller.",
 SCHED,"cancellations and time-outs at every await of every operation, several at once, and while the awaited operation is about to complete",
 "Tests cancel next to nothing.",
 [A,B,M,R,S,E,T,F],[("awaits of conditions, events and tasks without catching CancelledError","every async method")],[],["outcome of cancelled calls"])
p("C37","Messages are released once everybody got them",
 "The library does not accumulate messages: once a message was received by everybody who was to get it (or its send() failed, or it was dropped by an overflow), nothing in the library refers to it any more, except for the latest message of a Broadcast channel and at most the last message of each receiver, source and running select() loop. The number of messages kept alive does not grow with the number of messages sent.",
 SCHED,"long histories over channels, maps, merges and select loops with cancellations, time-outs, errors and overflows",
 "No test looks at the lifetime of messages.",
 [A,B,M,R,S],[("messages are removed from buffers and slots when consumed","every Receiver.consume")],[("latest","last message sent",B)],["weak references to messages"])
p("C38","What the library holds does not grow with history",
 "Using the same objects in the same way over and over (receivers, senders, events, timers, watchers, maps, mergers and select() loops created and dropped, receives and sends cancelled or timed out, loops left in any way, timers reset, channels closed) does not accumulate anything: once such a cycle came to rest and every channel in use was sent to and emptied, the library has no more tasks, futures, suspended coroutines, objects, scheduled callbacks or container entries than after the cycles before.",
 SCHED,"any cycle of uses, repeated any number of times, by several tasks with cancellations and time-outs at any instant",
 "Every test builds fresh objects and uses them once; none repeats anything.",
 [A,B,M,R,S,E,T,F],[("references to dead receivers are removed","Broadcast send()"),("tasks are cancelled when the owner is stopped, left or dropped","Merger, select(), FileWatcher")],[("receivers","weak references to attached receivers",B),("pending","running tasks",M)],["numbers of live tasks and objects, sizes of containers"])
p("C39","The event loop can be shut down at any moment and leaves nothing behind",
 "Channels, receivers, senders, events, file watchers, maps and timers with a given loop can be created before the event loop runs. At whatever moment the program ends - asyncio.run() cancelling every task once, or the loop just being closed with tasks pending - every task of the library ends within that shutdown (without new events, messages or the clock advancing) and without a failure of its own, suspended select() generators close, dropping the objects afterwards never fails in a finaliser, and their string representations still work. The next event loop in the same process behaves exactly as if the ended one had never existed.",
 SCHED,"every program, every moment at which it ends, both ways of ending",
 "The tests run every coroutine to its end in the loop of the test framework; no test cancels everything in the middle of something, closes a loop with pending tasks, or uses two loops.",
 [A,B,M,R,S,E,T,F],[("a merger is only finalised through its loop while that runs","Merger.__del__"),("waiting ends when it is cancelled","every ready() and send()"),("pending tasks are cancelled and awaited","select()")],[("pending","running tasks",M)],["tasks alive after the shutdown","errors in finalisers","history of the same program in the next loop"])
p("C40","Losing a message and blocking a sender never goes unnoticed",
 "Whenever a full Broadcast receiver loses its oldest message to a new one, a warning naming that receiver is logged during that send(), one for each receiver that lost a message; whenever the send() of an Anycast channel has to wait for space, a warning naming the channel is logged when it starts to wait. Neither is logged when nothing is lost and nothing waits.",
 SCHED,"every sequence of sends, receives, cancellations and closings, any limits and names",
 "The tests check what is received, not what is logged.",
 [A,B],[("overflow is logged","Broadcast receiver enqueue()"),("blocking is logged","Anycast send()")],[("queue","buffered messages",B),("deque","buffered messages",A)],["log records"])
out=pathlib.Path(__file__).resolve().parents[1]/"properties.jsonl"
for x in P: assert len(x["title"])<=80,(x["id"],len(x["title"]))
out.write_text("".join(json.dumps(x)+"\n" for x in P))
print(len(P))
