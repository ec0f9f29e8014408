From f2b5dcca14876c2685ee5d35c0452c30d63aca1d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:26:50 +0000
Subject: [PATCH 01/20] fix: pass on the wake-up of a cancelled Anycast waiter

A sender (or receiver) cancelled right after it was notified swallowed the
notification, so another waiting sender (receiver) was never woken up although
there was space (a message) in the channel.
---
 src/frequenz/channels/_anycast.py | 22 +++++++++++++++++++---
 1 file changed, 19 insertions(+), 3 deletions(-)

diff --git a/src/frequenz/channels/_anycast.py b/src/frequenz/channels/_anycast.py
index 2ea0515..4ec9335 100644
--- a/src/frequenz/channels/_anycast.py
+++ b/src/frequenz/channels/_anycast.py
@@ -6,7 +6,7 @@
 from __future__ import annotations
 
 import logging
-from asyncio import Condition
+from asyncio import CancelledError, Condition
 from collections import deque
 from typing import Generic, TypeVar
 
@@ -304,6 +304,22 @@ class Anycast(Generic[ChannelMessageT]):
 _T = TypeVar("_T")
 
 
+async def _wait(condition: Condition) -> None:
+    """Wait for a condition, passing the notification on if the wait is cancelled.
+
+    A task can be cancelled after it was notified but before it runs again, in which
+    case the notification would be lost, and the next waiting task would never wake up.
+
+    Args:
+        condition: The (already locked) condition to wait for.
+    """
+    try:
+        await condition.wait()
+    except CancelledError:
+        condition.notify(1)
+        raise
+
+
 class _Sender(Sender[_T]):
     """A sender to send messages to an Anycast channel.
 
@@ -349,7 +365,7 @@ class _Sender(Sender[_T]):
             )
             while len(self._channel._deque) == self._channel._deque.maxlen:
                 async with self._channel._send_cv:
-                    await self._channel._send_cv.wait()
+                    await _wait(self._channel._send_cv)
             _logger.info(
                 "Anycast channel [%s] has space again, resuming the blocked sender",
                 self,
@@ -410,7 +426,7 @@ class _Receiver(Receiver[_T]):
             if self._channel._closed:
                 return False
             async with self._channel._recv_cv:
-                await self._channel._recv_cv.wait()
+                await _wait(self._channel._recv_cv)
         self._next = self._channel._deque.popleft()
         async with self._channel._send_cv:
             self._channel._send_cv.notify(1)
-- 
2.43.0


From ab1d851d1065d9d9e8ff00809497b0dd1ddb96d1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:26:50 +0000
Subject: [PATCH 02/20] fix: fail Anycast senders blocked on a full buffer when
 closing

Blocked senders were woken up by close() but kept waiting if the buffer was
still full, or sent their message on the closed channel, where no receiver
might be left to get it.
---
 src/frequenz/channels/_anycast.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/frequenz/channels/_anycast.py b/src/frequenz/channels/_anycast.py
index 4ec9335..1194fdd 100644
--- a/src/frequenz/channels/_anycast.py
+++ b/src/frequenz/channels/_anycast.py
@@ -366,6 +366,10 @@ class _Sender(Sender[_T]):
             while len(self._channel._deque) == self._channel._deque.maxlen:
                 async with self._channel._send_cv:
                     await _wait(self._channel._send_cv)
+                if self._channel._closed:
+                    raise SenderError(
+                        "The channel was closed", self
+                    ) from ChannelClosedError(self._channel)
             _logger.info(
                 "Anycast channel [%s] has space again, resuming the blocked sender",
                 self,
-- 
2.43.0


From fbb6389e08634473aa8c24cc6dffae79a841fce4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:29:38 +0000
Subject: [PATCH 03/20] fix: keep messages when several tasks wait for one
 Anycast receiver

Overlapping ready() calls on the same receiver (for example the one abandoned
by a select loop and the one of the next loop) overwrote each other's message,
and could wait although a message was ready.
---
 src/frequenz/channels/_anycast.py | 20 +++++++++++++++++++-
 1 file changed, 19 insertions(+), 1 deletion(-)

diff --git a/src/frequenz/channels/_anycast.py b/src/frequenz/channels/_anycast.py
index 1194fdd..e040351 100644
--- a/src/frequenz/channels/_anycast.py
+++ b/src/frequenz/channels/_anycast.py
@@ -6,7 +6,7 @@
 from __future__ import annotations
 
 import logging
-from asyncio import CancelledError, Condition
+from asyncio import CancelledError, Condition, Lock
 from collections import deque
 from typing import Generic, TypeVar
 
@@ -410,6 +410,9 @@ class _Receiver(Receiver[_T]):
 
         self._next: _T | type[_Empty] = _Empty
 
+        self._ready_lock: Lock = Lock()
+        """Lock to serialize the tasks waiting for the receiver to be ready."""
+
     async def ready(self) -> bool:
         """Wait until the receiver is ready with a message or an error.
 
@@ -425,6 +428,21 @@ class _Receiver(Receiver[_T]):
         if self._next is not _Empty:
             return True
 
+        # Only one task at a time can wait for the next message, otherwise the message
+        # got by one task could be overwritten by the message got by another one.
+        async with self._ready_lock:
+            return await self._get_next()
+
+    async def _get_next(self) -> bool:
+        """Wait for the next message, unless there is one waiting to be consumed.
+
+        Returns:
+            Whether the receiver is still active.
+        """
+        # Another task could have got a message while we were waiting for the lock.
+        if self._next is not _Empty:
+            return True
+
         # pylint: disable=protected-access
         while len(self._channel._deque) == 0:
             if self._channel._closed:
-- 
2.43.0


From 992efd570230bd9bd358b08a5fd5ad8f85d2a81a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:31:11 +0000
Subject: [PATCH 04/20] fix: resend the latest message of a Broadcast channel
 also if it is None

---
 src/frequenz/channels/_broadcast.py | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/src/frequenz/channels/_broadcast.py b/src/frequenz/channels/_broadcast.py
index b217aa0..2dcaa19 100644
--- a/src/frequenz/channels/_broadcast.py
+++ b/src/frequenz/channels/_broadcast.py
@@ -216,6 +216,9 @@ class Broadcast(Generic[ChannelMessageT]):
         self._latest: ChannelMessageT | None = None
         """The latest message sent to the channel."""
 
+        self._has_latest: bool = False
+        """Whether there is a latest message (which can be any value, even `None`)."""
+
         self.resend_latest: bool = resend_latest
         """Whether to resend the latest message to new receivers.
 
@@ -258,6 +261,7 @@ class Broadcast(Generic[ChannelMessageT]):
         immediately.
         """
         self._latest = None
+        self._has_latest = False
         self._closed = True
         async with self._recv_cv:
             self._recv_cv.notify_all()
@@ -284,8 +288,8 @@ class Broadcast(Generic[ChannelMessageT]):
         """
         recv: _Receiver[ChannelMessageT] = _Receiver(self, name=name, limit=limit)
         self._receivers[hash(recv)] = weakref.ref(recv)
-        if self.resend_latest and self._latest is not None:
-            recv.enqueue(self._latest)
+        if self.resend_latest and self._has_latest:
+            recv.enqueue(self._latest)  # type: ignore[arg-type]
         return recv
 
     def __str__(self) -> str:
@@ -340,6 +344,7 @@ class _Sender(Sender[_T]):
                 self._channel
             )
         self._channel._latest = message
+        self._channel._has_latest = True
         stale_refs = []
         for _hash, recv_ref in self._channel._receivers.items():
             recv = recv_ref()
-- 
2.43.0


From 6e4c5daa2c5ff1036cd91c82c6669ba19af2d983 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:32:22 +0000
Subject: [PATCH 05/20] fix: make Event.ready() tell whether there is an event
 to consume

It returned False for an event stopped while it was set, so select() consumed
the event but never reported the stop, and True for an event that another
waiting task had just consumed, making consume() fail.
---
 src/frequenz/channels/event.py | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/src/frequenz/channels/event.py b/src/frequenz/channels/event.py
index 3f3b207..bf0a624 100644
--- a/src/frequenz/channels/event.py
+++ b/src/frequenz/channels/event.py
@@ -147,10 +147,12 @@ class Event(_receiver.Receiver[None]):
         Returns:
             Whether this receiver is still running.
         """
-        if self._is_stopped:
-            return False
-        await self._event.wait()
-        return not self._is_stopped
+        # The event could have been consumed by another task between being woken up and
+        # getting to run, so we need to check again after waiting.
+        while not self._is_set and not self._is_stopped:
+            await self._event.wait()
+        # If it was stopped while it was set, there is still an event to be consumed.
+        return self._is_set
 
     def consume(self) -> None:
         """Consume the event.
-- 
2.43.0


From a77cb4cd040d8e485b2374d97df792e65b0e05cf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:32:22 +0000
Subject: [PATCH 06/20] fix: ignore Event.set() after the event was stopped

A stopped event became receivable again when set, after having reported that it
was stopped.
---
 src/frequenz/channels/event.py | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/src/frequenz/channels/event.py b/src/frequenz/channels/event.py
index bf0a624..72c248b 100644
--- a/src/frequenz/channels/event.py
+++ b/src/frequenz/channels/event.py
@@ -137,7 +137,12 @@ class Event(_receiver.Receiver[None]):
         self._event.set()
 
     def set(self) -> None:
-        """Trigger the event (make the receiver ready)."""
+        """Trigger the event (make the receiver ready).
+
+        This has no effect if the receiver was stopped.
+        """
+        if self._is_stopped:
+            return
         self._is_set = True
         self._event.set()
 
-- 
2.43.0


From 0818338b99756bd74d2978b206ba99db3d1b7657 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:36:05 +0000
Subject: [PATCH 07/20] fix: wake up the tasks waiting for a Timer when it is
 reset

A task waiting for the timer slept until the tick it was originally waiting for,
so it got the new tick late if the reset made it due earlier.
---
 src/frequenz/channels/timer.py | 12 +++++++++++-
 1 file changed, 11 insertions(+), 1 deletion(-)

diff --git a/src/frequenz/channels/timer.py b/src/frequenz/channels/timer.py
index 683db7b..22086ea 100644
--- a/src/frequenz/channels/timer.py
+++ b/src/frequenz/channels/timer.py
@@ -561,6 +561,9 @@ class Timer(Receiver[timedelta]):
         to wait again.
         """
 
+        self._reset_event: asyncio.Event = asyncio.Event()
+        """An event to wake up the tasks waiting for the next tick on a reset."""
+
         if auto_start:
             self.reset(start_delay=start_delay)
 
@@ -607,6 +610,9 @@ class Timer(Receiver[timedelta]):
         self._stopped = False
         self._next_tick_time = self._now() + start_delay_ms + self._interval
         self._current_drift = None
+        # Wake up all tasks that are currently waiting, so they wait for the new tick.
+        self._reset_event.set()
+        self._reset_event.clear()
 
     def stop(self) -> None:
         """Stop the timer.
@@ -664,7 +670,11 @@ class Timer(Receiver[timedelta]):
         # could be reset while we are sleeping, in which case we need to recalculate
         # the time to the next tick and try again.
         while time_to_next_tick > 0:
-            await asyncio.sleep(time_to_next_tick / 1_000_000)
+            try:
+                async with asyncio.timeout(time_to_next_tick / 1_000_000):
+                    await self._reset_event.wait()
+            except TimeoutError:
+                pass
             now = self._now()
             time_to_next_tick = self._next_tick_time - now
 
-- 
2.43.0


From eb0c5e9e14d1cb879c2d9f1fa08da3c5a566eabd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:39:29 +0000
Subject: [PATCH 08/20] fix: wake up all tasks waiting for a Timer tick

If one task got the tick but did not consume it yet, another task waiting for the
same timer went on sleeping although the timer was ready, and then replaced the
drift of the tick that was not consumed.
---
 src/frequenz/channels/timer.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/frequenz/channels/timer.py b/src/frequenz/channels/timer.py
index 22086ea..542295b 100644
--- a/src/frequenz/channels/timer.py
+++ b/src/frequenz/channels/timer.py
@@ -675,6 +675,10 @@ class Timer(Receiver[timedelta]):
                     await self._reset_event.wait()
             except TimeoutError:
                 pass
+            # If another task got the tick meanwhile and didn't consume it yet, then
+            # we are ready too.
+            if self._current_drift is not None:
+                return True
             now = self._now()
             time_to_next_tick = self._next_tick_time - now
 
-- 
2.43.0


From cb1afb7f13f50e79522ba8ce4cbba3feb1b67b7c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:41:25 +0000
Subject: [PATCH 09/20] fix: let several tasks wait for one Merger

When more than one task was waiting in `Merger.ready()`, each of them
collected the results of the same finished tasks, so messages were
delivered more than once, and replaced the set of pending tasks with its
own view, so the tasks created by the others were lost.
---
 src/frequenz/channels/_merge.py | 13 +++++++++++++
 1 file changed, 13 insertions(+)

diff --git a/src/frequenz/channels/_merge.py b/src/frequenz/channels/_merge.py
index 6be4302..db061fe 100644
--- a/src/frequenz/channels/_merge.py
+++ b/src/frequenz/channels/_merge.py
@@ -121,6 +121,7 @@ class Merger(Receiver[ReceiverMessageT_co]):
             for name, recv in self._receivers.items()
         }
         self._results: deque[ReceiverMessageT_co] = deque(maxlen=len(self._receivers))
+        self._ready_lock: asyncio.Lock = asyncio.Lock()
 
     def __del__(self) -> None:
         """Finalize this merger."""
@@ -143,6 +144,18 @@ class Merger(Receiver[ReceiverMessageT_co]):
         remain ready (this method will return immediately) until it is
         consumed.
 
+        Returns:
+            Whether the receiver is still active.
+        """
+        # Only one task at a time can wait for (and collect) the pending tasks,
+        # otherwise the same results would be collected more than once and the tasks
+        # created by the others would be lost.
+        async with self._ready_lock:
+            return await self._collect_results()
+
+    async def _collect_results(self) -> bool:
+        """Wait until there are results to be consumed or all receivers stopped.
+
         Returns:
             Whether the receiver is still active.
         """
-- 
2.43.0


From 0c1e7211f52e3d282c88f5d19815109db88e6328 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:41:25 +0000
Subject: [PATCH 10/20] fix: raise the errors of merged receivers only when
 consuming

When one of the merged receivers failed, `Merger.ready()` raised the
error, dropped the messages of the other receivers that arrived at the
same time and never waited for the failed receiver again.

The error is now raised by `consume()`, in place of the message, and the
failed receiver is kept like any other.
---
 src/frequenz/channels/_merge.py | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/src/frequenz/channels/_merge.py b/src/frequenz/channels/_merge.py
index db061fe..bfd91e0 100644
--- a/src/frequenz/channels/_merge.py
+++ b/src/frequenz/channels/_merge.py
@@ -120,7 +120,9 @@ class Merger(Receiver[ReceiverMessageT_co]):
             asyncio.create_task(anext(recv), name=name)
             for name, recv in self._receivers.items()
         }
-        self._results: deque[ReceiverMessageT_co] = deque(maxlen=len(self._receivers))
+        self._results: deque[asyncio.Task[ReceiverMessageT_co]] = deque(
+            maxlen=len(self._receivers)
+        )
         self._ready_lock: asyncio.Lock = asyncio.Lock()
 
     def __del__(self) -> None:
@@ -178,8 +180,8 @@ class Merger(Receiver[ReceiverMessageT_co]):
                 # if channel is closed, don't add a task for it again.
                 if isinstance(item.exception(), StopAsyncIteration):
                     continue
-                result = item.result()
-                self._results.append(result)
+                # If taking the message failed, the error is raised by `consume()`.
+                self._results.append(item)
                 self._pending.add(
                     asyncio.create_task(anext(self._receivers[name]), name=name)
                 )
@@ -199,7 +201,7 @@ class Merger(Receiver[ReceiverMessageT_co]):
 
         assert self._results, "`consume()` must be preceded by a call to `ready()`"
 
-        return self._results.popleft()
+        return self._results.popleft().result()
 
     def __str__(self) -> str:
         """Return a string representation of this receiver."""
-- 
2.43.0


From 1f0731a80096110c4aa99b51e015bc2eb3f1113f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:41:38 +0000
Subject: [PATCH 11/20] fix: end the tasks waiting for a Merger when it is
 stopped

When `Merger.stop()` was called while another task was waiting in
`ready()`, that task got a `CancelledError` although nobody cancelled it,
and the messages that had already been taken from the merged receivers
were lost. When the waiting task had just been woken up, it also created
new tasks, which kept taking messages after the merger was stopped.
---
 src/frequenz/channels/_merge.py | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/src/frequenz/channels/_merge.py b/src/frequenz/channels/_merge.py
index bfd91e0..e6b4d30 100644
--- a/src/frequenz/channels/_merge.py
+++ b/src/frequenz/channels/_merge.py
@@ -124,6 +124,7 @@ class Merger(Receiver[ReceiverMessageT_co]):
             maxlen=len(self._receivers)
         )
         self._ready_lock: asyncio.Lock = asyncio.Lock()
+        self._stopped: bool = False
 
     def __del__(self) -> None:
         """Finalize this merger."""
@@ -133,10 +134,10 @@ class Merger(Receiver[ReceiverMessageT_co]):
 
     async def stop(self) -> None:
         """Stop this merger."""
+        self._stopped = True
         for task in self._pending:
             task.cancel()
         await asyncio.gather(*self._pending, return_exceptions=True)
-        self._pending = set()
 
     async def ready(self) -> bool:
         """Wait until the receiver is ready with a message or an error.
@@ -177,11 +178,17 @@ class Merger(Receiver[ReceiverMessageT_co]):
             )
             for item in done:
                 name = item.get_name()
+                # if the task was cancelled by `stop()`, there is no message.
+                if item.cancelled():
+                    continue
                 # if channel is closed, don't add a task for it again.
                 if isinstance(item.exception(), StopAsyncIteration):
                     continue
                 # If taking the message failed, the error is raised by `consume()`.
                 self._results.append(item)
+                # if the merger was stopped, don't take any more messages.
+                if self._stopped:
+                    continue
                 self._pending.add(
                     asyncio.create_task(anext(self._receivers[name]), name=name)
                 )
-- 
2.43.0


From 70137f2dd362c4f2207c710d02acf0dd8f942341 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:50:12 +0000
Subject: [PATCH 12/20] fix: make FileWatcher.ready() return false when the
 watch ended

It returned true although there is no event to consume.
---
 src/frequenz/channels/file_watcher.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/frequenz/channels/file_watcher.py b/src/frequenz/channels/file_watcher.py
index 57c3553..860c0bd 100644
--- a/src/frequenz/channels/file_watcher.py
+++ b/src/frequenz/channels/file_watcher.py
@@ -185,6 +185,7 @@ class FileWatcher(Receiver[Event]):
             self._changes = await anext(self._awatch)
         except StopAsyncIteration as err:
             self._awatch_stopped_exc = err
+            return False
 
         return True
 
-- 
2.43.0


From 6532fca8fc27f163c2ae4b1abebdd427d90b28fc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:50:12 +0000
Subject: [PATCH 13/20] fix: let several tasks wait for one FileWatcher

A second task calling `ready()` while another one was waiting got
a `RuntimeError` because the `awatch()` generator was already running.
---
 src/frequenz/channels/file_watcher.py | 11 +++++++++++
 1 file changed, 11 insertions(+)

diff --git a/src/frequenz/channels/file_watcher.py b/src/frequenz/channels/file_watcher.py
index 860c0bd..2bd013b 100644
--- a/src/frequenz/channels/file_watcher.py
+++ b/src/frequenz/channels/file_watcher.py
@@ -139,6 +139,7 @@ class FileWatcher(Receiver[Event]):
         )
         self._awatch_stopped_exc: Exception | None = None
         self._changes: set[FileChange] = set()
+        self._ready_lock: asyncio.Lock = asyncio.Lock()
 
     def _filter_events(
         self,
@@ -170,6 +171,16 @@ class FileWatcher(Receiver[Event]):
         remain ready (this method will return immediately) until it is
         consumed.
 
+        Returns:
+            Whether the receiver is still active.
+        """
+        # Only one task at a time can wait for the next changes.
+        async with self._ready_lock:
+            return await self._wait_for_changes()
+
+    async def _wait_for_changes(self) -> bool:
+        """Wait until there are changes to be consumed or the watch ended.
+
         Returns:
             Whether the receiver is still active.
         """
-- 
2.43.0


From 3d3dbd960030c35332731a185a7f2043f86525b7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:51:40 +0000
Subject: [PATCH 14/20] fix: keep watching when a FileWatcher wait is cancelled

Cancelling a pending `ready()` (or `receive()`), as leaving a `select()`
loop does, cancelled the `awatch()` generator, which stopped the file
watcher for good and lost the changes that were not yielded yet.

The generator now runs in its own task, that doesn't keep the file watcher
alive, so it is still stopped when the file watcher is not used anymore.
---
 src/frequenz/channels/file_watcher.py | 55 +++++++++++++++++++++++++--
 1 file changed, 51 insertions(+), 4 deletions(-)

diff --git a/src/frequenz/channels/file_watcher.py b/src/frequenz/channels/file_watcher.py
index 2bd013b..384958c 100644
--- a/src/frequenz/channels/file_watcher.py
+++ b/src/frequenz/channels/file_watcher.py
@@ -19,6 +19,7 @@ This module contains the following:
 """
 
 import asyncio
+import functools
 import pathlib
 from collections import abc
 from dataclasses import dataclass
@@ -54,6 +55,23 @@ class Event:
     """The path where the change was observed."""
 
 
+async def _anext_or_error(
+    awatch_: abc.AsyncGenerator[set[FileChange], None]
+) -> set[FileChange] | Exception:
+    """Get the next changes, or the error if it failed.
+
+    Args:
+        awatch_: The generator to get the changes from.
+
+    Returns:
+        The next changes or the error.
+    """
+    try:
+        return await anext(awatch_)
+    except Exception as exc:  # pylint: disable=broad-except
+        return exc
+
+
 class FileWatcher(Receiver[Event]):
     """A receiver that watches for file events.
 
@@ -134,28 +152,36 @@ class FileWatcher(Receiver[Event]):
             path if isinstance(path, pathlib.Path) else pathlib.Path(path)
             for path in paths
         ]
+        # The background watch must not keep this instance alive, so the filter can't
+        # have a reference to it.
+        self._filter_events = functools.partial(
+            self._filter_event_types, self.event_types
+        )
         self._awatch: abc.AsyncGenerator[set[FileChange], None] = awatch(
             *self._paths, stop_event=self._stop_event, watch_filter=self._filter_events
         )
+        self._awatch_task: asyncio.Task[set[FileChange] | Exception] | None = None
         self._awatch_stopped_exc: Exception | None = None
         self._changes: set[FileChange] = set()
         self._ready_lock: asyncio.Lock = asyncio.Lock()
 
-    def _filter_events(
-        self,
+    @staticmethod
+    def _filter_event_types(
+        event_types: frozenset[EventType],
         change: Change,
         path: str,  # pylint: disable=unused-argument
     ) -> bool:
         """Filter events based on the event type and path.
 
         Args:
+            event_types: The types of events that should be notified.
             change: The type of change to be notified.
             path: The path of the file that changed.
 
         Returns:
             Whether the event should be notified.
         """
-        return change in [event_type.value for event_type in self.event_types]
+        return change in [event_type.value for event_type in event_types]
 
     def __del__(self) -> None:
         """Finalize this file watcher."""
@@ -193,13 +219,34 @@ class FileWatcher(Receiver[Event]):
             return False
 
         try:
-            self._changes = await anext(self._awatch)
+            self._changes = await self._get_next_changes()
         except StopAsyncIteration as err:
             self._awatch_stopped_exc = err
             return False
 
         return True
 
+    async def _get_next_changes(self) -> set[FileChange]:
+        """Get the next changes from the background watch.
+
+        Cancelling `awatch()` ends it, and loses the changes it has not yielded yet, so
+        it runs in a task of its own, which goes on when this method is cancelled.
+
+        Returns:
+            The next changes.
+
+        Raises:
+            Exception: If the background watch ended or failed.
+        """
+        if self._awatch_task is None:
+            self._awatch_task = asyncio.create_task(_anext_or_error(self._awatch))
+        await asyncio.wait([self._awatch_task])
+        result = self._awatch_task.result()
+        self._awatch_task = None
+        if isinstance(result, Exception):
+            raise result
+        return result
+
     def consume(self) -> Event:
         """Return the latest event once `ready` is complete.
 
-- 
2.43.0


From 8c73abc6e38f66a3ab82c7b03ea023647812e2e8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:18:36 +0000
Subject: [PATCH 15/20] fix: do not select receivers that changed while
 handling another one

A receiver found to be ready is looked at again if the loop body was
executed since then, as the body might have, for example, reset a timer.
Also a receiver that was reported as stopped is not selected again.
---
 src/frequenz/channels/_select.py | 15 ++++++++++++++-
 1 file changed, 14 insertions(+), 1 deletion(-)

diff --git a/src/frequenz/channels/_select.py b/src/frequenz/channels/_select.py
index e8b6e80..520c656 100644
--- a/src/frequenz/channels/_select.py
+++ b/src/frequenz/channels/_select.py
@@ -425,6 +425,8 @@ async def select(*receivers: Receiver[Any]) -> AsyncIterator[Selected[Any]]:
     """
     receivers_map: dict[str, Receiver[Any]] = {str(hash(r)): r for r in receivers}
     pending: set[asyncio.Task[bool]] = set()
+    # Tasks that were done before the loop body got to handle the last selected receiver.
+    outdated: set[asyncio.Task[bool]] = set()
 
     try:
         for name, recv in receivers_map.items():
@@ -439,6 +441,16 @@ async def select(*receivers: Receiver[Any]) -> AsyncIterator[Selected[Any]]:
                 receiver_active: bool = True
                 name = task.get_name()
                 recv = receivers_map[name]
+                if task in outdated and not task.exception():
+                    # The loop body was executed after this task was done, so what it
+                    # found might not be true anymore (for example because a timer was
+                    # reset or a message received in there), so we need to look again.
+                    task = asyncio.create_task(recv.ready(), name=name)
+                    pending.add(task)
+                    await asyncio.wait({task}, timeout=0)
+                    if not task.done():
+                        continue
+                    pending.remove(task)
                 if exception := task.exception():
                     match exception:
                         case asyncio.CancelledError():
@@ -453,9 +465,10 @@ async def select(*receivers: Receiver[Any]) -> AsyncIterator[Selected[Any]]:
                 yield selected
                 if not selected._handled:  # pylint: disable=protected-access
                     raise UnhandledSelectedError(selected)
+                outdated = {t for t in (*done, *pending) if t.done()}
 
                 receiver_active = task.result()
-                if not receiver_active:
+                if not receiver_active or selected.was_stopped:
                     continue
 
                 # Add back the receiver to the pending list
-- 
2.43.0


From 585b949e70635c1e94af3a5bffa9e8c6d640dcba Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:11:41 +0000
Subject: [PATCH 16/20] fix: let select() serve receivers with equal hashes

The receivers were identified by their hash, but hashes don't need to be
unique, so of several receivers with the same hash (for example instances
of a user-defined receiver class that defines its own hash) only the last
one was served.
---
 src/frequenz/channels/_select.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/frequenz/channels/_select.py b/src/frequenz/channels/_select.py
index 520c656..f2413e9 100644
--- a/src/frequenz/channels/_select.py
+++ b/src/frequenz/channels/_select.py
@@ -423,7 +423,7 @@ async def select(*receivers: Receiver[Any]) -> AsyncIterator[Selected[Any]]:
             method.  Normal errors while receiving messages are not raised, but reported
             via the `Selected` instance.
     """
-    receivers_map: dict[str, Receiver[Any]] = {str(hash(r)): r for r in receivers}
+    receivers_map: dict[str, Receiver[Any]] = {str(id(r)): r for r in receivers}
     pending: set[asyncio.Task[bool]] = set()
     # Tasks that were done before the loop body got to handle the last selected receiver.
     outdated: set[asyncio.Task[bool]] = set()
-- 
2.43.0


From ac0211d57e085ec90e80970efd650a5f714a1922 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:40:01 +0000
Subject: [PATCH 17/20] fix: let a broadcast receiver with limit 0 not make
 send() fail

---
 src/frequenz/channels/_broadcast.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/frequenz/channels/_broadcast.py b/src/frequenz/channels/_broadcast.py
index 2dcaa19..2cc6250 100644
--- a/src/frequenz/channels/_broadcast.py
+++ b/src/frequenz/channels/_broadcast.py
@@ -415,8 +415,9 @@ class _Receiver(Receiver[_T]):
         Args:
             message: The message to be sent.
         """
+        # Appending to a full queue drops the oldest message (or the new one, if the
+        # receiver can't hold any messages).
         if len(self._q) == self._q.maxlen:
-            self._q.popleft()
             _logger.warning(
                 "Broadcast receiver [%s] is full. Oldest message was dropped.",
                 self,
-- 
2.43.0


From e5014cbcd016f8f332f711ac5bf35fab2cd1dc41 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:15:30 +0000
Subject: [PATCH 18/20] fix: log through the logger hierarchy, so that logging
 settings apply

---
 src/frequenz/channels/_broadcast.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/frequenz/channels/_broadcast.py b/src/frequenz/channels/_broadcast.py
index 2cc6250..6f4b8bd 100644
--- a/src/frequenz/channels/_broadcast.py
+++ b/src/frequenz/channels/_broadcast.py
@@ -16,7 +16,7 @@ from ._generic import ChannelMessageT
 from ._receiver import Receiver, ReceiverStoppedError
 from ._sender import Sender, SenderError
 
-_logger = logging.Logger(__name__)
+_logger = logging.getLogger(__name__)
 
 
 class Broadcast(Generic[ChannelMessageT]):
-- 
2.43.0


From c689b1266738575617a391908f6f2e6befa35235 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:26:49 +0000
Subject: [PATCH 19/20] fix: name the broadcast receiver in the warning about
 its full buffer

---
 src/frequenz/channels/_broadcast.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/frequenz/channels/_broadcast.py b/src/frequenz/channels/_broadcast.py
index 6f4b8bd..ddb7c88 100644
--- a/src/frequenz/channels/_broadcast.py
+++ b/src/frequenz/channels/_broadcast.py
@@ -419,8 +419,9 @@ class _Receiver(Receiver[_T]):
         # receiver can't hold any messages).
         if len(self._q) == self._q.maxlen:
             _logger.warning(
-                "Broadcast receiver [%s] is full. Oldest message was dropped.",
+                "Broadcast receiver [%s:%s] is full. Oldest message was dropped.",
                 self,
+                self._name,
             )
         self._q.append(message)
 
-- 
2.43.0


From d34bf6532904142959106d9ca3dd01775546f43a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:29:44 +0000
Subject: [PATCH 20/20] fix: refuse a negative start_delay of timers that are
 not started

The documented ValueError was only raised by the reset() of timers with
`auto_start=True`, other timers silently ignored the delay.
---
 src/frequenz/channels/timer.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/frequenz/channels/timer.py b/src/frequenz/channels/timer.py
index 542295b..4c30752 100644
--- a/src/frequenz/channels/timer.py
+++ b/src/frequenz/channels/timer.py
@@ -509,6 +509,9 @@ class Timer(Receiver[timedelta]):
                 f"The `interval` must be positive and at least 1 microsecond, not {interval}"
             )
 
+        if start_delay < timedelta(0):
+            raise ValueError(f"`start_delay` can't be negative, got {start_delay}")
+
         if start_delay > timedelta(0) and auto_start is False:
             raise ValueError(
                 "`auto_start` must be `True` if a `start_delay` is specified"
-- 
2.43.0

