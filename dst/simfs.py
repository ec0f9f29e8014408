"""A simulated operating-system file watcher below the real `watchfiles.awatch()`.

Stubbed: the native `RustNotify` object and the worker thread that blocks in its `watch()`.
Real: `FileWatcher`, `awatch()` and anyio's task group around them.
"""

from __future__ import annotations

import asyncio
import os
import zlib

import anyio.to_thread
import watchfiles.main

CHANGE = {"a": 1, "m": 2, "d": 3}  # as reported by the native watcher


class SimFS:
    """The watchers of one run, keyed by their first path."""

    def __init__(self, world) -> None:
        self.world = world
        self.notifiers: dict[str, list] = {}
        self.fail_new: dict[str, BaseException] = {}

    def __enter__(self):
        fs = self
        self.saved = (watchfiles.main.RustNotify, anyio.to_thread.run_sync)

        class Notify(SimNotify):
            def __init__(self, paths, _debug, _polling, _delay, recursive, *args):
                super().__init__(fs, paths, recursive)

        async def run_sync(func, *args, **_kw):
            owner = getattr(func, "__self__", None)
            if not isinstance(owner, SimNotify):
                raise RuntimeError("only the file watcher's thread is simulated")
            await asyncio.sleep(0)
            return await func(*args)

        watchfiles.main.RustNotify = Notify
        anyio.to_thread.run_sync = run_sync
        return self

    def __exit__(self, *a):
        watchfiles.main.RustNotify, anyio.to_thread.run_sync = self.saved
        return False

    def current(self, key):
        """The latest watcher created for a path, if it is still open."""
        lst = self.notifiers.get(key)
        return lst[-1] if lst and not lst[-1].closed else None

    def poll(self) -> None:
        """The worker threads look at their stop events (at quiescent moments)."""
        for lst in self.notifiers.values():
            for n in lst:
                n.poll()


class SimNotify:
    """What `RustNotify` is to `awatch()`: collects changes, hands them out in batches."""

    STEP_US = 50_000

    def __init__(self, fs: SimFS, paths, recursive: bool = True) -> None:
        self.fs = fs
        self.recursive = recursive
        self.key = os.path.basename(str(paths[0]))
        self.paths = {os.path.abspath(str(p)) for p in paths}
        err = fs.fail_new.pop(self.key, None)
        if err is not None:
            fs.world.count("watch_creation_failed")
            raise err
        self.closed = False
        self.pending: dict = {}  # insertion-ordered set
        self.outcome: list = []  # 'timeout', 'stop', 'signal' or exceptions, in order
        self.waiter = None
        self.stop_event = None
        self.stopping = False
        self.batches: list[list] = []  # what watch() returned
        fs.notifiers.setdefault(self.key, []).append(self)

    def __enter__(self):
        return self

    def __exit__(self, *a):
        self.close()

    def close(self):
        self.closed = True
        if self.waiter is not None and not self.waiter.done():
            self.waiter.cancel()

    # -- the blocking call, in the "thread" ---------------------------------------------
    async def watch(self, debounce, step, timeout, stop_event):
        self.stop_event = stop_event
        if self.waiter is not None:
            # The worker thread of a cancelled caller goes on for a while: the native watcher
            # refuses to be used by two threads.
            raise RuntimeError("Already mutably borrowed")
        loop = asyncio.get_running_loop()
        while True:
            if self.outcome:
                out = self.outcome.pop(0)
                if isinstance(out, BaseException):
                    raise out
                return out
            if self.pending:
                batch = list(self.pending)
                self.pending.clear()
                self.batches.append(batch)
                if not self.recursive:  # it does not look into subdirectories then
                    batch = [c for c in batch if "/" not in c[1].strip("/")]
                    if not batch:
                        continue
                return Batch(batch)
            self.waiter = loop.create_future()
            try:
                await self.waiter
            finally:
                self.waiter = None

    def wake(self) -> None:
        if self.waiter is not None and not self.waiter.done():
            self.waiter.set_result(None)

    def report(self, changes) -> None:
        for c in changes:
            self.pending[c] = True
        self.wake()

    def finish(self, outcome) -> None:
        self.outcome.append(outcome)
        self.wake()

    def poll(self) -> None:
        if self.waiter is None or self.stopping or self.stop_event is None or not self.stop_event.is_set():
            return
        self.stopping = True
        self.fs.world.loop.call_later(self.STEP_US / 1e6, self.finish, "stop")


class Batch(set):
    """A set of changes; the class only exists to be recognisable in a debugger."""


class SimPath(str):
    """A path whose hash does not depend on PYTHONHASHSEED."""

    __slots__ = ()

    def __hash__(self) -> int:
        return zlib.crc32(self.encode())


def change(kind: str, path: str):
    return (CHANGE[kind], SimPath(path))
