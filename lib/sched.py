"""Runs threads under a schedule: one at a time, each until a given point.

Points are counted per thread: lines of the code under test it went through
("lines") or callbacks it received ("calls").  Locks that the code under test
creates are replaced by ones that tell the scheduler when a thread has to wait.
"""
import os
import queue
import sys
import threading
import time

REPO = os.environ.get("VERIF_REPO", "/repo")
CODE = os.path.join(REPO, "refextract") + os.sep
_Lock, _RLock = threading.Lock, threading.RLock
_current = threading.local()


class Turn:
    """A thread under the scheduler."""

    def __init__(self, number, func, out):
        self.number, self.func, self.out = number, func, out
        self.go = threading.Semaphore(0)
        self.at, self.until = 0, None
        self.state = "new"
        self.result = None
        self.thread = threading.Thread(target=self._main, daemon=True)

    def _main(self):
        _current.turn = self
        self.go.acquire()
        try:
            self.result = self.func(self)
        finally:
            sys.settrace(None)
            _current.turn = None
            self.out.put((self, "done"))

    def reached(self):
        """The thread comes to its next point."""
        self.at += 1
        if self.until is not None and self.at >= self.until:
            self.pause("paused")

    def pause(self, state):
        self.out.put((self, state))
        self.go.acquire()

    def trace_lines(self):
        turn = self

        def line(frame, event, arg):
            if event == "line":
                turn.reached()
            return line

        def call(frame, event, arg):
            return line if frame.f_code.co_filename.startswith(CODE) else None
        sys.settrace(call)


class WatchedLock:
    def __init__(self, real):
        self.real = real

    def acquire(self, blocking=True, timeout=-1):
        turn = getattr(_current, "turn", None)
        if turn is None or not blocking:
            return self.real.acquire(blocking, timeout)
        while not self.real.acquire(False):
            if timeout is not None and timeout >= 0:
                return self.real.acquire(True, timeout)
            turn.pause("blocked")
        return True

    def release(self):
        self.real.release()

    def __enter__(self):
        self.acquire()
        return self

    def __exit__(self, *exc):
        self.release()

    def __getattr__(self, name):
        return getattr(self.real, name)


def _factory(real):
    def make(*args, **kw):
        lock = real(*args, **kw)
        if sys._getframe(1).f_globals.get("__name__", "").startswith("refextract"):
            return WatchedLock(lock)
        return lock
    return make


def watch_locks():
    """To be called before the code under test is imported."""
    threading.Lock, threading.RLock = _factory(_Lock), _factory(_RLock)


class Deadlock(Exception):
    pass


def run(funcs, schedule, patience=20):
    """Run funcs (each gets its Turn) under a schedule of (thread, point or 0).

    After the schedule, and whenever a thread has to wait, the others go on.
    """
    out = queue.Queue()
    turns = [Turn(i, f, out) for i, f in enumerate(funcs)]
    for t in turns:
        t.thread.start()

    def let(t, until):
        if t.state == "done" or (until is not None and t.at >= until):
            return
        t.until = until
        t.state = "running"
        t.go.release()
        end = time.time() + patience
        while t.state == "running":
            try:
                who, state = out.get(timeout=max(0.01, end - time.time()))
            except queue.Empty:
                t.state = "stuck"      # waits for something we do not see
                return
            who.state = state

    for n, until in schedule:
        let(turns[n], until or None)
    idle = 0
    while any(t.state != "done" for t in turns):
        before = [(t.at, t.state) for t in turns]
        for t in turns:
            if t.state == "stuck":
                try:
                    who, state = out.get(timeout=0.1)
                    who.state = state
                except queue.Empty:
                    pass
            if t.state != "stuck":
                let(t, None)
        idle = idle + 1 if [(t.at, t.state) for t in turns] == before else 0
        if idle > 30:
            raise Deadlock([t.state for t in turns])
    return [t.result for t in turns]
