"""Deterministic scheduling of real threads: exactly one runs at a time, and
the choice tape decides who, switching at lines (or bytecodes) of pystruct."""
import os
import sys
import threading

from . import boot
from .core import Violation, World

_RealLock = threading.Lock
_RealRLock = threading.RLock


class SchedulerStuck(Exception):
    """A managed thread blocked on something the scheduler does not know."""


class _Thread:
    def __init__(self, sched, name, fn):
        self.name = name
        self.fn = fn
        self.go = threading.Semaphore(0)
        self.done = False
        self.result = None
        self.error = None
        self.sched = sched
        self.blocked = False
        self.thread = threading.Thread(target=self._main, name=name,
                                       daemon=True)

    def _main(self):
        self.go.acquire()
        self.sched.ident[threading.get_ident()] = self
        sys.settrace(self.sched._trace)
        try:
            self.result = self.fn()
        except BaseException as e:   # kept for the oracle
            self.error = e
        finally:
            sys.settrace(None)
            self.done = True
            self.sched._finished(self)


class Scheduler:
    def __init__(self, world, gap, opcodes=False, focus=()):
        self.world = world
        self.focus = {}             # line -> files: switch whenever there
        for name, line in focus:
            self.focus.setdefault(line, set()).add(name)
        self.gap = gap              # mean distance of preemptions; 0 = none
        self.opcodes = opcodes
        self.threads = []
        self.ident = {}
        self.ctl = threading.Semaphore(0)
        self.switches = 0
        self.order = []
        self.countdown = 0
        self.lines = 0
        self.max_lines = 3000000
        self._files = {}
        self.prefix = os.path.join(os.path.abspath(boot.REPO), "pystruct")
        self.problem = None

    def spawn(self, name, fn):
        t = _Thread(self, name, fn)
        self.threads.append(t)
        return t

    def _next_gap(self):
        # 0 on the tape: run on without further preemption
        v = self.world.tape.draw(self.gap * 12, "gap") if self.gap else 0
        self.countdown = 1 + v % self.gap if v else 1 << 60

    def run(self):
        """Run all spawned threads to completion."""
        w = self.world
        prev, w.threads = w.threads, self
        try:
            self._next_gap()
            for t in self.threads:
                t.thread.start()
            first = w.tape.draw(len(self.threads), "first thread")
            self.order.append(self.threads[first].name)
            self.threads[first].go.release()
            if not self.ctl.acquire(timeout=200):
                raise SchedulerStuck("threads did not finish")
            for t in self.threads:
                t.thread.join(10)
        finally:
            w.threads = prev
        if self.problem:
            raise self.problem
        return self.threads

    # -- called from managed threads ------------------------------------------
    def _wanted(self, code):
        f = code.co_filename
        r = self._files.get(f)
        if r is None:
            r = self._files[f] = os.path.abspath(f).startswith(self.prefix)
        return r

    def _trace(self, frame, event, arg):
        if not self._wanted(frame.f_code):
            return None
        if self.opcodes:
            frame.f_trace_opcodes = True
        return self._local

    def _local(self, frame, event, arg):
        if event == "line" or event == "opcode":
            self.lines += 1
            if event == "line" and self.focus:
                files = self.focus.get(frame.f_lineno)
                if files and frame.f_code.co_filename in files \
                        and self.switches < 2000:
                    self.switch("%s:%s" % (frame.f_code.co_name, "focus"))
            self.countdown -= 1
            if self.countdown <= 0:
                self._next_gap()
                self.switch("%s:%s" % (frame.f_code.co_name, event))
        return self._local

    def me(self):
        return self.ident.get(threading.get_ident())

    def switch(self, why=""):
        me = self.me()
        if me is None:
            return
        others = [t for t in self.threads if not t.done and t is not me]
        if not others:
            return
        nxt = others[self.world.tape.draw(len(others), "thread")]
        self._handover(me, nxt, why)

    def _handover(self, me, nxt, why):
        self.switches += 1
        self.order.append(nxt.name)
        self.world.event("switch", "%s->%s at %s" % (me.name, nxt.name, why))
        nxt.go.release()
        if not me.go.acquire(timeout=150):
            raise SchedulerStuck(me.name)

    def blocked_on(self, lock):
        """The current thread waits for a lock: let somebody else run."""
        me = self.me()
        me.blocked = True
        others = [t for t in self.threads
                  if not t.done and t is not me and not t.blocked]
        if not others:
            raise Violation("deadlock", "all threads wait for locks")
        nxt = others[self.world.tape.draw(len(others), "thread")]
        self._handover(me, nxt, "blocked")
        me.blocked = False

    def unblocked(self):
        for t in self.threads:
            t.blocked = False

    def _finished(self, me):
        others = [t for t in self.threads if not t.done]
        if not others:
            self.ctl.release()
            return
        nxt = others[self.world.tape.draw(len(others), "thread")]
        self.order.append(nxt.name)
        nxt.go.release()


class Lines:
    """Collects the lines of pystruct that a call executes."""

    def __init__(self):
        self.seen = set()
        self.prefix = os.path.join(os.path.abspath(boot.REPO), "pystruct")

    def __enter__(self):
        self.old = sys.gettrace()
        sys.settrace(self.trace)
        return self

    def __exit__(self, *a):
        sys.settrace(self.old)
        return False

    def trace(self, frame, event, arg):
        name = frame.f_code.co_filename
        if not os.path.abspath(name).startswith(self.prefix):
            return None
        return self.local

    def local(self, frame, event, arg):
        if event == "line":
            self.seen.add((frame.f_code.co_filename, frame.f_lineno))
        return self.local

    def draw(self, t, n, among=None):
        """n of the lines."""
        every = sorted(self.seen)
        return [every[t.draw(len(every), "line")] for _ in range(n)]


class CoopLock:
    """A lock that hands over to the scheduler instead of blocking."""
    factory = staticmethod(_RealLock)

    def __init__(self):
        self._l = self.factory()

    def acquire(self, blocking=True, timeout=-1):
        w = World.current
        s = w.threads if w is not None else None
        if s is None or s.me() is None or not blocking:
            return self._l.acquire(blocking, timeout)
        while not self._l.acquire(False):
            s.blocked_on(self)
        return True

    def release(self):
        self._l.release()
        w = World.current
        if w is not None and w.threads is not None:
            w.threads.unblocked()

    def locked(self):
        return self._l.locked()

    def __enter__(self):
        return self.acquire()

    def __exit__(self, *a):
        self.release()

    def __getstate__(self):
        raise TypeError("cannot pickle lock")


class CoopRLock(CoopLock):
    factory = staticmethod(_RealRLock)


def install_locks():
    """Locks created by pystruct itself become cooperative."""
    prefix = os.path.join(os.path.abspath(boot.REPO), "pystruct")

    def lock(*a):
        f = sys._getframe(1).f_code.co_filename
        return CoopLock() if f.startswith(prefix) else _RealLock()

    def rlock(*a):
        f = sys._getframe(1).f_code.co_filename
        return CoopRLock() if f.startswith(prefix) else _RealRLock()

    threading.Lock, threading.RLock = lock, rlock
