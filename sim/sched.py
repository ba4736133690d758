"""Threads under a seeded scheduler.

The threads are real threads, but only the one that holds the baton runs. It may
lose it before every statement of the code under test (also inside expressions, if
fine), see weave.py, and at every seam, as the seeded decisions say: every
interleaving is one the interpreter could have made, and the decisions repeat it
exactly.
"""

import sys
import threading
import _thread

from . import env, weave
from .core import SimCrash, SimHang

_allocate = _thread.allocate_lock


class Interrupt(BaseException):
    """Ends what a thread is doing, at any line."""


class Task(object):

    def __init__(self, name, fn):
        self.name = name
        self.fn = fn
        self.go = _allocate()
        self.go.acquire()
        self.finished = False
        self.blocked = False
        self.started = False
        self.problem = None
        self.interrupt = False


class Sched(object):

    def __init__(self, sim, quantum=20, fine=False, interrupts=0.0):
        self.sim = sim
        self.quantum = quantum
        self.fine = fine
        self.interrupts = interrupts
        self.tasks = []
        self.cur = None
        self.left = 0
        self.abort = False
        self.done = _allocate()
        self.steps = 0
        self.switches = 0
        self.max_steps = 400000

    # -- the threads --------------------------------------------------------

    def run(self, tasks):
        """Run [(name, function)] to their ends; return the Task objects."""
        self.tasks = [Task(n, f) for n, f in tasks]
        self.done.acquire()
        saved, self.sim.sched = self.sim.sched, self
        weave.SCHED = self
        old = (threading.Lock, threading.RLock)
        threading.Lock = lambda: self.lock(False, old[0])
        threading.RLock = lambda: self.lock(True, old[1])
        try:
            for t in self.tasks:
                _thread.start_new_thread(self.body, (t,))
            self.pick(first=True)
            self.cur.go.release()
            try:
                self.done.acquire()
            except BaseException:
                # the watchdog: let every thread end
                self.abort = True
                for t in self.tasks:
                    if t.go.locked():
                        t.go.release()
                raise
        finally:
            threading.Lock, threading.RLock = old
            self.sim.sched = saved
            weave.SCHED = None
        for t in self.tasks:
            if t.problem is not None:
                raise t.problem
        return self.tasks

    def body(self, t):
        t.go.acquire()
        t.started = True
        try:
            if not self.abort:
                t.fn()
        except (SimCrash, Interrupt):
            pass
        except BaseException as e:
            e.__traceback__ = None
            t.problem = e
        t.finished = True
        if self.abort:
            return
        if all(x.finished for x in self.tasks):
            self.done.release()
            return
        self.pick()
        self.cur.go.release()

    def lock(self, reentrant, real):
        # locks of the library are not held while threads are switched
        if env.repo_file(sys._getframe(2).f_code.co_filename):
            return SimLock(self.sim, reentrant)
        return real()

    # -- decisions ----------------------------------------------------------

    def yield_point(self):
        t = self.cur
        if t is None:
            return
        if self.abort:
            raise SimCrash()
        self.steps += 1
        if self.steps > self.max_steps:
            self.sim.event('LIVELOCK', 'threads')
            t.problem = SimHang('threads do not end')
            self.kill()
            raise SimCrash()
        self.left -= 1
        if self.left > 0:
            return
        self.pick()
        self.hand_over(t)

    def pick(self, first=False):
        """Choose the thread that goes on, and for how many steps."""
        ready = [i for i, t in enumerate(self.tasks) if not t.finished and not t.blocked]
        if not ready:
            # every thread waits for a lock
            self.tasks[0].problem = SimHang('every thread waits for another')
            self.kill()
            return
        cur = self.tasks.index(self.cur) if self.cur is not None else -1
        # by default the thread that runs goes on to its end
        value = self.sim.choose('run', [-1, 10 ** 6, 0], lambda r: [
            round(r.random(), 3), r.randrange(1, self.quantum + 1), int(r.random() < self.interrupts)])
        f, n, kill = value
        if f < 0:
            k = cur if cur in ready else ready[0]
        else:
            k = ready[min(int(f * len(ready)), len(ready) - 1)]
        self.left = n
        t = self.tasks[k]
        if t is not self.cur:
            self.switches += 1
            self.sim.event('thread', t.name)
        self.cur = t
        if kill and not first and t.started:
            t.interrupt = True
            self.sim.fault('interrupt', t.name)

    def hand_over(self, t):
        if self.cur is not t:
            self.cur.go.release()
            t.go.acquire()
        if self.abort:
            raise SimCrash()
        if t.interrupt:
            t.interrupt = False
            raise Interrupt()

    def kill(self):
        self.abort = True
        for t in self.tasks:
            if not t.finished and t is not self.cur and t.go.locked():
                t.go.release()
        self.done.release()

    def block(self):
        """The running thread waits for a lock."""
        t = self.cur
        t.blocked = True
        self.pick()
        if self.abort:
            raise SimCrash()
        self.hand_over(t)

    def wake(self):
        for t in self.tasks:
            t.blocked = False


class SimLock(object):
    """A lock that hands the baton on."""

    def __init__(self, sim, reentrant):
        self.sim = sim
        self.reentrant = reentrant
        self.owner = None
        self.depth = 0

    def acquire(self, blocking=True, timeout=-1):
        s = self.sim.sched
        me = s.cur if s is not None else self
        while self.owner is not None and not (self.reentrant and self.owner is me):
            if not blocking or s is None:
                return False
            s.block()
        self.owner = me
        self.depth += 1
        return True

    def release(self):
        if self.owner is None:
            raise RuntimeError('release unlocked lock')
        self.depth -= 1
        if self.depth == 0:
            self.owner = None
            if self.sim.sched is not None:
                self.sim.sched.wake()

    def locked(self):
        return self.owner is not None

    def __enter__(self):
        return self.acquire()

    def __exit__(self, *a):
        self.release()
