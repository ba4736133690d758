"""Simulated processes that run at the same time, under a seeded scheduler.

Each task is a thread that runs simulated processes (World.run, World.cli) one after
the other. Only the one that holds the baton runs, and it may lose it at every seam
(system calls, clock, network): every interleaving is one that processes of their own
could have made. What a process has in its memory (state of modules, classes and
functions, loggers, standard streams, ...) is put away and brought back at a switch.
"""

import builtins
import copy
import logging
import os
import random
import socket
import sys
import tempfile
import _thread

from . import env
from .core import SimCrash
from .sched import Sched, Task


def _places():
    """All that holds state of the code under test: (mapping, put, drop)."""
    out = []
    for name in env._snapshots:
        d = vars(sys.modules[name])
        out.append((d, d.__setitem__, d.__delitem__))
    for cls in env._class_state:
        out.append((vars(cls), lambda k, v, c=cls: setattr(c, k, v), lambda k, c=cls: delattr(c, k)))
    for fn in env._function_state:
        d = vars(fn)
        out.append((d, d.__setitem__, d.__delitem__))
    for obj, _ in env._objects.values():
        d = vars(obj)
        out.append((d, d.__setitem__, d.__delitem__))
    return out


def _loggers():
    names = sorted(n for n in logging.root.manager.loggerDict
                   if n.split('.')[0] in ('resync', 'client') or n.startswith(('resync', 'client')))
    return [logging.getLogger()] + [logging.getLogger(n) for n in names]


class Context(object):
    """The memory of a process while it does not run."""

    def __init__(self, sim):
        self.state = []
        for d, put, drop in _places():
            self.state.append({k: (v, copy.deepcopy(v) if isinstance(v, env._MUTABLE) else None)
                               for k, v in list(d.items()) if not k.startswith('__') and isinstance(v, env._SIMPLE)})
        self.defaults = [(fn, fn.__defaults__) for fn, (defaults, _) in env._function_state.items() if defaults is not None]
        self.loggers = [(lg, list(lg.handlers), lg.level, lg.disabled, lg.propagate) for lg in _loggers()]
        self.disable = logging.root.manager.disable
        self.streams = (sys.argv, sys.stdin, sys.stdout, sys.stderr, builtins.input)
        self.names = tempfile._name_sequence
        self.random = random.getstate()
        self.timeout = socket.getdefaulttimeout()
        self.zone = os.environ.get('TZ')
        self.sim = (sim.proc, sim.op, sim.encoding)

    def load(self, sim):
        for (d, put, drop), state in zip(_places(), self.state):
            for k in [k for k, v in list(d.items())
                      if k not in state and not k.startswith('__') and isinstance(v, env._SIMPLE)]:
                drop(k)
            for k, (v, content) in state.items():
                if d.get(k) is not v:
                    put(k, v)
                if content is not None and v != content:
                    # the object itself stays: it may be referred to from anywhere
                    content = copy.deepcopy(content)
                    v.clear()
                    (v.update if isinstance(v, (dict, set)) else v.extend)(content)
        for fn, defaults in self.defaults:
            fn.__defaults__ = defaults
        for c in env._caches:
            c.cache_clear()
        detach()
        for lg, handlers, level, disabled, propagate in self.loggers:
            lg.handlers[:] = handlers
            lg.setLevel(level)
            lg.disabled = disabled
            lg.propagate = propagate
        logging.disable(self.disable)
        sys.argv, sys.stdin, sys.stdout, sys.stderr, builtins.input = self.streams
        tempfile._name_sequence = self.names
        random.setstate(self.random)
        socket.setdefaulttimeout(self.timeout)
        if os.environ.get('TZ') != self.zone:
            env.set_zone(self.zone)
        sim.proc, sim.op, sim.encoding = self.sim


def detach():
    """Handlers stay open: they belong to other processes."""
    for lg in _loggers():
        lg.handlers[:] = []


class Procs(Sched):

    def __init__(self, sim, quantum=20, meet=None):
        """meet: function(kind, detail) that tells where processes wait for each other, to meet."""
        Sched.__init__(self, sim, quantum)
        self.max_steps = 10 ** 9        # each process has its own limit
        self.meet = meet
        self.met = 0

    def at(self, kind, detail):
        """A process is about to do this."""
        t = self.cur
        if self.meet is not None and t is not None and self.meet(kind, detail) and \
                self.sim.choose('meet', False, lambda r: r.random() < 0.6):
            t.blocked = True
            self.left = 0

    def pick(self, first=False):
        if all(t.finished or t.blocked for t in self.tasks):
            self.met += sum(t.blocked for t in self.tasks) > 1
            self.wake()
        Sched.pick(self, first)

    def run(self, tasks):
        self.tasks = [Task(n, f) for n, f in tasks]
        self.done.acquire()
        sim = self.sim
        detach()
        env.reset_modules()
        outside = Context(sim)
        for t in self.tasks:
            t.context = outside
        saved, sim.sched = sim.sched, self
        try:
            for t in self.tasks:
                _thread.start_new_thread(self.body, (t,))
            self.pick(first=True)
            self.cur.go.release()
            try:
                self.done.acquire()
            except BaseException:
                self.abort = True
                for t in self.tasks:
                    if t.go.locked():
                        t.go.release()
                raise
        finally:
            sim.sched = saved
            outside.load(sim)
        for t in self.tasks:
            if t.problem is not None:
                raise t.problem
        return self.tasks

    def body(self, t):
        t.go.acquire()
        t.started = True
        try:
            if not self.abort:
                t.context.load(self.sim)
                t.fn()
        except SimCrash:
            pass
        except BaseException as e:
            e.__traceback__ = None
            t.problem = e
        t.finished = True
        t.context = None
        if self.abort:
            return
        if all(x.finished for x in self.tasks):
            self.done.release()
            return
        self.pick()
        self.cur.go.release()

    def hand_over(self, t):
        if self.cur is not t:
            t.context = Context(self.sim)
            self.cur.go.release()
            t.go.acquire()
            if not self.abort:
                t.context.load(self.sim)
        if self.abort:
            raise SimCrash()
