"""Core of the simulator: seeded decisions, simulated clock, event log, processes.

One Sim object is one execution. Everything that is not determined by the code
under test is decided in Sim.choose(): faults, crash points, delays, directory
order, sizes of network segments, what the environment does in between, and which
thread runs next. Every decision that differs from its default is recorded under a
key made of the current operation, the kind of decision and a running number, so
that the recorded decisions plus the plan repeat the execution exactly, and so that
single decisions can be removed when a failure is minimised.
"""

import collections
import hashlib
import random
import traceback


class SimCrash(BaseException):
    """The simulated process has been killed."""


class SimHang(BaseException):
    """The simulated process would block forever, or makes no progress."""


class Watchdog(BaseException):
    """The run used far too much CPU time outside the simulator's seams."""


class Violation(Exception):
    """The property under check does not hold in this execution."""


class Proc(object):
    """One simulated process (one run of a command or of an API call)."""

    def __init__(self, pid, skew=0.0, crash_at=None, crash_mode='before',
                 fs=None, net=None):
        self.pid = pid
        self.skew = skew            # local clock minus true time
        self.jumps = []             # [(point number, seconds)]
        self.dead = False
        self.crash_at = crash_at    # number of the mutation at which to crash
        self.crash_mode = crash_mode
        self.muts = 0
        self.points = 0
        self.fs = fs or {}
        self.net = net or {}
        self.faults_left = 10 ** 9
        self.disk_full = False
        self.effects = []           # mutations performed: (kind, path)
        self.max_points = 150000


class Sim(object):
    """One deterministic execution."""

    TICK = 0.0007

    def __init__(self, seed, decisions=None, t0=1600000000.0, keep_log=False):
        self.seed = seed
        self.rng = random.Random(seed)
        self.replay = decisions is not None
        self.decisions = dict(decisions) if decisions is not None else {}
        self.used = set()
        self.counts = collections.Counter()
        self.op = ''
        self.now = t0
        self.t0 = t0
        self.proc = None
        self.pid = 1000
        self.faults = collections.Counter()
        self.probes = collections.Counter()
        self.hash = hashlib.blake2b(digest_size=12)
        self.shape = hashlib.blake2b(digest_size=12)
        self.keep_log = keep_log
        self.log = collections.deque(maxlen=6000)
        self.events = 0
        self.escapes = []           # mutations outside the scratch directory
        self.on_point = None        # environment hook
        self.in_env = False
        self.sched = None           # thread scheduler, if any
        self.hook_errors = []
        self.fault_log = []         # (time, operation, kind, detail)
        self.violations = []        # found by hooks in the middle of the code under test
        self.encoding = 'utf-8'     # of the locale, for files opened without one
        self.root = None            # scratch directory
        self.classify = lambda path: 'other'
        self.nproc = 0

    # -- decisions ---------------------------------------------------------

    def choose(self, kind, default, fn):
        """Return a decision; fn(rng) makes it when not replaying."""
        name = self.op + '|' + kind
        n = self.counts[name]
        self.counts[name] = n + 1
        key = '%s|%d' % (name, n)
        if self.replay:
            if key in self.decisions:
                self.used.add(key)
                return self.decisions[key]
            return default
        value = fn(self.rng)
        if value != default:
            self.decisions[key] = value
        return value

    # -- log ---------------------------------------------------------------

    def event(self, kind, detail=''):
        self.events += 1
        detail = str(detail)
        if self.root:
            detail = detail.replace(self.root, '$R')
        line = '%s %s' % (kind, detail)
        self.hash.update(('%.4f %s\n' % (self.now - self.t0, line)).encode('utf-8', 'backslashreplace'))
        self.shape.update((line + '\n').encode('utf-8', 'backslashreplace'))
        if self.keep_log:
            self.log.append('%12.4f [%s] %s' % (self.now - self.t0, self.op, line))

    def fault(self, kind, detail=''):
        self.faults[kind] += 1
        self.fault_log.append((self.now, self.op, kind, str(detail)))
        self.event('FAULT', '%s %s' % (kind, detail))

    def probe(self, name, n=1):
        self.probes[name] += n

    # -- time --------------------------------------------------------------

    def advance(self, seconds):
        if seconds > 0:
            self.now += seconds

    def local_time(self):
        p = self.proc
        return self.now + (p.skew if p is not None else 0.0)

    # -- seam points -------------------------------------------------------

    def point(self, kind, detail=''):
        """One step of the current process at a seam."""
        p = self.proc
        if p is None:
            return
        if p.dead:
            raise SimCrash()
        p.points += 1
        if p.points > p.max_points:
            self.event('LIVELOCK', kind)
            p.dead = True
            raise SimHang('no end after %d steps' % p.points)
        self.now += self.TICK
        for (n, secs) in p.jumps:
            if n == p.points:
                p.skew += secs
                self.fault('clock_jump', secs)
        self.event(kind, detail)
        if self.on_point is not None and not self.in_env:
            self.in_env = True
            saved, self.proc = self.proc, None
            try:
                try:
                    self.on_point(self, kind, detail)
                except Violation as e:
                    self.violations.append(str(e))
                    raise
                except Exception:
                    self.hook_errors.append(traceback.format_exc())
                    raise
            finally:
                self.proc = saved
                self.in_env = False
        if self.sched is not None:
            self.sched.yield_point()
            if p.dead:
                raise SimCrash()

    def crash_here(self):
        """Count a mutation; return the crash mode if the process dies at it."""
        p = self.proc
        p.muts += 1
        if p.crash_at is not None and p.muts == p.crash_at:
            return p.crash_mode
        return None

    def interrupt(self, where=''):
        """The user presses Ctrl-C: the process unwinds, and may do things on its way."""
        self.fault('sigint', where)
        raise KeyboardInterrupt()

    def die(self, where=''):
        self.fault('crash', where)
        self.proc.dead = True
        raise SimCrash()
