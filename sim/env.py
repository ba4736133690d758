"""Puts the seams in place, runs simulated processes of the code in /repo."""

import builtins
import collections
import contextlib
import copy
import gc
import importlib.machinery
import importlib.util
import io
import logging
import os
import random
import shutil
import signal
import sys
import tempfile
import time
import traceback
import types

from . import fs, net
from .core import Proc, Sim, SimCrash, SimHang, Violation, Watchdog

REPO = os.environ.get('VERIF_REPO', '/repo')   # the variable is for development only
_real_time = {n: getattr(time, n) for n in ('time', 'time_ns', 'sleep', 'monotonic',
                                            'monotonic_ns', 'perf_counter', 'localtime',
                                            'gmtime', 'ctime', 'asctime', 'strftime')}
# Time zones of the machine the simulated processes run on (POSIX rules, no files needed)
ZONES = ('LINT-14', 'AOE12', 'CET-1CEST,M3.5.0,M10.5.0/3', 'EST5EDT,M3.2.0,M11.1.0',
         'IST-5:30', 'NST3:30NDT,M3.2.0,M11.1.0')
_installed = False
_snapshots = {}
_scripts = {}


def _t(fn):
    def f(*args):
        s = fs.SIM
        if s is None or s.proc is None:
            return _real_time[fn.__name__[4:]](*args)
        return fn(s, *args)
    return f


def sim_time(s):
    return s.local_time()


def sim_time_ns(s):
    return int(s.local_time() * 1e6) * 1000


def sim_monotonic(s):
    return s.now


def sim_monotonic_ns(s):
    return int(s.now * 1e9)


def sim_perf_counter(s):
    return s.now


def sim_sleep(s, secs):
    if secs < 0:
        raise ValueError('sleep length must be non-negative')
    s.point('sleep', '%.6f' % secs)
    s.sleeps.append((s.now, secs))
    s.advance(secs)


def sim_localtime(s, secs=None):
    return _real_time['localtime'](s.local_time() if secs is None else secs)


def sim_gmtime(s, secs=None):
    return _real_time['gmtime'](s.local_time() if secs is None else secs)


def sim_ctime(s, secs=None):
    return _real_time['ctime'](s.local_time() if secs is None else secs)


def sim_asctime(s, t=None):
    return _real_time['asctime'](sim_localtime(s) if t is None else t)


def sim_strftime(s, fmt, t=None):
    return _real_time['strftime'](fmt, sim_localtime(s) if t is None else t)


def set_zone(zone):
    os.environ['TZ'] = zone
    time.tzset()


def draw_zone(seed):
    rng = random.Random('zone %s' % seed)    # does not disturb the other decisions
    return rng.choice(ZONES) if rng.random() < 0.4 else 'UTC'


def draw_encoding(seed):
    rng = random.Random('encoding %s' % seed)
    return rng.choice(('cp1252', 'iso8859-1', 'ascii')) if rng.random() < 0.25 else 'utf-8'


def install(threads=False):
    """Install all seams and import the code under test.

    threads: with points at which threads can be switched.
    """
    global _installed
    if _installed:
        return
    _installed = True
    os.environ['TZ'] = 'UTC'
    os.environ['no_proxy'] = os.environ['NO_PROXY'] = '*'
    for v in ('http_proxy', 'HTTP_PROXY', 'all_proxy', 'ALL_PROXY'):
        os.environ.pop(v, None)
    time.tzset()
    sys.dont_write_bytecode = True
    # modules that keep references to what we replace have to come first
    import urllib.request, http.client, zipfile, xml.etree.ElementTree  # noqa
    import xml.sax.handler, xml.dom.minidom, xml.dom.pulldom            # noqa
    import distutils.dir_util, configparser, dateutil.parser, uuid      # noqa
    import defusedxml.ElementTree, email.utils, mimetypes, encodings.idna  # noqa
    import email.parser, email.feedparser, email.message, argparse      # noqa
    mimetypes.init()
    fs.install()
    net.install()
    for f in (sim_time, sim_time_ns, sim_monotonic, sim_monotonic_ns, sim_perf_counter, sim_sleep,
              sim_localtime, sim_gmtime, sim_ctime, sim_asctime, sim_strftime):
        setattr(time, f.__name__[4:], _t(f))
    import datetime as dtmod
    real_dt = dtmod.datetime

    class Meta(type):
        def __instancecheck__(cls, obj):
            return isinstance(obj, real_dt)

    class SimDatetime(real_dt, metaclass=Meta):
        @classmethod
        def now(cls, tz=None):
            s = fs.SIM
            if s is None or s.proc is None:
                return real_dt.now(tz)
            return real_dt.fromtimestamp(s.local_time(), tz)

        @classmethod
        def utcnow(cls):
            s = fs.SIM
            if s is None or s.proc is None:
                return real_dt.utcnow()
            return real_dt.utcfromtimestamp(s.local_time())

        @classmethod
        def today(cls):
            return cls.now()
    SimDatetime.__name__ = 'datetime'
    dtmod.datetime = SimDatetime
    sys.path.insert(0, REPO)
    if threads:
        from . import weave
        weave.install(REPO)
    import resync
    if not os.path.realpath(resync.__file__).startswith(REPO + '/'):
        raise RuntimeError('resync does not come from %s' % REPO)
    import warnings
    warnings.simplefilter('ignore')
    for name in ('client', 'client_state', 'client_utils', 'dump', 'explorer', 'mapper', 'resource',
                 'resource_list', 'resource_list_builder', 'change_list', 'capability_list',
                 'source_description', 'url_or_file_open', 'url_authority', 'sitemap', 'hashes',
                 'w3c_datetime', 'resource_dump', 'change_dump', 'archives', 'list_base',
                 'list_base_with_index', 'resource_container', 'resource_set',
                 'resource_dump_manifest', 'change_dump_manifest'):
        importlib.import_module('resync.' + name)
    for name, mod in sorted(sys.modules.items()):
        if name == 'resync' or name.startswith('resync.'):
            _snapshots[name] = _snapshot(vars(mod))
            for v in list(vars(mod).values()):
                _remember(v, name)
    logging.raiseExceptions = False
    logging.lastResort = None
    gc.disable()


_SIMPLE = (int, float, str, bytes, tuple, list, dict, set, frozenset, collections.deque, type(None))
_MUTABLE = (list, dict, set, collections.deque)
_class_state = {}      # class -> its attributes that can hold state
_function_state = {}   # function -> (its defaults, its attributes)
_objects = {}          # id -> (object of the code under test kept by a module or class, its state)
_caches = []           # functools caches


def _snapshot(d):
    return {k: copy.deepcopy(v) for k, v in list(d.items())
            if not k.startswith('__') and isinstance(v, _SIMPLE)}


def _remember(v, module, depth=0):
    """Note the state that classes and functions of a module keep."""
    if hasattr(v, 'cache_clear') and v not in _caches:
        _caches.append(v)
    v = getattr(v, '__wrapped__', v)
    if isinstance(v, (staticmethod, classmethod)):
        v = v.__func__
    if isinstance(v, property):
        for f in (v.fget, v.fset):
            if f is not None:
                _remember(f, module, depth)
    elif isinstance(v, type):
        if v.__module__ == module and v not in _class_state and depth < 3:
            _class_state[v] = _snapshot(vars(v))
            for a in list(vars(v).values()):
                _remember(a, module, depth + 1)
    elif type(v).__module__.split('.')[0] == 'resync' and hasattr(v, '__dict__'):
        _objects[id(v)] = (v, _snapshot(vars(v)))
    elif isinstance(v, types.FunctionType) and v.__module__ == module and v not in _function_state:
        _function_state[v] = (copy.deepcopy(v.__defaults__) if any(
            isinstance(x, _MUTABLE) for x in v.__defaults__ or ()) else None, _snapshot(vars(v)))


def _restore(d, snap, put, drop):
    for k in [k for k, v in list(d.items())
              if k not in snap and not k.startswith('__') and isinstance(v, _SIMPLE)]:
        drop(k)
    for k, v in snap.items():
        cur = d.get(k)
        if cur is v or (type(cur) is type(v) and not isinstance(v, _MUTABLE) and cur == v):
            continue
        if isinstance(v, dict) and type(cur) is dict:
            if cur != v:
                cur.clear()
                cur.update(copy.deepcopy(v))
        elif type(cur) is not type(v) or cur != v:
            put(k, copy.deepcopy(v))


def repo_file(fn):
    return fn.startswith(REPO + '/')


def reset_modules():
    """Give the next simulated process freshly loaded module state."""
    for name, snap in _snapshots.items():
        d = vars(sys.modules[name])
        _restore(d, snap, d.__setitem__, d.__delitem__)
    for cls, snap in _class_state.items():
        _restore(vars(cls), snap, lambda k, v: setattr(cls, k, v), lambda k: delattr(cls, k))
    for fn, (defaults, snap) in _function_state.items():
        if defaults is not None:
            fn.__defaults__ = copy.deepcopy(defaults)
        d = vars(fn)
        if d or snap:
            _restore(d, snap, d.__setitem__, d.__delitem__)
    for obj, snap in _objects.values():
        d = vars(obj)
        _restore(d, snap, d.__setitem__, d.__delitem__)
    for c in _caches:
        c.cache_clear()
    try:
        import distutils.dir_util as du
        if hasattr(du, '_path_created'):
            pc = du._path_created
            pc.clear()
    except Exception:
        pass
    root = logging.getLogger()
    names = ['', 'resync', 'client'] + [n for n in logging.root.manager.loggerDict
                                        if n.startswith('resync') or n.startswith('client')]
    for n in names:
        lg = logging.getLogger(n) if n else root
        for h in list(lg.handlers):
            lg.removeHandler(h)
            try:
                h.close()
            except Exception:
                pass
        lg.setLevel(logging.NOTSET)
        lg.disabled = False
        lg.propagate = True
    random.seed(12345)


def close_logs():
    """What logging.shutdown() does at the end of a process."""
    seen = []
    for n in ['resync', 'client'] + sorted(n for n in logging.root.manager.loggerDict if n.startswith('resync.')):
        for h in logging.getLogger(n).handlers:
            if isinstance(h, logging.FileHandler) and h not in seen:
                seen.append(h)
                try:
                    h.flush()
                    h.close()
                except (OSError, ValueError, SimCrash, SimHang, KeyboardInterrupt):
                    pass


class Capture(logging.Handler):
    def __init__(self, sim):
        logging.Handler.__init__(self, level=logging.DEBUG)
        self.sim = sim
        self.records = []

    def emit(self, record):
        try:
            msg = record.getMessage()
        except Exception as e:
            msg = 'unformattable %r (%s)' % (record.msg, e)
        self.records.append((record.levelno, record.name, msg))
        self.sim.event('log', msg)


class Outcome(object):
    """What became of one simulated process."""

    def __init__(self):
        self.kind = None        # ok, error, exit, crash, hang
        self.exc = None         # class name
        self.msg = ''
        self.value = None
        self.code = None
        self.log = []
        self.stdout = ''
        self.stderr = ''
        self.where = ''
        self.effects = []
        self.t0 = self.t1 = 0.0

    @property
    def ok(self):
        return self.kind == 'ok'

    def messages(self, level=0):
        return [m for (lv, n, m) in self.log if lv >= level]

    def has(self, text, level=0):
        return any(text in m for m in self.messages(level))

    def statuses(self):
        return [m for m in self.messages() if m.startswith('Status:')]

    def brief(self):
        s = self.kind
        if self.exc:
            s += ' %s: %s' % (self.exc, self.msg[:300])
        return s

    def __repr__(self):
        return '<Outcome %s>' % self.brief()


class World(object):
    """Scratch directory, simulator and network of one execution."""

    CUR = None

    def __init__(self, sim):
        self.sim = sim
        base = '/dev/shm' if os.path.isdir('/dev/shm') and os.access('/dev/shm', os.W_OK) else '/tmp'
        self.base = base
        self.root = '%s/rssim-%07d-%s' % (base, fs._real['getpid']() % 10000000, 'r')
        if os.path.lexists(self.root):
            self.wipe()
        fs._real['mkdir'](self.root)
        sim.root = self.root
        sim.sleeps = []
        sim.rng_urandom = random.Random('urandom')
        fs.SIM = sim
        self.net = net.Net(sim)
        net.NET = self.net
        self.cwd = self.root + '/cwd'
        fs._real['mkdir'](self.cwd)
        fs._real['mkdir'](self.root + '/tmp')
        tempfile.tempdir = self.root + '/tmp'
        tempfile._name_sequence = None
        self._oldcwd = os.getcwd()
        fs._real['chdir'](self.cwd)
        sim.classify = self.classify
        self.harness_errors = []
        self.dirs = {}              # class name -> directory
        self.zone = sim.choose('zone', 'UTC', lambda rng: draw_zone(sim.seed))
        if self.zone != 'UTC':
            sim.probe('zone:not-UTC')
        self.encoding = sim.choose('encoding', 'utf-8', lambda rng: draw_encoding(sim.seed))
        if self.encoding != 'utf-8':
            sim.probe('locale:not-UTF-8')
        World.CUR = self

    def classify(self, path):
        for name, d in self.dirs.items():
            if path == d or path.startswith(d + '/'):
                return name
        if path.startswith(self.cwd + '/'):
            return 'state'
        return 'other'

    def p(self, *parts):
        return os.path.join(self.root, *parts)

    def wipe(self):
        # root is an absolute path that this class made itself
        def onerror(fn, path, exc):
            try:
                os.chmod(os.path.dirname(path), 0o700)
                os.chmod(path, 0o700)
                fn(path)
            except OSError:
                pass
        assert self.root.startswith(self.base + '/rssim-')
        saved, fs.SIM = fs.SIM, None
        try:
            shutil.rmtree(self.root, onerror=onerror)
        finally:
            fs.SIM = saved

    def close(self):
        fs.SIM = None
        net.NET = None
        World.CUR = None
        tempfile.tempdir = None
        fs._real['chdir']('/')
        self.wipe()

    # -- running simulated processes ---------------------------------------

    def run(self, op, fn, skew=0.0, crash_at=None, crash_mode='before', fs_cfg=None, net_cfg=None,
            jumps=(), reset=True, max_points=None, max_faults=None):
        """Run fn() as one simulated process, return its Outcome."""
        sim = self.sim
        sim.op = op
        sim.nproc += 1
        sim.pid += 1
        p = Proc(sim.pid, skew, crash_at, crash_mode, dict(fs_cfg or {}), dict(net_cfg or {}))
        p.jumps = list(jumps)
        if max_points:
            p.max_points = max_points
        if max_faults is not None:
            p.faults_left = max_faults
        if reset:
            reset_modules()
        tempfile._name_sequence = iter('t%07d' % i for i in range(100000))
        cap = Capture(sim)
        root = logging.getLogger('resync')
        root.addHandler(cap)
        root.setLevel(logging.DEBUG)
        cl = logging.getLogger('client')
        cl.setLevel(logging.DEBUG)
        o = Outcome()
        o.op = op
        o.t0 = sim.now
        out, err = io.StringIO(), io.StringIO()
        saved = (sys.stdout, sys.stderr)
        sim.event('START', op)
        sim.encoding = self.encoding
        if self.encoding != 'utf-8':
            # a user's shell and a cron job need not have the same locale
            sim.encoding = sim.choose('locale', self.encoding, lambda rng: random.Random(
                'locale %s %d' % (sim.seed, sim.nproc)).choice((self.encoding, self.encoding, 'utf-8')))
        sys.stdout, sys.stderr = out, err
        if self.zone != 'UTC':
            set_zone(self.zone)
        sim.proc = p
        try:
            try:
                o.value = fn()
                o.kind = 'ok'
            except SimCrash:
                o.kind = 'crash'
            except KeyboardInterrupt:
                o.kind = 'crash'
                o.msg = 'interrupted'
            except SimHang as e:
                o.kind = 'hang'
                o.msg = str(e)
            except Watchdog:
                raise
            except Violation:
                raise
            except SystemExit as e:
                o.kind = 'exit'
                o.code = e.code
                o.msg = str(e.code)
            except RecursionError as e:
                o.kind = 'error'
                o.exc = 'RecursionError'
                o.msg = 'recursion'
            except Exception as e:
                o.kind = 'error'
                o.exc = type(e).__name__
                try:
                    o.msg = str(e)
                except Exception:
                    o.msg = '?'
                tb = traceback.extract_tb(e.__traceback__)
                o.where = ['%s:%s' % (f.filename.split('/')[-1], f.name) for f in tb]
                o.in_repo = any(repo_file(f.filename) for f in tb)
                e.__traceback__ = None
                del e, tb
            if not p.dead and o.msg != 'interrupted':
                close_logs()
            if p.dead and o.kind not in ('crash', 'hang'):   # not set otherwise
                # the code swallowed its own death; it counts as dead all the same
                o.kind = 'crash'
        finally:
            p.dead = True
            sim.proc = None
            if self.zone != 'UTC':
                set_zone('UTC')
            sys.stdout, sys.stderr = saved
            root.removeHandler(cap)
        o.log = cap.records
        o.stdout = out.getvalue()
        o.stderr = err.getvalue()
        o.effects = p.effects
        o.muts = p.muts
        o.points = p.points
        o.t1 = sim.now
        sim.event('END', '%s %s %s' % (o.kind, o.exc, o.msg[:200]))
        if o.stdout:
            sim.event('stdout', o.stdout[:2000])
        return o

    def cli(self, op, script, args, stdin=None, **kw):
        """Run one of the command line scripts as a simulated process."""
        mod = load_script(script)

        def fn():
            saved = sys.argv
            sys.argv = [script] + list(args)
            saved_input = builtins.input
            if stdin is not None:
                builtins.input = stdin
            try:
                mod.main()
            finally:
                sys.argv = saved
                builtins.input = saved_input
        o = self.run(op, fn, **kw)
        # The scripts report fatal errors on stderr and exit with 0
        if o.kind == 'ok' and 'FatalError:' in o.stderr:
            o.kind = 'error'
            o.exc = 'ClientFatalError'
            o.msg = o.stderr.split('FatalError:', 1)[1].strip()
            o.in_repo = True
        return o


def load_script(script):
    if script not in _scripts:
        path = os.path.join(REPO, script)
        name = 'script_' + script.replace('-', '_')
        loader = importlib.machinery.SourceFileLoader(name, path)
        spec = importlib.util.spec_from_loader(name, loader)
        mod = importlib.util.module_from_spec(spec)
        saved, fs.SIM = fs.SIM, None
        try:
            loader.exec_module(mod)
        finally:
            fs.SIM = saved
        _scripts[script] = mod
    return _scripts[script]
