"""Runs a check: many seeds over several processes, evidence, minimisation, replay."""

import collections
import gc
import hashlib
import importlib
import json
import os
import random
import signal
import subprocess
import sys
import time
import traceback

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
_time = time.time
PYTHON = '/opt/venv/bin/python' if os.path.exists('/opt/venv/bin/python') else sys.executable
CPU_LIMIT = 25.0


def load(prop):
    return importlib.import_module('props.' + prop.lower())


def seed_for(base, prop, i):
    h = hashlib.sha256(('%s/%s/%d' % (base, prop, i)).encode()).digest()
    return int.from_bytes(h[:8], 'big')


def jsonable(x):
    return json.loads(json.dumps(x))


def run_one(mod, seed, plan=None, decisions=None, keep_log=False, tier='quick'):
    """One execution. Returns a dict describing it."""
    from . import env, fs
    from .core import Sim, Violation, Watchdog
    env.install(getattr(mod, 'THREADS', False))
    if plan is None:
        plan = jsonable(mod.plan(random.Random(seed), tier))
    sim = Sim(seed ^ 0x5deece66d, decisions=decisions, keep_log=keep_log,
              t0=float(plan.get('t0', 1600000000.0)))
    world = env.World(sim)
    res = {'seed': seed, 'plan': plan, 'violation': None, 'error': None}
    fired = []

    def on_alarm(signum, frame):
        fired.append(1)
        raise Watchdog()
    old = signal.signal(signal.SIGPROF, on_alarm)
    signal.setitimer(signal.ITIMER_PROF, CPU_LIMIT)
    try:
        try:
            mod.execute(world, plan)
        except Violation as e:
            res['violation'] = str(e)
        except Watchdog:
            res['violation'] = 'no progress: more than %d s of CPU time without an end' % CPU_LIMIT
        except Exception as e:
            tb = traceback.extract_tb(e.__traceback__)
            text = traceback.format_exc()
            if tb and env.repo_file(tb[-1].filename) or any(env.repo_file(f.filename) for f in tb):
                res['violation'] = 'unexpected exception %s: %s at %s' % (
                    type(e).__name__, str(e)[:200], [f.name for f in tb if env.repo_file(f.filename)][-1])
                res['tb'] = text
            else:
                res['error'] = text
        if sim.violations:
            res['violation'], res['error'] = sim.violations[0], None
        bad = world.harness_errors + sim.hook_errors
        if bad:
            res['error'] = bad[0]
            res['violation'] = None
    finally:
        signal.setitimer(signal.ITIMER_PROF, 0)
        signal.signal(signal.SIGPROF, old)
        sim.proc = None
        world.close()
    res['violation'] = res['violation'] and res['violation'].replace(world.root, '$R')
    if res['violation']:
        sim.event('VIOLATION', res['violation'])
    res['digest'] = sim.hash.hexdigest()
    res['shape'] = sim.shape.hexdigest()
    res['faults'] = dict(sim.faults)
    res['probes'] = dict(sim.probes)
    res['events'] = sim.events
    res['procs'] = sim.nproc
    res['sim_s'] = sim.now - sim.t0
    res['decisions'] = {k: v for k, v in sim.decisions.items()
                        if not sim.replay or k in sim.used}
    res['nontrivial'] = bool(getattr(world, 'nontrivial', False) or sim.faults)
    res['log'] = list(sim.log)
    return res


# -- worker ---------------------------------------------------------------------

def worker(prop, tier, base, start, step, count, deadline, out):
    mod = load(prop)
    agg = {'runs': 0, 'events': 0, 'procs': 0, 'sim_s': 0.0, 'faults': collections.Counter(),
           'probes': collections.Counter(), 'shapes': [], 'samples': [], 'violation': None,
           'error': None, 'rerun': 0, 'mismatch': []}
    shapes = set()
    k = 0
    for i in range(start, count, step):
        if _time() > deadline:
            break
        seed = seed_for(base, prop, i)
        r = run_one(mod, seed, tier=tier)
        agg['runs'] += 1
        agg['events'] += r['events']
        agg['procs'] += r['procs']
        agg['sim_s'] += r['sim_s']
        agg['faults'].update(r['faults'])
        agg['probes'].update(r['probes'])
        if r['nontrivial']:
            shapes.add(r['shape'])
        if r['error']:
            agg['error'] = {'index': i, 'seed': seed, 'text': r['error']}
            break
        if r['violation']:
            agg['violation'] = {'index': i, 'seed': seed, 'plan': r['plan'],
                                'decisions': r['decisions'], 'message': r['violation'],
                                'digest': r['digest']}
            break
        if k < 2:
            agg['samples'].append({'seed': seed, 'plan': r['plan'], 'decisions': r['decisions'],
                                   'faults': r['faults'], 'digest': r['digest']})
        if k < 4 or k % 97 == 0:
            # the same seed again, and from its recorded decisions
            r2 = run_one(mod, seed, tier=tier)
            r3 = run_one(mod, seed, plan=r['plan'], decisions=r['decisions'])
            agg['rerun'] += 2
            for x in (r2, r3):
                if x['digest'] != r['digest']:
                    agg['mismatch'].append(i)
        k += 1
        if k % 50 == 0:
            gc.collect()
    agg['shapes'] = sorted(shapes)
    agg['faults'] = dict(agg['faults'])
    agg['probes'] = dict(agg['probes'])
    with open(out + '.tmp', 'w') as f:
        json.dump(agg, f)
    os.replace(out + '.tmp', out)


# -- minimisation -----------------------------------------------------------------

def signature(msg):
    """Violation class: the message up to the first colon, without numbers."""
    return msg.split(':', 1)[0]


class Minimiser(object):
    def __init__(self, mod, v, budget=60.0):
        self.mod = mod
        self.v = v
        self.end = _time() + budget
        self.sig = signature(v['message'])
        self.tests = 0

    def fails(self, plan, decisions):
        if _time() > self.end:
            return None
        self.tests += 1
        if self.tests % 20 == 0:
            gc.collect()
        try:
            r = run_one(self.mod, self.v['seed'], plan=jsonable(plan), decisions=decisions)
        except Exception:
            return None
        if r['violation'] and signature(r['violation']) == self.sig:
            return r
        return None

    def ddmin(self, items, test):
        n = 2
        items = list(items)
        while len(items) >= 1 and _time() < self.end:
            size = max(1, len(items) // n)
            reduced = False
            for i in range(0, len(items), size):
                rest = items[:i] + items[i + size:]
                if test(rest):
                    items = rest
                    n = max(2, n - 1)
                    reduced = True
                    break
            if not reduced:
                if size == 1:
                    break
                n = min(len(items), n * 2)
        return items

    def go(self):
        plan, dec = self.v['plan'], self.v['decisions']
        best = self.fails(plan, dec)
        if best is None:
            return None
        cur = {'plan': plan, 'dec': best['decisions']}
        for _ in range(2):
            for key in getattr(self.mod, 'LISTS', ('ops',)):
                if not isinstance(cur['plan'].get(key), list) or not cur['plan'][key]:
                    continue

                def test(items):
                    p = dict(cur['plan'])
                    p[key] = items
                    r = self.fails(p, cur['dec'])
                    return r is not None
                p = dict(cur['plan'])
                p[key] = self.ddmin(cur['plan'][key], test)
                cur['plan'] = p

            def testd(keys):
                return self.fails(cur['plan'], {k: cur['dec'][k] for k in keys}) is not None
            keys = self.ddmin(sorted(cur['dec']), testd)
            cur['dec'] = {k: cur['dec'][k] for k in keys}
            # simplify single settings of the plan
            for (k, simple) in getattr(self.mod, 'SIMPLE', ()):
                if cur['plan'].get(k) != simple:
                    p = dict(cur['plan'])
                    p[k] = simple
                    if self.fails(p, cur['dec']):
                        cur['plan'] = p
        self.end = _time() + 60
        r = self.fails(cur['plan'], cur['dec'])
        if r is None:
            return None
        return cur['plan'], r['decisions']


def write_replay(mod, prop, v, path):
    r = run_one(mod, v['seed'], plan=v['plan'], decisions=v['decisions'], keep_log=True)
    if not r['violation']:
        return None
    doc = {'property': prop, 'seed': v['seed'], 'index': v.get('index'),
           'violation': r['violation'], 'digest': r['digest'], 'minimised': v.get('minimised', False),
           'plan': v['plan'], 'decisions': r['decisions'], 'faults': r['faults'],
           'trace': r['log'][-400:], 'traceback': r.get('tb'),
           'howto': 'cd /verif && ./replay %s' % os.path.relpath(path, VERIF)}
    with open(path, 'w') as f:
        json.dump(doc, f, indent=1)
        f.write('\n')
    return doc


def do_minimise(prop, vfile, path, budget):
    mod = load(prop)
    with open(vfile) as f:
        v = json.load(f)
    m = Minimiser(mod, v, budget)
    got = m.go()
    if got:
        v2 = dict(v, plan=got[0], decisions=got[1], minimised=True)
        if write_replay(mod, prop, v2, path):
            return 0
    if write_replay(mod, prop, v, path):
        return 0
    return 3


def do_replay(path, verbose=True):
    with open(path) as f:
        doc = json.load(f)
    mod = load(doc['property'])
    r = run_one(mod, doc['seed'], plan=doc['plan'], decisions=doc['decisions'], keep_log=True)
    if r['error']:
        print(r['error'])
        return 2
    if verbose:
        for line in r['log'][-200:]:
            print(line)
    if not r['violation']:
        if verbose:
            print('replay: no violation (digest %s, recorded %s)' % (r['digest'], doc['digest']))
        return 0
    same = r['digest'] == doc['digest'] and r['violation'] == doc['violation']
    if not verbose:
        return 1 if same else 4
    print('replay: %s' % r['violation'])
    print('replay: execution %s' % ('identical' if same else 'DIFFERS from the recorded one'))
    print('VIOLATION property=%s replay=%s' % (doc['property'], path))
    return 1 if same else 4


# -- parent -------------------------------------------------------------------------

def child_env():
    e = dict(os.environ)
    e.update(PYTHONDONTWRITEBYTECODE='1', PYTHONHASHSEED='0', TZ='UTC', LC_ALL='C.UTF-8',
             PYTHONPATH=VERIF, no_proxy='*', NO_PROXY='*', PYTHONWARNINGS='ignore')
    return e


def spawn(args):
    return subprocess.Popen([PYTHON, '-B', os.path.join(VERIF, 'check.py')] + [str(a) for a in args],
                            env=child_env(), cwd='/')


def findings_of(prop):
    out = []
    path = os.path.join(VERIF, 'known_findings.jsonl')
    if os.path.exists(path):
        with open(path) as f:
            for line in f:
                line = line.strip()
                if line.startswith('{'):
                    d = json.loads(line)
                    if d.get('property') == prop and d.get('status') == 'known':
                        out.append(d)
    return out


def check(prop, tier, base):
    t0 = _time()
    mod = load(prop)
    b = mod.BUDGET[tier]
    count, wall = b['runs'], b['wall']
    workers = min(int(os.environ.get('VERIF_WORKERS', '0')) or os.cpu_count() or 4, 8)
    outdir = os.path.join(VERIF, 'evidence', 'work')
    os.makedirs(outdir, exist_ok=True)
    tag = '%s-%d' % (prop, os.getpid())
    rdir = os.path.join(VERIF, 'evidence', 'replays')
    if os.path.isdir(rdir):
        for f in os.listdir(rdir):
            if f.startswith(prop + '-'):
                os.unlink(os.path.join(rdir, f))
    outs = [os.path.join(outdir, '%s-%d.json' % (tag, w)) for w in range(workers)]
    deadline = t0 + wall
    procs = [spawn(['worker', prop, tier, base, w, workers, count, deadline, outs[w]])
             for w in range(workers)]
    hard = deadline + 90
    status = [None] * workers
    while any(s is None for s in status):
        for w, p in enumerate(procs):
            if status[w] is None and p.poll() is not None:
                status[w] = p.returncode
        done = [w for w in range(workers) if status[w] is not None and os.path.exists(outs[w])]
        bad = False
        for w in done:
            with open(outs[w]) as f:
                a = json.load(f)
            if a['violation'] or a['error']:
                bad = True
        if bad and hard > _time() + 20:
            hard = _time() + 10      # let the others finish what they are doing, briefly
        if _time() > hard:
            for w, p in enumerate(procs):
                if status[w] is None:
                    p.kill()
                    p.wait()
                    status[w] = -9
        time.sleep(0.05)
    aggs = []
    for o in outs:
        if os.path.exists(o):
            with open(o) as f:
                aggs.append(json.load(f))
            os.unlink(o)
    rc = 0
    viols = sorted([a['violation'] for a in aggs if a['violation']], key=lambda v: v['index'])
    errors = [a['error'] for a in aggs if a['error']]
    lost = [w for w in range(workers) if status[w] not in (0,)]
    known = []
    # deterministic scenarios of the recorded findings
    for d in findings_of(prop):
        plan = mod.FINDINGS[d['scenario']]
        r = run_one(mod, 1, plan=jsonable(plan), decisions={})
        if r['error']:
            errors.append({'index': -1, 'seed': 1, 'text': r['error']})
        elif r['violation'] and r['violation'].startswith(d['violation']):
            known.append(d)
            print('KNOWN-FINDING: property=%s %s' % (prop, d['what']))
        elif r['violation']:
            viols.insert(0, {'index': -1, 'seed': 1, 'plan': jsonable(plan), 'decisions': r['decisions'],
                             'message': r['violation'], 'digest': r['digest']})
    # fixed scenarios: regression plans that must hold
    regress = getattr(mod, 'SCENARIOS', {})
    for name in sorted(regress):
        r = run_one(mod, 1, plan=jsonable(regress[name]), decisions={})
        if r['error']:
            errors.append({'index': -1, 'seed': 1, 'text': r['error']})
        elif r['violation']:
            viols.insert(0, {'index': -1, 'seed': 1, 'plan': jsonable(regress[name]),
                             'decisions': r['decisions'], 'message': r['violation'],
                             'digest': r['digest']})
    if viols:
        v = viols[0]
        vfile = os.path.join(outdir, tag + '-v.json')
        with open(vfile, 'w') as f:
            json.dump(v, f)
        rdir = os.path.join(VERIF, 'evidence', 'replays')
        os.makedirs(rdir, exist_ok=True)
        path = os.path.join(rdir, '%s-%s.json' % (prop, v['digest'][:10]))
        p = spawn(['minimise', prop, vfile, path, b.get('minimise', 45)])
        try:
            prc = p.wait(timeout=300)
        except subprocess.TimeoutExpired:
            p.kill()
            p.wait()
            prc = 3
        if prc != 0:
            # a run that uses up its CPU limit is too slow to minimise: keep as it is
            write_replay(mod, prop, v, path)
        os.unlink(vfile)
        p = spawn(['replay-quiet', path])
        try:
            prc = p.wait(timeout=300)
        except subprocess.TimeoutExpired:
            p.kill()
            p.wait()
            prc = 5
        with open(path) as f:
            doc = json.load(f)
        print('violation of %s: %s' % (prop, doc['violation']))
        print('  found at run %d (seed %d); %d decisions, plan minimised: %s'
              % (v['index'], v['seed'], len(doc['decisions']), doc['minimised']))
        if prc == 1:
            print('VIOLATION property=%s replay=%s' % (prop, path))
            rc = 1
        else:
            print('ERROR: the recorded violation does not replay identically (%d)' % prc)
            rc = 3
    elif errors:
        print('ERROR in the harness at run %s (seed %s):\n%s'
              % (errors[0]['index'], errors[0]['seed'], errors[0]['text']))
        rc = 2
    elif lost:
        print('ERROR: workers %s ended without a result (%s)' % (lost, [status[w] for w in lost]))
        rc = 2
    mism = sum((a['mismatch'] for a in aggs), [])
    if mism and rc == 0:
        print('ERROR: runs %s are not repeatable' % mism[:5])
        rc = 2
    shapes = set()
    for a in aggs:
        shapes.update(a['shapes'])
    faults, probes = collections.Counter(), collections.Counter()
    for a in aggs:
        faults.update(a['faults'])
        probes.update(a['probes'])
    runs = sum(a['runs'] for a in aggs)
    wall_s = _time() - t0
    ev = {'property': prop, 'tier': tier, 'seed': int(base), 'level': 'exploration',
          'coverage': {
              'evaluations': runs,
              'distinct_nontrivial': len(shapes),
              'rule': mod.RULE,
              'samples': [a['samples'][0] for a in aggs if a['samples']][:3],
              'runs_planned': count,
              'runs_per_hour': int(runs / wall_s * 3600) if wall_s else 0,
              'seeds_per_hour': int(runs / wall_s * 3600) if wall_s else 0,
              'simulated_seconds': round(sum(a['sim_s'] for a in aggs), 1),
              'simulated_processes': sum(a['procs'] for a in aggs),
              'seam_events': sum(a['events'] for a in aggs),
              'faults_injected': dict(sorted(faults.items())),
              'probes': dict(sorted(probes.items())),
              'distinct_measure': 'digest of the complete sequence of seam events, faults and log '
                                  'messages of a run, without times',
              'reruns_compared': sum(a['rerun'] for a in aggs),
              'rerun_mismatches': len(mism),
              'fixed_scenarios': sorted(regress) + sorted(d['scenario'] for d in findings_of(prop)),
              'real_code': getattr(mod, 'REAL', ''),
              'stubs': getattr(mod, 'STUBS', ''),
          },
          'assumptions': list(getattr(mod, 'ASSUMPTIONS', ())),
          'wall_s': round(wall_s, 2), 'violations': len(viols)}
    path = os.path.join(VERIF, 'evidence', prop + '.json')
    with open(path + '.tmp', 'w') as f:
        json.dump(ev, f, indent=1, default=str)
        f.write('\n')
    os.replace(path + '.tmp', path)
    print('%s %s: %d runs, %d distinct, %d faults, %.0f simulated s, %.1f s, exit %d'
          % (prop, tier, runs, len(shapes), sum(faults.values()),
             sum(a['sim_s'] for a in aggs), wall_s, rc))
    return rc


def smoke():
    """A few runs of every check, each twice: they must start and repeat exactly."""
    bad = 0
    for f in sorted(os.listdir(os.path.join(VERIF, 'props'))):
        if not f.startswith('c') or not f.endswith('.py'):
            continue
        prop = f[:-3].upper()
        mod = load(prop)
        for i in range(2):
            seed = seed_for('smoke', prop, i)
            a = run_one(mod, seed)
            b = run_one(mod, seed, plan=a['plan'], decisions=a['decisions'])
            if a['error'] or a['digest'] != b['digest']:
                bad += 1
                print('%s: %s' % (prop, a['error'] or 'run %d is not repeatable' % i))
    print('smoke: %d problems' % bad)
    return 0
