"""C06: recorded sync state survives crashes and is kept per site."""

import os

from sim.core import Violation
from sim.fs import write_file

BUDGET = {'quick': {'runs': 12000, 'wall': 100}, 'thorough': {'runs': 600000, 'wall': 1500}}
RULE = ('one run is a history of recordings, removals and reads of timestamps of several sites by successive '
        'processes, with crashes (before, after, inside every mutating call), Ctrl-C, disk errors, full disks, short '
        'writes, and other processes that read or write at any point in between; non-trivial if something was recorded')
LISTS = ('steps',)
REAL = 'resync.client_state, configparser'
STUBS = 'faults of the file system below the real calls, clock, process numbers'
ASSUMPTIONS = ('a killed process loses what it had not yet written; what was written survives (no power failure)',
               'sites whose names differ in punctuation or letter case only share an entry (known finding); generated '
               'histories have no such sites',
               'values of several writers at the same time may overwrite each other (known finding); even then each '
               'value that is read must be one that was recorded for this site')
NAME = '.resync-client-status.cfg'
SITES = ['http://example.org/resourcelist.xml', 'http://example.org/a/resourcelist.xml',
         'http://example.org/a/b/resourcelist.xml', 'http://example.com/resourcelist.xml',
         'https://www.example.org:8080/x?y=1&z=%20', '/local/path/resourcelist.xml', 'x', 'http://example.org/a2',
         'http://b\u00fccher.example/liste.xml', 'relative/list.xml', 'http://example.org/' + 'long/' * 60,
         '[section]', '# comment', 'key = value', 'DEFAULT', 'incremental', '%(x)s', 'a: b', '1',
         'http://example.org/long/' + 'long/' * 60 + 'x', 'http://example.org/' + 'long/' * 60 + 'y',
         'http://example.org/data/sets/of/2020/resourcelist.xml', 'http://example.org/data/sets/of/2021/resourcelist.xml',
         'http://example.org/data/sets/of/2021/resourcelist.xml2', 'https://example.org/resourcelist.xml']
GENERATED = len(SITES)
# for the scenario same_name only
SITES += ['http://example.org/a-b/resourcelist.xml', 'http://example.org/a_b/resourcelist.xml']


def gen_ts(rng):
    r = rng.random()
    if r < 0.3:
        return rng.randrange(0, 2 * 10 ** 9)
    if r < 0.5:
        return rng.randrange(0, 2 * 10 ** 9) + rng.choice([0.5, 0.1, 0.123456, 0.999999, 0.000001, 0.3])
    if r < 0.7:
        return rng.random() * 10 ** rng.randrange(-6, 11)
    if r < 0.8:
        return 1600000000.0 + rng.randrange(0, 10 ** 6) / 1e6
    return rng.choice([0, 0.0, 1, -1.5, 1e-7, 253402300799.999999, 1e16, 1e22, 123456789012345.6, -86400])


def plan(rng, tier):
    sites = rng.sample(range(GENERATED), rng.choice([1, 2, 3, 5, 8]))
    steps = []
    for _ in range(rng.choice([1, 2, 4, 6, 10])):
        r = rng.random()
        s = rng.choice(sites)
        if r < 0.7:
            st = ['set', s, gen_ts(rng)]
        elif r < 0.85:
            st = ['set', s, None]
        else:
            st = ['get', s, None]
        f = {}
        if rng.random() < 0.6:
            k = rng.random()
            if k < 0.5:
                f['crash_at'] = rng.randrange(1, 7)
                f['mode'] = rng.choice(['before', 'after', 'torn', 'sigint'])
            if k > 0.4:
                f['fs'] = {'p': rng.choice([0.05, 0.2, 0.5]), 'short': rng.random() < 0.4,
                           'sticky_full': rng.random() < 0.3}
                if rng.random() < 0.5:
                    f['fs']['calls'] = rng.choice([['write'], ['close'], ['replace', 'rename'], ['openw'],
                                                   ['write', 'close', 'openw', 'replace', 'unlink', 'truncate'],
                                                   ['open', 'read', 'stat']])
        if rng.random() < 0.3:
            # another process does something at one point
            f['other'] = [rng.randrange(1, 12), rng.choice(['read', 'read', 'write']), rng.choice(sites),
                          rng.choice([None, gen_ts(rng), gen_ts(rng)])]
        steps.append(st + [f])
    return {'sites': sites, 'steps': steps, 'start': rng.choice([0, 0, 0, 1, 2, 3])}


def state():
    from resync.client_state import ClientState
    return ClientState()


def same(a, b):
    if a is None or b is None:
        return a is b
    return isinstance(a, (int, float)) and a == b


def execute(world, plan):
    sim = world.sim
    sites = [SITES[i] for i in plan['sites']]
    vals = {s: [None] for s in sites}       # what can be there
    if plan['start'] == 1:
        write_file(world.cwd + '/' + NAME, b'', 1e9)
    elif plan['start'] == 2:
        write_file(world.cwd + '/' + NAME, b'# made by hand\n[incremental]\nother_site = 12.5\n\n[more]\nx = 1\n', 1e9)
        vals['other-site'] = [12.5]
    elif plan['start'] == 3:
        write_file(world.cwd + '/' + NAME, b'[incremental]\nother_site = 1e3\n', 1e9)
        vals['other-site'] = [1000.0]
    n = 0
    weak = False            # several writers were there at the same time
    everset = {s: [None] + list(v) for s, v in vals.items()}
    for step in plan['steps']:
        kind, si, ts, f = step
        site = SITES[si]
        n += 1
        op = '%s%d' % (kind, n)
        kw = {}
        if f.get('crash_at'):
            kw = {'crash_at': f['crash_at'], 'crash_mode': f['mode']}
        if f.get('fs'):
            kw['fs_cfg'] = f['fs']
        if kind == 'set':
            everset[site].append(ts)
        hook_state = {'n': 0, 'ran': False}
        other = f.get('other')
        olds = {s: list(v) for s, v in vals.items()}
        if other:
            o_site = SITES[other[2]]

            def hook(sim, k, detail):
                hook_state['n'] += 1
                if hook_state['n'] != other[0]:
                    return
                hook_state['ran'] = True
                if other[1] == 'read':
                    sim.probe('read_during')
                    for s in vals:
                        got = quiet_get(world, s)
                        ok = list(olds[s]) if not weak else list(everset[s])
                        if kind == 'set' and s == site:
                            ok.append(ts)
                        if not any(same(got, v) for v in ok):
                            raise Violation('reader: %r has %r while %r is set to %r, expected one of %r'
                                            % (s, got, site, ts, ok))
                else:
                    sim.fault('second_writer')
                    everset[o_site].append(other[3])
                    if plan.get('strict'):
                        vals[o_site] = [other[3]]
                    try:
                        state().set_state(o_site, other[3])
                    except Exception as e:
                        raise Violation('writer: a second process cannot write: %s: %s' % (type(e).__name__, e))
            sim.on_point = hook
        there, nl = set(os.listdir(world.cwd)), len(sim.fault_log)
        nf = sum(v for k, v in sim.faults.items() if '@' in k or k in ('crash', 'sigint', 'disk_full'))
        if kind == 'set':
            r = world.run(op, lambda: state().set_state(site, ts), **kw)
        else:
            r = world.run(op, lambda: state().get_state(site), **kw)
        sim.on_point = None
        sim.op = op + 'check'
        faulty = sum(v for k, v in sim.faults.items() if '@' in k or k in ('crash', 'sigint', 'disk_full')) != nf
        if not faulty and not r.ok:
            raise Violation('failed: %s of %r without any fault ended with %s (%s)' % (kind, site, r.brief(), r.where))
        if r.kind == 'hang' or (r.kind == 'error' and r.exc not in ('OSError', 'PermissionError',
                                                                  'FileNotFoundError', 'BlockingIOError')):
            raise Violation('failed: %s of %r ended with %s (%s)' % (kind, site, r.brief(), r.where))
        if hook_state['ran'] and other[1] == 'write':
            if kind == 'set':
                weak = True
            else:
                vals[o_site] = [other[3]]
        left = sorted(set(os.listdir(world.cwd)) - there - {NAME})
        if left and r.kind in ('ok', 'error') and not any('unlink' in x[2] or 'stat' in x[2] for x in sim.fault_log[nl:]):
            raise Violation('left over: %s of %r ended with %s and left %s' % (kind, site, r.brief(), left))
        if kind == 'get':
            if r.ok:
                ok = everset[site] if weak else olds[site] + vals[site]
                if not any(same(r.value, v) for v in ok):
                    raise Violation('read: %r has %r, recorded was %r' % (site, r.value, ok))
        else:
            world.nontrivial = True
        # what a fresh process sees now
        for s in sorted(vals):
            try:
                got = quiet_get(world, s)
            except Violation:
                raise Violation('unreadable: the state cannot be read after %s ended with %s' % (op, r.brief()))
            ok = list(vals[s])
            if kind == 'set' and s == site:
                ok = [ts] if r.ok else ok + [ts]
            if weak and not plan.get('strict'):
                ok = everset[s]
            if not any(same(got, v) for v in ok):
                what = 'not recorded' if s == site and kind == 'set' else 'other site'
                raise Violation('%s: %r has %r after %s of %r to %r ended with %s, expected %r'
                                % (what, s, got, kind, site, ts, r.brief(), ok))
            vals[s] = [got]
        weak = False                # what is there now is what counts from here on
        everset = {s: list(v) for s, v in vals.items()}
    if sim.escapes:
        raise Violation('outside: %s' % (sim.escapes[:3],))


def quiet_get(world, site):
    """Read with no seams, as another process would."""
    saved, world.sim.proc = world.sim.proc, None
    try:
        return state().get_state(site)
    except Exception as e:
        raise Violation('unreadable: the state cannot be read (%s: %s)' % (type(e).__name__, e))
    finally:
        world.sim.proc = saved


# the second process records its site while the first one is about to put its file in place
FINDINGS = {'lost_update': {'sites': [0, 3], 'start': 0, 'strict': True, 'steps': [
    ['set', 0, 10, {}], ['set', 0, 20, {'other': [4, 'write', 3, 30]}]]},
    # names that differ in punctuation only
    'same_name': {'sites': [GENERATED, GENERATED + 1], 'start': 0, 'steps': [
        ['set', GENERATED, 10, {}], ['set', GENERATED + 1, 20, {}]]}}
