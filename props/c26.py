"""C26: processes that run at the same time do not disturb each other."""

import configparser
import io
import os
import re
import zipfile

from sim import model
from sim.core import Violation
from sim.fs import read_file, write_file, _real
from sim.model import Site, diff_trees, full_tree, sync
from sim.procs import Procs
from sim.source import content

BUDGET = {'quick': {'runs': 1800, 'wall': 120}, 'thorough': {'runs': 150000, 'wall': 1500}}
RULE = ('one run lets two to four users each run one to three commands (syncs, audits, dry runs, lists and dumps built, '
        'explorer) at the same time in one directory, with the same state file and log, under a seeded scheduler that may '
        'switch between the processes at every system call; non-trivial if processes were switched in the middle')
LISTS = ('tasks',)
SIMPLE = (('log', 'none'), ('meet', None))
REAL = ('resync-sync, resync-build, resync-explorer, resync.client, client_state, client_utils, resource_list_builder, dump, '
        'list classes, the logging package, urllib, http.client, configparser, zipfile, shutil')
STUBS = 'scheduling of the processes, TCP connections, HTTP servers, clock, faults of network and disk, kills'
ASSUMPTIONS = ('processes are switched at their system calls only, which is all that another process can see of them',
               'two processes that record their state at the same moment may lose one of the two times (known finding of C06)')
STATE = '.resync-client-status.cfg'
SYNCS = ['baseline', 'baseline', 'baseline', 'baseline', 'incremental', 'incremental', 'audit', 'dry']
NOW = re.compile(r'\d{4}-\d\d-\d\dT\d\d:\d\d:\d\d(\.\d+)?Z')
LINE = re.compile(r'\n(?=\d{4}-\d\d-\d\dT\d\d:\d\d:\d\d\.\d+Z \| )')

# Where processes wait for each other: what is narrow in reality is met often here
MEET = {'state': lambda k, d: STATE in d, 'mkdir': lambda k, d: k == 'mkdir' and '/dst/' in d,
        'new': lambda k, d: k == 'openw' and '.log' not in d, 'remove': lambda k, d: k == 'unlink',
        'put': lambda k, d: k in ('replace', 'rename', 'utime')}


def gen_source(rng, cid, names, quiet=False):
    out = []
    if quiet:
        return out
    for _ in range(rng.choice([0, 0, 1, 2, 3])):
        r = rng.random()
        if r < 0.55:
            cid[0] += 1
            out.append(['put', rng.randrange(3), rng.choice(names), cid[0], model.pick_size(rng, 0.03), model.gen_ts(rng)])
        elif r < 0.75:
            out.append(['del', rng.randrange(99)])
        else:
            out.append(['local', rng.choice(model.DAMAGES), rng.randrange(99), rng.randrange(9999)])
    return out


def plan(rng, tier):
    cid = [0]
    tasks = []
    shared = rng.random() < 0.25
    theme = rng.choice(['any', 'any', 'any', 'build', 'record'])
    fresh = rng.random() < 0.25     # nobody has done anything so far
    quiet = shared and rng.random() < 0.5
    for k in range(rng.choice([2, 2, 2, 3, 4])):
        conf = model.gen_conf(rng)
        names = rng.sample(model.NAMES, rng.choice([1, 2, 3, 5]))
        cmds = []
        build = rng.random() < {'build': 0.9, 'record': 0}.get(theme, 0.2) and not shared
        for _ in range(rng.choice([1, 1, 1, 2, 3])):
            o = {'delete': rng.random() < 0.6, 'hashes': model.gen_hashes(rng), 'ignore': rng.random() < 0.4,
                 'noauth': rng.random() < 0.1, 'verbose': rng.random() < 0.3, 'tries': rng.choice([1, 2]), 'timeout': 60}
            if rng.random() < 0.2:
                o['reldst'] = True
            if build:
                c = ['build', rng.choice(['list', 'parts', 'changes', 'dump', 'changedump']), o]
            elif rng.random() < 0.08 and not shared:
                c = ['explore', rng.choice(['q', 'cq']), o]
            else:
                c = ['sync', rng.choice(SYNCS[3:6] if theme == 'record' else SYNCS), o]
            cmds.append([gen_source(rng, cid, names, quiet), c])
        start = []
        for n in names:
            cid[0] += 1
            start.append(['put', rng.randrange(3), n, cid[0], model.pick_size(rng, 0.03), model.gen_ts(rng)])
        if rng.random() < 0.4 and not build and not fresh:
            # a copy made before
            start.append(['baseline'])
            start += gen_source(rng, cid, names)
        tasks.append({'conf': conf, 'start': start, 'cmds': cmds, 'parts': rng.choice([0, 0, 1, 2])})
    p = {'tasks': tasks, 'quantum': rng.choice([1, 2, 3, 5, 10, 10, 40, 200]), 
         'meet': 'state' if theme == 'record' else rng.choice([None] + sorted(MEET)), 'victim': None, 'shared': shared,
         'quiet': quiet, 'log': rng.choice(['none', 'own', 'shared', 'shared', 'default']), 'old': rng.random() < 0.5}
    if rng.random() < 0.35 and not quiet:
        f = model.gen_faults(rng)
        if f.get('mode') == 'torn' and p['log'] != 'none':
            f['mode'] = 'before'        # half a line of a log is expected then
        if 'fs' in f:
            f['fs'].setdefault('only', ['dst', 'state', 'other'])
            f['fs']['short'] &= p['log'] == 'none'
        p['victim'] = [rng.randrange(4), f]
    return p


class Group(object):
    """The users and what is theirs."""

    def __init__(self, world, plan):
        self.w, self.plan, self.sim = world, plan, world.sim
        self.shared = plan['shared']
        self.sites = []
        for k, t in enumerate(plan['tasks']):
            conf = dict(t['conf'])
            if self.shared and self.sites:
                conf = dict(plan['tasks'][0]['conf'], driver=conf['driver'])
            j = 0 if self.shared else k
            if self.shared and not conf['hashes']:
                conf['hashes'] = ['md5']        # versions can be told by time and size only otherwise
            conf['maps'] = [[s.replace('ample.org', 'ample%d.org' % j), d.replace('dst', 'dst/all/t%d' % j, 1)]
                            for s, d in conf['maps']]
            site = Site(world, conf)
            if self.shared and self.sites:
                first = self.sites[0]
                site.server, site.res, site.changes = first.server, first.res, first.changes
            self.sites.append(site)
        world.net.handler = self.handle
        world.dirs['log'] = world.p('log')
        world.dirs['default log'] = world.cwd + '/resync-client.log'
        world.dirs['state'] = world.cwd
        world.dirs['dst'] = world.p('dst')
        for d in ('out', 'log'):
            _real['makedirs'](world.p(d), exist_ok=True)
        write_file(world.p('other/keep'), content(9000, 40), self.sim.now - 5000)
        if plan['old']:
            write_file(world.p('dst/all/keep.me'), content(9000, 40), self.sim.now - 5000)
        if plan['log'] != 'none' and plan['old']:
            write_file(self.log(0), b'2019-09-13T12:26:00.000123Z | resync.client | INFO | from another year\n', 1e9)
        self.trace = None
        self.results = {}
        self.clocks = [self.sim.now + 10 * k for k in range(len(self.sites))]
        for k, t in enumerate(plan['tasks']):
            for e in t['start']:
                if e[0] == 'baseline':
                    self.first(k)
                else:
                    self.env(k, e)
        self.sim.advance(1000)

    def handle(self, req):
        for s in self.sites:
            if any(req.host.split(':')[0] == m[0].split('/')[2].split(':')[0] for m in s.conf['maps']):
                return s.server.handle(req)
        raise RuntimeError('request for %s' % req.host)

    def log(self, k):
        how = self.plan['log']
        if how == 'default':
            return self.w.cwd + '/resync-client.log'
        return self.w.p('log', 'user%d.log' % (k if how == 'own' else 0))

    # -- what a user does

    def env(self, k, s):
        # each user has times of its own, whatever the others do
        now, self.sim.now = self.sim.now, self.clocks[k]
        self.clocks[k] += 3
        try:
            self.change(k, s)
        finally:
            self.sim.now = now

    def change(self, k, s):
        site, sim = self.sites[k], self.sim
        if s[0] == 'put':
            uri = site.uri(s[1], s[2])
            kind = 'updated' if uri in site.res else 'created'
            model.put_distinct(site, uri, s[3], s[4], s[5])
            site.record(uri, kind)
            if not self.shared:
                write_file(self.w.p('src', str(k), 'f%d' % (s[3] % 4), 'r%d' % (s[3] % 3)), content(s[3], s[4]), s[5])
        elif s[0] == 'del' and site.res:
            uri = sorted(site.res)[s[1] % len(site.res)]
            site.remove(uri)
            site.record(uri, 'deleted')
        elif s[0] == 'local':
            model.damage(site, s)

    def first(self, k):
        self.publish(k)
        r = sync(self.sites[k], 'first%d' % k, 'baseline', {'noauth': True})
        if not r.ok and self.sites[k].res:
            raise Violation('failed: first baseline ended with %s (%s)' % (r.brief(), r.where))

    def publish(self, k):
        site, sim = self.sites[k], self.sim
        now, sim.now = sim.now, self.clocks[k]
        try:
            site.publish()
            site.publish_changes(parts=self.plan['tasks'][k]['parts'])
        finally:
            sim.now = now

    def logging(self, k, o):
        if self.plan['log'] == 'none':
            return []
        a = ['--logger', '--eval']
        return a if self.plan['log'] == 'default' else a + ['--logfile', self.log(k)]

    def command(self, k, i, victim=None):
        """One process of user k."""
        changes, (kind, what, o) = self.plan['tasks'][k]['cmds'][i]
        site, w, sim = self.sites[k], self.w, self.sim
        for e in changes:
            self.env(k, e)
        if not site.res:
            return
        self.publish(k)
        o = dict(o, logging=self.logging(k, o))
        if self.shared:
            o['noauth'] = True
        op = 'u%dc%d' % (k, i)
        kw = {}
        if victim is not None:
            kw = model.run_args(victim, len(site.res) + 2)
        q0 = len(site.server.requests)
        if kind == 'sync':
            if what == 'dry':
                o['dryrun'] = True
            r = sync(site, op, 'baseline' if what == 'dry' else what, o, **kw)
        elif kind == 'explore':
            keys = list(what)
            r = w.cli(op, 'resync-explorer', ['--sitemap', site.list_uri()] + [x for x in o['logging'] if x != '--eval'],
                      stdin=lambda p='': keys.pop(0) if len(keys) > 1 else 'q', **kw)
        else:
            src, out = w.p('src', str(k)), w.p('out', str(k))
            if not os.path.isdir(src):
                return
            _real['makedirs'](out, exist_ok=True)
            if o.get('reldst'):
                src, out = os.path.relpath(src, w.cwd), os.path.relpath(out, w.cwd)
            a = {'list': ['--write-resourcelist', '--outfile', out + '/list.xml'],
                 'parts': ['--write-resourcelist', '--outfile', out + '/list.xml', '--multifile', '--max-sitemap-entries', '2'],
                 'changes': ['--write-changelist', '--reference', out + '/list.xml', '--outfile', out + '/changes.xml'],
                 'dump': ['--write-resourcedump', '--outfile', out + '/dump'],
                 'changedump': ['--write-changedump', '--reference', out + '/list.xml', '--outfile', out + '/chdump']}[what]
            for h in o['hashes']:
                a += ['--hash', h]
            r = w.cli(op, 'resync-build', a + o['logging'] + (['-v'] if o['verbose'] else []) + ['http://x%d.org=%s' % (k, src)], **kw)
        if self.trace is not None:
            self.trace.n += 1
            self.trace.end(k)
        reqs = [q[1:3] for q in site.server.requests[q0:] if q[4] == op]
        self.results[k, i] = {'result': (r.kind, r.exc, r.msg), 'requests': reqs, 'output': (r.stdout, r.stderr), 'messages': r.messages(),
                              'effects': [e for e in r.effects if any(x in e[1] for x in ('/dst/all/t', '/out/'))], 'o': r, 'end': self.sim.nproc, 't': r.t1}
        self.state()

    def user(self, k, victim=None):
        for i in range(len(self.plan['tasks'][k]['cmds'])):
            self.command(k, i, victim)

    def state(self):
        """What is recorded; the file can be read at any time."""
        p = self.w.cwd + '/' + STATE
        if not os.path.exists(p):
            return {}
        c = configparser.ConfigParser(interpolation=None)
        try:
            c.read_string(read_file(p).decode('utf-8'))
        except (configparser.Error, UnicodeDecodeError) as e:
            raise Violation('state file: cannot be read any more (%s)' % e)
        return dict(c.items('incremental')) if c.has_section('incremental') else {}


def masked(text, t0, root):
    """Without what tells the time of the run."""
    text = NOW.sub('NOW', text).replace(root, '$R')
    return re.sub(r'Read \d+ bytes from (\$R|\.\.)/out/', 'Read N bytes from out/', text)


def contents(world, t0, keep):
    out = {}
    for p, v in full_tree(world).items():
        if p.startswith('log/') or p.endswith('.log') or p == 'cwd/' + STATE or not keep(p):
            continue
        if v is None or v[0] == 'symlink' or not p.startswith('out/'):
            out[p] = v
        elif v[0][:2] == b'PK':
            try:
                z = zipfile.ZipFile(io.BytesIO(v[0]))
                out[p] = (repr([(i.filename, masked(z.read(i).decode('latin-1'), t0, world.root)) for i in z.infolist()]), 0)
            except Exception as e:
                out[p] = ('damaged %s' % e, len(v[0]))
        else:
            out[p] = (masked(v[0].decode('latin-1'), t0, world.root), 0)
    return out


def records(path):
    if not os.path.exists(path):
        return []
    text = read_file(path).decode('utf-8', 'backslashreplace')
    if text and not text.endswith('\n'):
        text += '<no end>'
    return ['|'.join(x.split('|')[1:]) for x in LINE.split(text.rstrip('\n'))]


class Trace(object):
    """Who did what, as far as it matters for lost updates of the state file."""

    def __init__(self, group):
        self.g = group
        self.path = group.w.cwd + '/' + STATE
        self.n = 0
        self.last = {}          # user -> when it last did something else than with state and log
        self.done = []          # [start, time, user, end] of recordings
        self.open = {}          # user -> its recording, of which the time is not known yet

    def point(self, sim, kind, detail):
        self.n += 1
        k = int(sim.op[1]) if re.match(r'u\dc\d', sim.op) else None
        if k is None:
            return
        self.end(k)
        if self.path in detail or '.log' in detail or kind in ('log', 'time'):
            if kind in ('replace', 'rename'):
                self.open[k] = [self.last.get(k, 0), self.n, k, None]
                self.done.append(self.open[k])
            return
        self.last[k] = self.n

    def end(self, k):
        # others may have run since the call was about to be made
        if k in self.open:
            self.open.pop(k)[3] = self.n

    def lost(self):
        """Users whose recording another one may not have seen."""
        out = set()
        for a, _, k, b in self.done:
            for _, m, j, n in self.done:
                if j != k and m <= b and a <= n:
                    out.add(j)
        return out


def execute(world, plan):
    sim = world.sim
    g = Group(world, plan)
    if plan['shared']:
        return together(world, plan, g)
    users = range(len(plan['tasks']))
    before, t0 = full_tree(world), sim.now
    state0 = g.state()
    clocks = list(g.clocks)
    saved = [(dict(s.res), dict(s.server.files), list(s.changes)) for s in g.sites]
    victim = None
    if plan['victim'] is not None:
        victim = plan['victim'][0] % len(users)
    # 1. one after the other
    drawn = {}
    choose = sim.choose

    def record(kind, default, fn):
        v = choose(kind, default, fn)
        drawn.setdefault((sim.op, kind), []).append(v)
        return v

    def repeat(kind, default, fn):
        if kind in ('run', 'meet') or sim.op.startswith('u%s' % victim):
            return choose(kind, default, fn)
        old = drawn.get((sim.op, kind))
        return old.pop(0) if old else default
    try:
        sim.choose = record
        logs = {}
        for k in users:
            n = {p: len(records(p)) for p in {g.log(j) for j in users}}
            g.user(k)
            logs[k] = records(g.log(k))[n[g.log(k)]:]
        alone = g.results
        state1 = g.state()
        tree1 = contents(world, t0, lambda p: True)
        log1 = {p: records(p) for p in {g.log(j) for j in users}}
        t1 = sim.now
        # 2. at the same time
        model.restore(world, before)
        sim.now = t0
        for s, (res, files, changes) in zip(g.sites, saved):
            s.res = dict(res)
            s.server.files = dict(files)
            s.changes = list(changes)
        g.results = {}
        g.clocks = clocks
        sim.choose = repeat
        trace = g.trace = Trace(g)
        procs = Procs(sim, plan['quantum'], MEET.get(plan['meet']))

        def point(sim, kind, detail):
            trace.point(sim, kind, detail)
            procs.at(kind, detail)
        sim.on_point = point
        procs.run([('user%d' % k, lambda k=k: g.user(k, plan['victim'][1] if k == victim else None)) for k in users])
    finally:
        del sim.choose
        sim.on_point = None
    sim.now = max(t1, sim.now)
    if procs.switches > len(users):
        world.nontrivial = True
        sim.probe('switches', procs.switches)
    sim.probe('met', procs.met)
    lost = trace.lost()
    if lost:
        sim.probe('recorded_at_the_same_time')
    clean = [k for k in users if k != victim and k not in lost]
    for k in users:
        if k == victim:
            continue
        for i in range(len(plan['tasks'][k]['cmds'])):
            a, b = alone.get((k, i)), g.results.get((k, i))
            if a is None and b is None:
                continue
            if i and k in lost:
                break           # may have lost what it had recorded
            for what in ('result', 'requests', 'effects', 'messages', 'output'):
                x, y = (norm(world, what, r[what]) for r in (a, b))
                if x != y:
                    raise Violation('%s: of %s by user %d at the same time as others %s' % (
                        what, plan['tasks'][k]['cmds'][i][1][:2], k, first_difference(y, x)))
            sim.probe('same_' + '_'.join(plan['tasks'][k]['cmds'][i][1][:2]))
    # files
    foul = {k for k in users if k not in clean}

    def keep(p):
        return not any(p.startswith(('dst/all/t%d/' % k, 'out/%d/' % k)) for k in foul) and not (foul and p in ('dst/', 'dst/all/')) and not p.startswith('src/') and (
            victim is None or not p.startswith('cwd/'))
    tree2 = contents(world, t0, keep)
    d = diff_trees({p: v for p, v in tree1.items() if keep(p)}, tree2)
    if d and not (victim is not None and all(x.rstrip('/').endswith(('/t%d' % victim, '/%d' % victim)) for x in d)):
        raise Violation('files: after processes at the same time %s' % d)
    # state
    state2 = g.state()
    for name in set(state0) | set(state1) | set(state2):
        k = int(re.search(r'ample(\d)', name).group(1))
        if k not in foul and state2.get(name) != state1.get(name):
            raise Violation('state: of %s is %s after processes at the same time, and %s otherwise' % (
                name, state2.get(name), state1.get(name)))
    # logs
    if plan['log'] != 'none':
        for k in clean:
            mine = [masked(x, t0, world.root) for x in logs[k]]
            left = iter([masked(x, t0, world.root) for x in records(g.log(k))])
            for x in mine:
                if not any(x == y for y in left):
                    raise Violation('log: %r of user %d is not in the log, or out of order' % (x[:200], k))
        if not foul:
            for p in log1:
                if len(records(p)) != len(log1[p]):
                    raise Violation('log: has %d records after processes at the same time, not %d' % (len(records(p)), len(log1[p])))
    if sim.escapes:
        raise Violation('outside: %s' % (sim.escapes[:3],))


def norm(world, what, v):
    if what in ('messages',):
        return [masked(x, 0, world.root) for x in v]
    if what in ('output', 'result'):
        return tuple(masked(str(x), 0, world.root) for x in v)
    if what == 'effects':
        return [(k, re.sub(r'\.\d+\.tmp', '.PID.tmp', p)) for k, p in v]
    return v


def first_difference(a, b):
    for i in range(max(len(a), len(b))):
        x = a[i] if i < len(a) else 'nothing'
        y = b[i] if i < len(b) else 'nothing'
        if x != y:
            return 'is %s, alone %s' % (repr(x)[:300], repr(y)[:300])
    return ''


def together(world, plan, g):
    """Syncs of the same copy at the same time."""
    sim, site = world.sim, g.sites[0]
    users = range(len(plan['tasks']))
    quiet = plan['quiet']
    tops = [d for _, d in site.conf['maps']]
    mine = lambda p: any((p + '/').startswith(d + '/') or (d + '/').startswith(p) for d in tops)
    before = full_tree(world)
    victim = plan['victim'] and plan['victim'][0] % len(users)
    try:
        procs = Procs(sim, plan['quantum'], MEET.get(plan['meet']))
        sim.on_point = lambda sim, kind, detail: procs.at(kind, detail)
        procs.run([('user%d' % k, lambda k=k: g.user(k, plan['victim'][1] if k == victim else None)) for k in users])
    finally:
        sim.on_point = None
    if procs.switches > len(users):
        world.nontrivial = True
        sim.probe('switches', procs.switches)
    sim.probe('met', procs.met)
    outcomes = []
    for (k, i), v in sorted(g.results.items()):
        r, what = v['o'], plan['tasks'][k]['cmds'][i][1][1]
        # what another one has deleted in the meantime may be missed
        allowed = model.CLIENT_ERRORS + (() if quiet else ('FileNotFoundError',))
        if r.kind not in ('ok', 'crash', 'hang') and not (r.kind == 'error' and r.exc in allowed) and k != victim:
            raise Violation('broken: %s of a copy that others sync, too, ended with %s (%s)' % (what, r.brief(), r.where))
        if what in ('audit', 'dry'):
            d = [e for e in v['effects'] if not e[1].startswith(world.cwd)]
            if d:
                raise Violation('touched: %s did %s' % (what, d[:3]))
        if quiet and victim is None and what != 'incremental':
            # the others do nothing but what this one does, too
            if r.kind != 'ok':
                raise Violation('broken: %s of a copy that others sync, too, ended with %s (%s)' % (what, r.brief(), r.where))
            if r.has('Not storing'):
                raise Violation('broken: %s of a copy that others sync, too: %s' % (what, r.messages(30)))
        outcomes.append((what, r, plan['tasks'][k]['cmds'][i][1][2]))
        sim.probe('together_' + what)
    after = full_tree(world)
    d = diff_trees(*({p: v for p, v in t.items() if not mine(p) and not p.startswith(('log/', 'cwd/'))} for t in (before, after)))
    if d:
        raise Violation('bystanders: %s after syncs of the same copy' % d)
    left = [p for p in after if p.startswith('cwd/' + STATE) and p != 'cwd/' + STATE]
    if left and victim is None:
        raise Violation('left over: %s' % left)
    full = [(r, o) for what, r, o in outcomes if what == 'baseline']
    if quiet and victim is None and full and all(r.kind == 'ok' for what, r, o in outcomes):
        sim.probe('all_well')
        exact(site, 'after syncs of the same copy by several users', any(o['delete'] for r, o in full))
    # whatever happened, the next sync puts it right
    sim.advance(5)
    site.publish()
    if site.res:
        r = sync(site, 'last', 'baseline', {'delete': True, 'hashes': ['md5', 'sha-1', 'sha-256'], 'noauth': True})
        if not r.ok:
            raise Violation('failed: sync after the others ended with %s (%s)' % (r.brief(), r.where))
        exact(site, 'after one more sync', True)
    if sim.escapes:
        raise Violation('outside: %s' % (sim.escapes[:3],))


def exact(site, when, deleted):
    tree = site.dst_tree()
    want = {site.path(u): v for u, v in site.res.items()}
    for p, (data, ts) in sorted(want.items()):
        if not model.same_file(tree.get(p), data, ts):
            v = tree.get(p)
            raise Violation('copy: %s %s is %s, not %d bytes of %s' % (
                os.path.basename(p), when, v and ('%d bytes of %s' % (len(v[0]), v[1])), len(data), ts))
    extra = sorted(set(tree) - set(want))
    if extra and deleted:
        raise Violation('copy: %s is still there %s' % (extra[:3], when))
