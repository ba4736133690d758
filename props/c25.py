"""C25: the log says what was done."""

import ast
import os
import re

from sim import model, net
from sim.core import Violation
from sim.fs import read_file, write_file, _real
from sim.model import Site, diff_trees, full_tree, parse_status, restore, sync
from sim.source import content, parse_iso

BUDGET = {'quick': {'runs': 2400, 'wall': 120}, 'thorough': {'runs': 150000, 'wall': 1500}}
RULE = ('one run is a history of a source and of successive processes (baseline and incremental syncs, audits, dry runs, lists '
        'built, explorer) that write to the same log, under network and disk faults, kills, a disk that does not take the '
        'log, other time zones and locales; non-trivial if a sync with a log of events changed anything')
LISTS = ('steps',)
REAL = ('resync-sync, resync-build, resync-explorer, resync.client, client_utils (init_logging), the logging package, list '
        'classes, urllib, http.client')
STUBS = 'TCP connections, HTTP server, clock, time zone, locale, faults and crashes of the file system'
ASSUMPTIONS = ('names of files are UTF-8 without line breaks', 'one process writes to the log at a time',
               'modification times are listed, and are not those of the sync itself')
MODES = ['baseline', 'baseline', 'baseline', 'incremental', 'incremental', 'incremental', 'audit', 'dry', 'dryinc']
LINE = re.compile(r'(\S+) \| (\S+) \| (\w+) \| (.*)$', re.S)
LEVELS = {'DEBUG': 10, 'INFO': 20, 'WARNING': 30, 'ERROR': 40, 'CRITICAL': 50}
LOCAL = ['zz-\u00fc', 'd/\u4e2d', 'caf\u00e9.txt', 'zz 1', "it's", 'a\\b', '"q"']


def plan(rng, tier):
    conf = model.gen_conf(rng)
    conf['driver'] = 'cli'
    names = model.pick_names(rng, rng.choice([3, 6, 10]))
    steps, cid = [], [100]

    def put(name=None):
        cid[0] += 1
        return ['put', rng.randrange(3), name or rng.choice(names), cid[0]]
    steps = [put(n) for n in names]
    if rng.random() < 0.4:
        steps.append(['extra', rng.choice(LOCAL), rng.randrange(3)])
    for i in range(rng.choice([2, 3, 4, 6])):
        mode = rng.choice(MODES) if i else rng.choice(['baseline', 'baseline', 'baseline', 'dry', 'audit', 'incremental'])
        o = {'delete': rng.random() < 0.7, 'hashes': model.gen_hashes(rng), 'timeout': rng.choice([10, 60]),
             'tries': rng.choice([1, 2, 3]), 'ignore': rng.random() < 0.5, 'verbose': rng.random() < 0.4}
        log = rng.choice(['eval', 'eval', 'eval', 'eval', 'plain', 'default', 'none', 'noeval'])
        f = {}
        r = rng.random()
        if r < 0.4:
            f = model.gen_faults(rng)
        elif r < 0.6:
            f = {'log': {'p': rng.choice([0.05, 0.3, 1.0]), 'short': rng.random() < 0.3,
                         'sticky_full': rng.random() < 0.5}}
        if 'skew' not in f and rng.random() < 0.3:
            f['skew'] = rng.choice([-5, 7200, 1e6, -1e8])
        steps.append(['sync', mode, o, log, f])
        if rng.random() < 0.15:
            steps.append(['build' if rng.random() < 0.6 else 'explore', rng.choice(['eval', 'plain', 'none', 'default']),
                          rng.random() < 0.4, rng.choice([None, '[0-2]'])])
        for _ in range(rng.randrange(6)):
            r = rng.random()
            if r < 0.45:
                steps.append(put())
            elif r < 0.7:
                steps.append(['del', rng.randrange(99)])
            elif r < 0.8:
                steps.append(['extra', rng.choice(LOCAL), rng.randrange(3)])
            else:
                steps.append(['local', rng.choice(model.DAMAGES), rng.randrange(99), rng.randrange(9999)])
    if rng.random() < 0.25:
        conf['nolen'] = True            # no list tells sizes
    for s in steps:
        if s[0] == 'sync' and s[2]['delete'] and not s[4] and rng.random() < 0.25:
            # some deletions fail
            s[4]['fs'] = {'p': 0.5, 'calls': ['unlink'], 'kinds': rng.choice([['eacces'], ['eio'], ['erofs', 'eacces']])}
    return {'conf': conf, 'steps': steps, 'clparts': rng.choice([0, 0, 1, 3]),
            'old': rng.choice([0, 0, 0, 0, 0, 0, 0, 0, 0, 1, 300, 20000])}


class Run(object):
    def __init__(self, world, plan):
        self.w, self.plan, self.sim = world, plan, world.sim
        self.site = Site(world, plan['conf'])
        self.site.classes()
        self.log = world.p('log/sync.log')
        self.default = world.cwd + '/resync-client.log'
        self.explorer = world.cwd + '/resync-explorer.log'
        _real['makedirs'](world.p('log'))
        world.dirs['log'] = world.p('log')
        if plan['old']:
            # records of a year ago
            write_file(self.log, b''.join(b'2019-09-13T12:26:%02d.000123Z | resync.client | DEBUG | Event: old %d, from another year\n'
                                          % (i % 60, i) for i in range(plan['old'])), self.sim.now - 3e7)
        self.before = {}            # what the logs held
        self.n = 0

    # -- the source

    def step(self, s):
        site = self.site
        if s[0] == 'put':
            uri = site.uri(s[1], s[2])
            self.sim.advance(3)
            kind = 'updated' if uri in site.res else 'created'
            # no two versions have the same size, nor the time of a sync
            site.put(uri, s[3], s[3] * 3 % 40000, 1.2e9 + s[3] * 100.5)
            site.record(uri, kind)
        elif s[0] == 'del':
            if site.res:
                uri = sorted(site.res)[s[1] % len(site.res)]
                self.sim.advance(3)
                site.remove(uri)
                site.record(uri, 'deleted')
        elif s[0] == 'extra':
            d = self.w.p(site.conf['maps'][s[2] % len(site.conf['maps'])][1])
            p = d + '/' + s[1]
            if not os.path.lexists(p) and model._can_make(p, self.w.root):
                write_file(p, content(7000, 20), 1e9)
        elif s[0] == 'local':
            model.damage(site, s)
        elif s[0] == 'sync':
            self.sync(*s[1:])
        else:
            self.other(*s)

    # -- one process

    def logs(self):
        return {p: (read_file(p) if os.path.exists(p) else b'') for p in (self.log, self.default, self.explorer)}

    def options(self, log):
        """Options, file and lowest level of a kind of log."""
        return {'eval': (['--logger', '--eval', '--logfile', self.log], self.log, 10),
                'plain': (['--logger', '--logfile', self.log], self.log, 20),
                'default': (['--logger', '--eval'], self.default, 10),
                'noeval': (['--eval'], None, 99),
                'none': ([], None, 99)}[log]

    def other(self, kind, log, verbose, leave=None):
        self.n += 1
        a, path, low = self.options(log)
        if verbose:
            a = a + ['-v']
        before = self.logs()
        if kind == 'build':
            src = self.w.p('src')
            for uri, (data, ts) in self.site.res.items():
                write_file(src + '/%d' % (len(uri) % 7), data, ts)
            if not self.site.res:
                return
            if leave:
                a = a + ['--exclude=' + leave]
            r = self.w.cli('build%d' % self.n, 'resync-build',
                           ['--write-resourcelist', '--outfile', self.w.p('out.xml'), '--paths', src] + a + ['http://x.org=' + src])
        else:
            if not self.site.server.docs:
                self.site.publish()
            if '--eval' in a:
                a.remove('--eval')
                low = 20
            if log == 'default':
                path = self.explorer
            r = self.w.cli('explore%d' % self.n, 'resync-explorer', ['--sitemap', self.site.list_uri()] + a,
                           stdin=lambda p='': 'q')
        if not r.ok:
            raise Violation('failed: %s with a log ended with %s (%s)' % (kind, r.brief(), r.where))
        self.judge_log(r, before, path, low, verbose, 0, False)

    def sync(self, mode, o, log, f):
        site, sim, w = self.site, self.sim, self.w
        if not site.res:
            return
        self.n += 1
        op = '%s%d' % (mode, self.n)
        o = dict(o)
        args, path, low = self.options(log)
        dry = mode.startswith('dry')
        real = {'dry': 'baseline', 'dryinc': 'incremental'}.get(mode, mode)
        if dry:
            o['dryrun'] = True
        if real == 'incremental':
            o['from'] = '2015-01-01T00:00:00Z'
        sim.advance(10)
        site.publish()
        site.publish_changes(parts=self.plan['clparts'])
        before = self.logs()
        pre = site.dst_tree()
        nf = len(sim.fault_log)
        ref = None
        kw = model.run_args(f, len(site.res) + 2)
        if f.get('log'):
            kw['fs_cfg'] = dict(f['log'], only=['log'])
        if not (set(f) - {'skew', 'log'}):
            # nothing but the log can fail: what happens without one?
            snap = full_tree(w)
            rr = sync(site, op + 'ref', real, o, skew=f.get('skew', 0))
            ref = (self.result(rr), model.without_times(full_tree(w)), site.dst_tree())
            restore(w, snap)
        r = sync(site, op, real, dict(o, logging=args), **kw)
        faults = sim.fault_log[nf:]
        logbad = any(self.log in d or self.default in d for (t, p, k, d) in faults)
        if logbad:
            sim.probe('log_failed')
        if ref is not None:
            after = full_tree(w)
            if not r.ok and logbad and ref[0] != self.result(r):
                # a log that cannot even be opened: nothing may have been done
                d = [x for x in diff_trees(snap, after, 10 ** 6) if '.log' not in x and x.strip('+-') != 'log/']
                if d:
                    raise Violation('failed log: sync that could not write its log ended with %s after %s' % (r.brief(), d))
                if any(self.fault_on_open(x) for x in faults):
                    return
            drop = lambda t: {k: v for k, v in t.items() if not k.endswith('.log')}
            if self.result(r) != ref[0]:
                raise Violation('result: with a log %s gave %r, without %r' % (mode, self.result(r), ref[0]))
            d = diff_trees(drop(ref[1]), drop(model.without_times(after)))
            if d:
                raise Violation('files: with a log %s gave other files: %s' % (mode, d))
            if set(site.dst_tree()) != set(ref[2]):
                raise Violation('files: with a log %s gave other files' % mode)
        new = self.judge_log(r, before, path, low, o['verbose'], f.get('skew', 0), logbad)
        self.judge_events(r, real, dry or mode == 'audit', pre, new if low <= 10 else None, logbad,
                          any('@' in k for (t, p, k, d) in faults))

    def fault_on_open(self, x):
        return x[2].split('@')[-1] in ('openw', 'open', 'stat')

    def result(self, r):
        return [r.kind, r.exc, r.statuses(), r.stdout, sorted(
            uri for (t, m, uri, req, op) in self.site.server.requests if op == r.op)]

    # -- oracles

    def judge_log(self, r, before, path, low, verbose, skew, logbad):
        """What is in the log must be what was logged. Returns the new messages."""
        after = self.logs()
        died = r.kind in ('crash', 'hang')
        for p in before:
            if not after[p].startswith(before[p]):
                raise Violation('lost records: what was in the log %s before is not there any more' % os.path.basename(p))
            if p != path and after[p] != before[p]:
                raise Violation('unwanted log: %s was written to' % os.path.basename(p))
        mine = [(lv, m) for (lv, n, m) in r.log if n == 'resync' or n.startswith('resync.')]
        seen = [m for (lv, m) in mine if lv >= (20 if verbose else 30)]
        lines = r.stderr.split('\n')
        if not died and r.kind != 'error':
            k = 0
            for m in seen:
                want = m.split('\n')
                while k < len(lines) and lines[k:k + len(want)] != want:
                    k += 1
                if k >= len(lines):
                    raise Violation('console: %r was not shown%s' % (m, ' (verbose)' if verbose else ''))
                k += len(want)
            if not verbose:
                low_only = {m for (lv, m) in mine if lv < 30} - set(seen)
                for m in lines:
                    if m in low_only:
                        raise Violation('console: %r is shown although not asked for' % m)
        if path is None:
            return []
        text = after[path][len(before[path]):].decode('utf-8', 'replace')
        if logbad:
            return [m.group(0) for m in re.finditer(r'Event: \{.*\}(?=\n)', text)]
        rows = text.split('\n')
        torn = rows.pop()
        if torn and not died:
            raise Violation('torn: the log ends with %r' % torn)
        got = []
        for row in rows:
            m = LINE.match(row)
            if m is None or m.group(3) not in LEVELS or not re.match(r'\d\d\d\d-', row):
                if not got:
                    raise Violation('record: %r in the log is no record' % row)
                got[-1][1] += '\n' + row
                continue
            try:
                t = parse_iso(m.group(1))
            except ValueError:
                raise Violation('record: bad time %r' % m.group(1))
            if not r.t0 + skew - 0.01 <= t <= r.t1 + skew + 0.01:
                raise Violation('record: time %s is not that of the process (%+.3f s from its begin, %+.3f from its end)'
                                % (m.group(1), t - r.t0 - skew, t - r.t1 - skew))
            if m.group(2) == 'resync' or m.group(2).startswith('resync.'):
                got.append([LEVELS[m.group(3)], m.group(4)])
            else:
                got.append([-1, m.group(4)])
        got = [(lv, m) for (lv, m) in got if lv >= 0]
        want = [(lv, m) for (lv, m) in mine if lv >= low]
        if got != want and not (died and len(got) >= len(want) - 1 and got == want[:len(got)]):
            i = 0
            while i < len(got) and i < len(want) and got[i] == want[i]:
                i += 1
            raise Violation('records: the log has %r as record %d, not %r' % (got[i:i + 1], i, want[i:i + 1]))
        return [m for (lv, m) in got]

    def uri_of(self, p):
        for (s, d) in self.site.conf['maps']:
            d = self.w.p(d)
            if p.startswith(d + '/'):
                return s + p[len(d):]

    def judge_events(self, r, mode, nothing, pre, messages, logbad, blind):
        """The events must be what was done to the destination."""
        site = self.site
        post = site.dst_tree()
        order = {}
        for i, (kind, path) in enumerate(r.effects):
            order[path] = i
        done = []
        if mode == 'incremental':
            kinds = {ch['uri']: ch['change'] for ch in site.listed_changes}
            todo = {u: k for u, k in kinds.items() if k != 'deleted'}
        else:
            todo = {u: 'updated' if site.path(u) in pre else 'created' for u in site.published}
        for uri, kind in todo.items():
            p = site.path(uri)
            v = post.get(p)
            data, ts = site.res.get(uri, (None, 0))
            if p in order and v is not None and v[0] == data and int(v[1]) == int(ts):
                done.append((order[p], kind, uri))
        for p in pre:
            if p not in post:
                done.append((order.get(p, -1), 'deleted', self.uri_of(p)))
        done = [x[1:] for x in sorted(done)]
        if blind:
            # a copy that could not be seen is created
            saw = lambda es: [('copied' if k in ('created', 'updated') else k, u) for (k, u) in es]
        else:
            saw = list
        if nothing and done:
            raise Violation('done: %s changed %s' % (mode, done[:3]))
        if done:
            self.sim.probe('changes_made', len(done))
        if r.ok and not nothing and r.statuses():
            word, n = parse_status(r.statuses()[-1])
            if 'created' in n:
                for k in ('created', 'updated', 'deleted'):
                    have = len([1 for x in done if x[0] == k])
                    if k in n and n[k] != have and not blind:
                        raise Violation('status: says %s=%d, but there were %d' % (k, n[k], have))
        gone = {u for (k, u) in done if k == 'deleted'}
        for m in r.messages(20):
            x = re.match(r'deleted: (.*) -> ', m, re.S)
            if x and x.group(1) not in gone:
                raise Violation('deleted: %r was logged, but there is no such deletion' % m)
        if messages is None:
            return
        events = []
        for m in messages:
            if not m.startswith('Event: '):
                continue
            try:
                e = ast.literal_eval(m[7:])
                uri, kind = e['uri'], e['change']
            except (ValueError, SyntaxError, KeyError, TypeError):
                if logbad:
                    continue
                raise Violation('event: cannot be understood: %s' % m)
            if kind != 'deleted' and site.res.get(uri):
                data, ts = site.res[uri]
                if abs(e.get('timestamp', ts) - ts) > 1e-5 or e.get('length', len(data)) != len(data):
                    raise Violation('event: %s does not match the list (time %r, length %r)' % (m, ts, len(data)))
            events.append((kind, uri))
        if logbad:
            it = iter(saw(done))
            if not all(e in it for e in saw(events)):
                raise Violation('events: the log has %s, but it was %s that was done' % (events, done))
            return
        if saw(events) != saw(done) and not (r.kind in ('crash', 'hang') and saw(events) == saw(done[:-1])):
            i = 0
            while i < len(events) and i < len(done) and events[i] == done[i]:
                i += 1
            raise Violation('events: the log of a %s sync (%s) has %d, but %d things were done; first difference: %r instead '
                            'of %r' % (mode, r.kind, len(events), len(done), events[i:i + 1], done[i:i + 1]))
        if events:
            self.w.nontrivial = True
            self.sim.probe('events', len(events))
            if not r.ok:
                self.sim.probe('events_of_failed_sync')


def execute(world, plan):
    run = Run(world, plan)
    for s in plan['steps']:
        run.step(s)
    if world.sim.escapes:
        raise Violation('outside: %s' % (world.sim.escapes[:3],))
