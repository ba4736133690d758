"""C05: incremental syncs lose no change."""

import configparser
import os

from sim import model
from sim.core import Violation
from sim.model import Site, sync
from sim.source import iso
from sim.fs import _real, read_file, write_file

BUDGET = {'quick': {'runs': 4000, 'wall': 120}, 'thorough': {'runs': 100000, 'wall': 1500}}
RULE = ('one run is a history of source changes, republications, and baseline and incremental syncs (quiet, with '
        'crashes, network and disk faults, dry runs, skewed clocks, changes during the sync); non-trivial if a quiet '
        'incremental sync after a completed baseline was compared with the source')
LISTS = ('steps',)
SIMPLE = (('gran', 1.0),)
REAL = ('resync.client, client_state, change_list, resource_container, list_base_with_index, sitemap, resource_list, '
        'mapper, url_or_file_open, w3c_datetime, resync-sync, urllib, http.client, configparser')
STUBS = 'TCP connections, HTTP server, clock, faults of the file system; source model and writer of documents'
ASSUMPTIONS = ('deletion is enabled in every sync; the destination is changed by syncs only, except for files that have nothing to do with the source',
               'times of one source have the same precision, its change lists are in the order of the changes; without '
               'times of changes in the change list, or without the time of a resource list in it, the last modification '
               'of a resource is not listed later than that of its change',
               'a resource list that is read is not older than the last completed sync',
               'a failed sync from an explicit earlier time (--from) has to be repeated or followed by a baseline sync',
               'local lstat() works (its failure looks like a missing file)')
# lstat is left out: os.path.lexists() takes its failure for a missing file
CALLS = ['write', 'openw', 'mkdir', 'close', 'utime', 'unlink', 'replace', 'rename', 'truncate', 'open', 'read']


def plan(rng, tier):
    conf = model.gen_conf(rng)
    if rng.random() < 0.3 and conf['route'] == 'rl':
        conf['rs'] = False      # a plain sitemap, which has no time
    names = rng.sample(model.NAMES, rng.choice([1, 2, 3, 5]))
    times = rng.choice(['both', 'both', 'datetime', 'lastmod'])
    # last modification at the time of the change, long before, or in the future (wrong clocks)
    olds = [0, 0, 0, 1, 2] if rng.random() < 0.4 else [0, 0, 0, 1]
    steps = []

    def change():
        r = rng.random()
        gap = rng.choice([0, 0, 0.2, 0.2, 1, 1, 60, 90000])
        if r < 0.6:
            return ['put', rng.randrange(3), rng.choice(names), rng.choice(olds), gap]
        if r < 0.9:
            return ['del', rng.randrange(99), gap]
        return ['flip', rng.randrange(99), gap]
    for n in names:
        if rng.random() < 0.8:
            steps.append(['put', rng.randrange(3), n, rng.choice(olds), rng.choice([0, 0.2, 1, 100])])
    steps.append(['sync', 'baseline', gen_opts(rng), {}, None])
    for _ in range(rng.choice([1, 2, 3, 4, 6])):
        for _ in range(rng.choice([0, 1, 1, 2, 3, 5])):
            steps.append(change())
        for _ in range(rng.choice([1, 1, 2, 3])):
            r = rng.random()
            mode = rng.choice(['incremental', 'incremental', 'incremental', 'baseline'])
            o = gen_opts(rng)
            if mode == 'incremental':
                if rng.random() < 0.1:
                    o['from'] = '2010-01-01T00:00:00Z'
                if rng.random() < 0.15:
                    o['cl'] = rng.choice(['abs', 'rel'])
            late = None
            if rng.random() < 0.25:
                late = [rng.choice([0, 1, 1, 2, 3, 5]), [change() for _ in range(rng.choice([1, 1, 2, 3]))]]
            f = {}
            if r < 0.4:
                f = model.gen_faults(rng)
                if f.get('fs'):
                    f['fs']['calls'] = CALLS
            elif r < 0.47:
                f = {'slow': model.gen_slow(rng)}
            elif r < 0.56:
                o['dryrun'] = True
            if rng.random() < 0.3:
                f['skew'] = rng.choice([-5, 7200, 1e6, -1e8, 3e7])
            if rng.random() < 0.15:
                # somebody else's file, with a time of its own, to be deleted by a baseline
                steps.append(['extra', rng.randrange(3), rng.choice([-1e6, 0, 500, 3e6, 3e6])])
            if rng.random() < 0.1:
                f['jumps'] = [[rng.randrange(1, 60), rng.choice([-4000, 90000, 1e7])]]
            steps.append(['sync', mode, o, f, late])
    for _ in range(rng.choice([0, 1, 2])):
        steps.append(change())
    steps.append(['sync', 'incremental', gen_opts(rng), {}, None])
    if rng.random() < 0.3:
        conf['clnolen'] = True          # changes listed without sizes
    for s in steps:
        if s[0] == 'sync' and s[1] == 'baseline' and not s[3] and rng.random() < 0.25:
            # local files or directories that cannot be read
            s[3]['fs'] = {'p': rng.choice([0.05, 0.3]), 'only': ['dst'], 'calls': rng.choice([['read'], ['stat', 'scandir'], ['open', 'stat']])}
    if rng.random() < 0.08:
        # resource lists without times of the resources, which give no starting point
        conf['nolm'] = True
        for s in steps:
            if s[0] == 'sync' and s[1] == 'incremental' and rng.random() < 0.6:
                s[2]['from'] = '2010-01-01T00:00:00Z'
        for i in reversed(range(len(steps))):
            if steps[i][0] == 'sync' and steps[i][1] == 'baseline' and rng.random() < 0.6:
                steps.insert(i, ['extra', rng.randrange(3), rng.choice([-1e6, 500, 3e6])])
    return {'conf': conf, 'steps': steps, 'times': times, 'gran': rng.choice([1.0, 1.0, 0.001, 0.000001]),
            'spec': rng.choice(['1.0', '1.1', None]) if times == 'lastmod' else None,
            'clparts': rng.choice([0, 0, 0, 1, 2, 3]), 'since': rng.random() < 0.4}


def gen_opts(rng):
    return {'delete': True, 'hashes': model.gen_hashes(rng), 'timeout': rng.choice([10, 10, 60]),
            'tries': rng.choice([1, 2, 3]), 'ignore': rng.random() < 0.5}


class Run(object):
    def __init__(self, world, plan):
        self.w, self.plan = world, plan
        self.site = Site(world, plan['conf'])
        self.site.at = lambda: int(world.sim.now / plan['gran']) * plan['gran']
        self.site.classes()
        model.bystanders(self.site)
        self.cid = 0
        self.gran = plan['gran']
        self.baseline = False       # a baseline sync was completed, none has failed since
        self.recorded = False       # there must be a recorded starting point
        self.n = 0
        self.extras = set()

    def source_time(self, gap):
        self.w.sim.advance(gap)
        return int(self.w.sim.now / self.gran) * self.gran

    def change(self, step):
        site = self.site
        if step[0] == 'put':
            uri = site.uri(step[1], step[2])
            self.put(uri, step[3], step[4])
        elif step[0] == 'del':
            if site.res:
                uri = sorted(site.res)[step[1] % len(site.res)]
                t = self.source_time(step[2])
                site.remove(uri)
                site.record(uri, 'deleted', t)
        elif step[0] == 'flip':
            # deleted and created again
            if site.res:
                uri = sorted(site.res)[step[1] % len(site.res)]
                t = self.source_time(step[2])
                site.remove(uri)
                site.record(uri, 'deleted', t)
                self.put(uri, 0, 0)

        elif step[0] == 'extra':
            maps = site.conf['maps']
            p = self.w.p(maps[step[1] % len(maps)][1]) + '/zz-extra%d' % step[1]
            if os.path.isdir(os.path.dirname(p)):
                self.extras.add(p)
                write_file(p, b'extra', self.w.sim.now + step[2])

    def put(self, uri, old, gap):
        site = self.site
        t = self.source_time(gap)
        self.cid += 1
        kind = 'updated' if uri in site.res else 'created'
        # no two versions have the same size; files moved into place have old times
        size = self.cid * 3 + (20000 if self.cid % 9 == 5 else 0)
        ts = t
        if old == 1 and self.plan['times'] != 'lastmod':
            ts = 1.5e9 + self.cid * 777
        elif old == 2 and self.plan['times'] != 'lastmod' and site.conf.get('rs', True):
            ts = t + (5000, 400, 3e7, 90)[self.cid % 4]
            self.w.sim.probe('modified_in_future')
        site.put(uri, self.cid, size, ts)
        site.record(uri, kind, t)

    def stored(self):
        """The starting point on disk, None if there is none or it cannot be read."""
        p = self.w.cwd + '/.resync-client-status.cfg'
        if not os.path.exists(p):
            return None
        c = configparser.ConfigParser()
        try:
            c.read_string(read_file(p).decode('utf-8'))
            vals = [float(v) for k, v in c.items('incremental')]
        except (configparser.Error, ValueError):
            return None
        return vals[0] if vals else None

    def publish(self, o):
        site = self.site
        site.publish()
        since = 0.0
        if self.plan['since'] and not o.get('from'):
            s = self.stored()
            since = s if s is not None else 0.0
        self.since = since
        uri = None
        o = dict(o)
        if o.get('cl'):
            base = model.doc_locations(site.conf)['base']
            uri = base + '/chg/cl-1.xml'
            o['changelist'] = uri if o['cl'] == 'abs' else 'chg/cl-1.xml'
        self.cluri = uri
        self.republish_changes()
        return o

    def republish_changes(self):
        self.site.publish_changes(since=self.since, uri=self.cluri, parts=self.plan['clparts'],
                                  times=self.plan['times'])

    def sync(self, mode, o, f, late):
        site, sim = self.site, self.w.sim
        self.n += 1
        op = '%s%d' % (mode, self.n)
        if self.plan['spec']:
            o = dict(o, spec=self.plan['spec'])
        sim.advance(0.1)
        o = self.publish(o)
        if not site.res and mode == 'baseline':
            return
        expect = dict(site.res)
        loose = set()
        state = {'n': 0}

        def hook(uri, req):
            state['n'] += 1
            if state['n'] == late[0]:
                # parts of a resource list are not replaced while they are read (known finding of C03)
                self.do_late(late, loose, expect, mode == 'incremental' or not site.conf.get('parts'))
            return None
        if late is not None:
            if late[0] == 0:
                self.do_late(late, loose, expect, False)
            else:
                site.server.hook = hook
        pre = site.dst_tree()
        nf = sum(sim.faults.values())
        kw = model.run_args(f, len(site.listed_changes) + 2)
        kw['jumps'] = f.get('jumps') or ()
        if f.get('slow'):
            self.w.net.uri_fault = model.slow(site, f['slow'])
        try:
            r = sync(site, op, mode, o, **kw)
        finally:
            site.server.hook = self.w.net.uri_fault = None
        faulty = sum(sim.faults.values()) != nf
        if o.get('dryrun'):
            return
        failed = [m for (lv, nm, m) in r.log if lv >= 30 and not m.startswith(('Status:', 'Will ', 'Ignoring ', 'No capability '))]
        if mode == 'baseline':
            if r.ok and not failed:
                self.baseline = True
                if site.dst_tree() != pre and not site.conf.get('nolm'):
                    self.recorded = True
            elif r.kind != 'ok' or failed:
                # it may have stopped half way with respect to a list
                self.baseline = False
            if not faulty and not loose and (not r.ok or failed):
                raise Violation('failed: baseline without any fault ended with %s %s' % (r.brief(), failed[:2]))
            return
        if not self.baseline:
            return
        if (not r.ok or failed) and o.get('from'):
            # it may have spoiled copies of changes from before the recorded starting point
            self.baseline = False
        if not r.ok or failed:
            ok = (faulty or loose or (not self.recorded and not o.get('from') and 'No stored timestamp' in r.msg))
            if r.ok and all(m.startswith('Failed to DELETE') for m in failed):
                ok = True        # deletion of what is not there is reported
            if not ok:
                raise Violation('failed: incremental sync without any fault ended with %s %s' % (r.brief(), failed[:2]))
            if not (r.ok and all(m.startswith('Failed to DELETE') for m in failed) and not faulty):
                return
        self.w.nontrivial = True
        sim.probe('judged')
        if site.listed_changes:
            sim.probe('judged_with_changes')
        if r.statuses() and 'NO CHANGES' not in r.statuses()[0]:
            self.recorded = True
        self.judge(expect, loose)

    def do_late(self, late, loose, expect, republish=True):
        site = self.site
        old = dict(site.res)
        for c in late[1]:
            self.change(c)
        for u in set(old) | set(site.res):
            if old.get(u) != site.res.get(u):
                loose.add(u)
        # changed and changed back counts as changed
        for ch in site.changes[-2 * len(late[1]):]:
            loose.add(ch['uri'])
        self.w.sim.fault('change_during_sync')
        if republish:
            site.publish()
            self.republish_changes()

    def judge(self, expect, loose):
        site = self.site
        post = site.dst_tree()
        listed = {}
        for uri, (data, ts) in expect.items():
            p = site.path(uri)
            listed[p] = uri
            if uri in loose:
                continue
            v = post.get(p)
            if v is None:
                raise Violation('lost: %s is missing after a successful incremental sync' % p)
            if v[0] != data:
                raise Violation('lost: %s is not the last version after a successful incremental sync' % p)
            if self.plan['times'] != 'datetime' and not site.conf.get('nolm') and abs(v[1] - ts) >= 1:
                raise Violation('time: %s has time %r, listed is %r' % (p, v[1], ts))
        away = {site.path(u) for u in loose}
        for p in post:
            if p not in listed and p not in away and p not in self.extras:
                raise Violation('lost: %s was deleted at the source but is still there after a successful '
                                'incremental sync' % p)


def execute(world, plan):
    run = Run(world, plan)
    for step in plan['steps']:
        if step[0] == 'sync':
            run.sync(*step[1:])
        else:
            run.change(step)
    if world.sim.escapes:
        raise Violation('outside: %s' % (world.sim.escapes[:3],))
