"""C04: audits and dry runs change nothing."""

import os
import re

from sim import model
from sim.core import Violation
from sim.model import Site, diff_trees, full_tree, parse_status, sync

BUDGET = {'quick': {'runs': 2600, 'wall': 100}, 'thorough': {'runs': 100000, 'wall': 1500}}
RULE = ('one run is a history of source and destination changes with audits and dry runs, partly under faults, each '
        'followed by the real sync, which is repeated from a snapshot without the audit or dry run; non-trivial if '
        'there was something to create, update or delete, or a fault was injected')
LISTS = ('steps',)
REAL = ('resync.client, client_state, resource_list, resource_list_builder, change_list, mapper, sitemap, '
        'url_or_file_open, client_utils, resync-sync, urllib, http.client')
STUBS = 'TCP connections, HTTP server, clock, faults of the file system, directory order; source model'
ASSUMPTIONS = ('a log file that was asked for may be written',)


def plan(rng, tier):
    conf = model.gen_conf(rng, local_ok=True)
    names = model.local_names() if conf.get('local') else model.NAMES
    names = rng.sample(names, rng.choice([1, 2, 3, 5, 8]))
    cid = [1]
    steps = []

    def put(n=None):
        cid[0] += 1
        return ['put', rng.randrange(3), n or rng.choice(names), cid[0], model.pick_size(rng, 0.02), model.gen_ts(rng)]
    for n in names:
        if rng.random() < 0.85:
            steps.append(put(n))
    for _ in range(rng.choice([0, 1, 3])):
        steps.append(['local', 'extra', rng.randrange(9), rng.randrange(999)])
    if rng.random() < 0.7:
        steps.append(['real', 'baseline', {'delete': rng.random() < 0.5}])
    for _ in range(rng.choice([1, 2, 3])):
        for _ in range(rng.choice([0, 1, 2, 4])):
            r = rng.random()
            if r < 0.5:
                steps.append(put())
            elif r < 0.7:
                steps.append(['del', rng.randrange(99)])
            else:
                steps.append(['local', rng.choice(model.DAMAGES), rng.randrange(99), rng.randrange(9999)])
        mode = rng.choice(['baseline', 'baseline', 'incremental'])
        o = {'delete': rng.random() < 0.6, 'hashes': model.gen_hashes(rng), 'checksum': rng.random() < 0.5,
             'ignore': rng.random() < 0.3, 'timeout': rng.choice([None, 20]), 'tries': rng.choice([None, 1, 3]),
             'noauth': rng.random() < 0.2, 'verbose': rng.random() < 0.3, 'reldst': rng.random() < 0.2}
        if mode == 'incremental' and rng.random() < 0.3:
            o['from'] = '2001-01-01T00:00:00Z'
        o = {k: v for k, v in o.items() if v}
        dry = rng.choice(['audit', 'dryrun', 'dryrun']) if mode == 'baseline' else 'dryrun'
        r = rng.random()
        steps.append(['dry', dry, mode, o, model.gen_faults(rng) if r < 0.4 else None,
                      rng.random() < 0.25 and r >= 0.4, rng.random() < 0.2])
        if r < 0.4 and rng.random() < 0.3:
            steps.append(['dry', dry, mode, o, None, False, False])
    return {'conf': conf, 'steps': steps}


def publish(site, n):
    site.publish()
    site.publish_changes(parts=(0, 0, 2)[n % 3])


def execute(world, plan):
    site = Site(world, plan['conf'])
    site.classes()
    model.bystanders(site)
    sim = world.sim
    n = 0
    for step in plan['steps']:
        k = step[0]
        sim.advance(1)
        n += 1
        if k == 'put':
            uri = site.uri(step[1], step[2])
            kind = 'updated' if uri in site.res else 'created'
            model.put_distinct(site, uri, step[3], step[4], step[5])
            site.record(uri, kind)
        elif k == 'del':
            if site.res:
                uri = sorted(site.res)[step[1] % len(site.res)]
                site.remove(uri)
                site.record(uri, 'deleted')
        elif k == 'local':
            model.damage(site, step)
        elif k == 'real':
            if site.res:
                publish(site, 0)
                sync(site, 'real%d' % n, step[1], step[2])
        elif k == 'dry':
            dry(world, site, n, *step[1:])
    if sim.escapes:
        raise Violation('outside: %s' % (sim.escapes[:3],))


def sync_same(site, op, mode, o, dry):
    """Audit or dry run and then the real sync with one client object in one process."""
    w = site.world
    c = site.conf
    o = dict(o)
    if c.get('route') == 'explicit' and 'sitemap' not in o:
        o['sitemap'] = site.list_uri()
    if c.get('route') == 'caplist' and 'caplist' not in o:
        o['caplist'] = site.clu
    seen = {}

    def fn():
        cl = model.client(site, o)

        def go(audit):
            if mode == 'incremental':
                cl.incremental(allow_deletion=bool(o.get('delete')), from_datetime=o.get('from'))
            else:
                cl.baseline_or_audit(allow_deletion=bool(o.get('delete')), audit_only=audit)
        cl.dryrun = dry == 'dryrun'
        try:
            go(dry == 'audit')
        except Exception as e:
            if type(e).__name__ not in model.CLIENT_ERRORS:
                raise
        seen['tree'] = full_tree(w)
        cl.dryrun = False
        go(False)
    r = w.run(op, fn)
    return r, seen.get('tree')


def dry(world, site, n, dryk, mode, o, f, same, logfile):
    sim = world.sim
    publish(site, n)
    o = dict(o)
    if same:
        o['driver'] = 'api'
    before = full_tree(world)
    o1 = dict(o)
    if dryk == 'dryrun':
        o1['dryrun'] = True
    if logfile and not same:
        o1['logfile'] = world.p('log.txt')
        o1['driver'] = 'cli'
    m1 = 'audit' if dryk == 'audit' else mode
    kw = model.run_args(f, len(site.res)) if f else {}
    if kw.get('crash_at') is not None:
        # there should be no mutation to crash at: take a point of time instead
        kw['crash_at'] = 1 + kw['crash_at'] % 4
    if same:
        r2, mid = sync_same(site, 'both%d' % n, mode, o, dryk)
        if mid is not None:
            check(before, mid, '%s of a %s' % (dryk, mode), r2)
        word, r = None, None
    else:
        r = sync(site, '%s%d' % (dryk, n), m1, o1, **kw)
        after = full_tree(world)
        if o1.get('logfile'):
            after.pop('log.txt', None)
        check(before, after, '%s of a %s' % (dryk, mode), r)
        bad = [e for e in r.effects if not e[1].endswith('log.txt')]
        if bad:
            raise Violation('changed: %s of a %s made a change: %s' % (dryk, mode, bad[:3]))
        if o1.get('logfile'):
            model.restore(world, before)
        if not f and r.kind not in ('ok', 'error'):
            raise Violation('failed: %s ended with %s' % (dryk, r.brief()))
        r2 = sync(site, 'after%d' % n, mode, o, skew=(f or {}).get('skew', 0))
    end = full_tree(world)
    # the control: the same sync without what came before it
    reqs = [q[2] for q in site.server.requests if q[4] == r2.op]
    model.restore(world, before)
    r3 = sync(site, 'control%d' % n, mode, o, skew=(f or {}).get('skew', 0))
    control = full_tree(world)
    if (r2.kind, r2.exc) != (r3.kind, r3.exc):
        raise Violation('different: the sync after a %s ended with %s, without it with %s'
                        % (dryk, r2.brief(), r3.brief()))
    ct, et = model.without_times(control), model.without_times(end)
    d = diff_trees({k: (v, 0) if v is not None else v for k, v in ct.items()},
                   {k: (v, 0) if v is not None else v for k, v in et.items()})
    d += diff_trees({k: v for k, v in control.items() if k.startswith('dst')},
                    {k: v for k, v in end.items() if k.startswith('dst')})
    if d:
        raise Violation('different: the sync after a %s of a %s had another result than without it: %s'
                        % (dryk, mode, d))
    if not same:
        reqs3 = [q[2] for q in site.server.requests if q[4] == r3.op]
        if reqs != reqs3:
            raise Violation('different: the sync after a %s of a %s made other requests than without it' % (dryk, mode))
    if [m for m in r3.statuses()] and before != control:
        world.nontrivial = True
        sim.probe('dry_with_work')
    if r is None or not r.ok or f or not r3.ok:
        return
    announced(world, site, before, control, dryk, mode, o, r, r3)


def check(before, after, what, r):
    d = diff_trees(before, after)
    if d:
        raise Violation('changed: %s changed %s (%s)' % (what, d, r.brief()))


def announced(world, site, before, control, dryk, mode, o, r, r3):
    """What was announced is what the sync did."""
    root = world.root + '/'
    new = {k for k, v in control.items() if k.startswith('dst') and v is not None
           and (k not in before or before[k] != v)}
    gone = {k for k, v in before.items() if k.startswith('dst') and v is not None and k not in control}
    asked = set(model.fetched(r3, site))
    st = [parse_status(m) for m in r.statuses()]
    if not st:
        raise Violation('announced: no status')
    if dryk == 'audit':
        word, c = st[0]
        paths = {site.path(u) for u in asked}
        if not site.local and c.get('to create', 0) + c.get('to update', 0) != len(asked):
            raise Violation('announced: audit says %s, the sync fetched %d resources' % (c, len(asked)))
        if o.get('delete') and c.get('to delete', 0) != len(gone):
            raise Violation('announced: audit says %s, the sync deleted %d files' % (c, len(gone)))
        return
    wg = re.compile(r'^dryrun: would GET (.*) --> (.*)$')
    wd = re.compile(r'^dryrun: would delete (.*) -> (.*)$')
    get, dele = set(), set()
    for m in r.messages():
        x = wg.match(m)
        if x:
            get.add((x.group(1), os.path.normpath(os.path.join(world.cwd, x.group(2)))))
        x = wd.match(m)
        if x:
            dele.add(os.path.normpath(os.path.join(world.cwd, x.group(2))))
    if not site.local and {u for (u, p) in get} != asked:
        raise Violation('announced: dry run would get %s, the sync got %s' % (sorted(get)[:4], sorted(asked)[:4]))
    extra = {root + k for k in new} - {p for (u, p) in get}
    if extra:
        raise Violation('announced: the sync wrote %s, which was not announced' % sorted(extra)[:4])
    gone_p = {root + k for k in gone}
    if not gone_p <= dele:
        raise Violation('announced: the sync deleted %s, which was not announced' % sorted(gone_p - dele)[:4])
    still = {p for p in dele if p[len(root):] in before} - gone_p
    if still:
        raise Violation('announced: the sync did not delete %s as announced' % sorted(still)[:4])
