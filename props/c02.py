"""C02: interrupted syncs leave nothing that a later sync cannot repair."""

from sim import model
from sim.core import Violation
from sim.model import Site, diff_trees, differs, full_tree, sync
from props.c01 import expected

BUDGET = {'quick': {'runs': 3200, 'wall': 100}, 'thorough': {'runs': 120000, 'wall': 1500}}
RULE = ('one run is a history of source changes and baseline or incremental syncs that are crashed, interrupted or '
        'hit by network and disk faults, followed by quiet recovery syncs; non-trivial if a fault was injected')
LISTS = ('steps',)
REAL = ('resync.client, client_state, resource_list, resource_list_builder, mapper, sitemap, url_or_file_open, '
        'resync-sync, urllib, http.client, shutil, configparser')
STUBS = 'TCP connections, HTTP server, clock, faults of the file system below the real calls, directory order'
ASSUMPTIONS = ('a killed process loses what it had not yet written; what was written survives (no power failure)',
               'directories of the destination are not replaced by files and vice versa',
               'local damage from elsewhere that keeps size and time is not generated (digests decide that in C17)')
LEVEL_NOTE = ('Crash points are before, after and in the middle of every mutating call; power loss (reordered or '
              'lost cached writes) is not modelled as the code never claims fsync durability.')


def plan(rng, tier):
    conf = model.gen_conf(rng)
    names = rng.sample(model.NAMES, rng.choice([1, 2, 3, 5, 8]))
    steps = []
    cid = [1]

    def put(n=None):
        cid[0] += 1
        return ['put', rng.randrange(3), n or rng.choice(names), cid[0], model.pick_size(rng), model.gen_ts(rng)]
    for n in names:
        if rng.random() < 0.8:
            steps.append(put(n))
    for _ in range(rng.choice([0, 1, 3])):
        steps.append(['local', 'extra', rng.randrange(9), rng.randrange(999)])
    if rng.random() < 0.5:
        steps.append(['recover', gen_opts(rng)])
    for rounds in range(rng.choice([1, 1, 2, 3])):
        for _ in range(rng.choice([0, 1, 2, 4])):
            r = rng.random()
            if r < 0.6:
                steps.append(put())
            elif r < 0.8:
                steps.append(['del', rng.randrange(99)])
            else:
                steps.append(['local', rng.choice(model.DAMAGES), rng.randrange(99), rng.randrange(9999)])
        for _ in range(rng.choice([1, 1, 2, 3])):
            steps.append(['faulty', rng.choice(['baseline', 'baseline', 'incremental']), gen_opts(rng),
                          model.gen_faults(rng)])
        steps.append(['recover', gen_opts(rng)])
    if rng.random() < 0.15:
        # lists without sizes, and no clock that shows the times of the source
        conf['nolen'] = True
        for s in steps:
            if s[0] == 'faulty' and s[3].get('skew', 0) < -1e7:
                s[3]['skew'] = 7200
            if s[0] == 'faulty' and rng.random() < 0.4:
                # failures of all kinds one after the other, for the same resource
                s[2].update(timeout=10, tries=3)
                s[3]['net'] = {'p': 0.5, 'kinds': ['stall_body', 'stall_body', rng.choice(['refuse', 's404', 'reset_head']),
                                                   rng.choice(['ctimeout', 'trunc', 's503', 'stall_head'])]}
    return {'conf': conf, 'steps': steps}


def gen_opts(rng):
    o = {'delete': rng.random() < 0.6, 'hashes': model.gen_hashes(rng)}
    if rng.random() < 0.6:
        o['timeout'] = 10
    o['tries'] = rng.choice([1, 2, 3])
    o['ignore'] = rng.random() < 0.4
    return o


def execute(world, plan):
    site = Site(world, plan['conf'])
    site.classes()
    model.bystanders(site)
    sim = world.sim
    n = 0
    for step in plan['steps']:
        k = step[0]
        sim.advance(1)
        if k == 'put':
            uri = site.uri(step[1], step[2])
            kind = 'updated' if uri in site.res else 'created'
            model.put_distinct(site, uri, step[3], step[4], step[5])
            site.record(uri, kind)
        elif k == 'del':
            if site.res:
                uri = sorted(site.res)[step[1] % len(site.res)]
                site.remove(uri)
                site.record(uri, 'deleted')
        elif k == 'local':
            model.damage(site, step)
        elif k == 'faulty':
            n += 1
            faulty(world, site, 'faulty%d' % n, step[1], step[2], step[3])
        elif k == 'recover':
            n += 1
            recover(world, site, 'recover%d' % n, step[1])
    recover(world, site, 'recover', {'delete': True})
    if sim.escapes:
        raise Violation('outside: %s' % (sim.escapes[:3],))


def publish(site):
    site.publish()
    site.publish_changes()


def faulty(world, site, op, mode, o, f):
    sim = world.sim
    publish(site)
    pre = site.dst_tree()
    before = full_tree(world)
    create, update, same, unsure, delete = expected(site, pre, o)
    allowed = set(create) | set(update) | set(unsure)
    removable = set(delete) if o.get('delete') else set()
    if mode == 'incremental':
        allowed = {site.path(ch['uri']) for ch in site.listed_changes if ch['data'] is not None}
        removable = ({site.path(ch['uri']) for ch in site.listed_changes if ch['change'] == 'deleted'}
                     if o.get('delete') else set())
        # only the last change of a resource counts
        last = {}
        for ch in site.listed_changes:
            last[site.path(ch['uri'])] = ch['change']
        allowed = {p for p in allowed if last[p] != 'deleted'}
        removable = {p for p in removable if last[p] == 'deleted'}
    scan = model.fault_sum(sim, model.SCAN_FAULTS)
    r = sync(site, op, mode, o, max_faults=f.get('max'), **model.run_args(f, len(allowed) + len(removable)))
    world.nontrivial = True
    if r.kind == 'crash':
        sim.probe('crashed')
    if mode == 'baseline' and model.fault_sum(sim, model.SCAN_FAULTS) != scan:
        # what could not be read in the scan looks as if it were missing
        allowed |= {site.path(u) for u in site.published}
    post = full_tree(world)
    touch = {p[len(world.root) + 1:] for p in allowed}
    remove = {p[len(world.root) + 1:] for p in removable}
    dsts = [d + '/' for (s, d) in site.conf['maps']]
    for k in set(before) | set(post):
        if before.get(k) == post.get(k) and (k in before) == (k in post):
            continue
        if k in touch:
            continue
        if k in remove and k not in post:
            continue
        if k.endswith('/') and k not in before and any(t.startswith(k) for t in touch):
            continue                    # directory made for a target
        if r.kind != 'ok' and k not in before and any(k.startswith(d) for d in dsts):
            continue                    # left behind, but to be cleaned up by the next sync
        if k.startswith('cwd/.resync-client-status.cfg') and k != 'cwd/.resync-client-status.cfg.bak':
            continue                    # judged by C06
        raise Violation('harmed: %s was changed by a %s that had no reason to (%s)'
                        % (k, mode, diff_trees({k: before[k]} if k in before else {},
                                               {k: post[k]} if k in post else {})))


def recover(world, site, op, o):
    publish(site)
    if not site.published:
        return
    o = dict(o, delete=True)
    pre = site.dst_tree()
    before = full_tree(world)
    r = sync(site, op, 'baseline', o)
    if not r.ok:
        raise Violation('recovery: baseline sync after the faults stopped ended with %s (%s)' % (r.brief(), r.where))
    post = site.dst_tree()
    listed = {}
    for uri, (data, ts) in site.published.items():
        p = site.path(uri)
        listed[p] = uri
        v = post.get(p)
        d = differs(pre[p], data, ts, set(o.get('hashes') or ()) & set(site.listed_hashes),
                    site.nolen) if p in pre else True
        if not d and pre[p][0] != data:
            raise Violation('recovery: %s has the listed size and time, but wrong bytes' % p)
        if v is None:
            raise Violation('recovery: %s is missing afterwards' % p)
        if v[0] != data:
            raise Violation('recovery: %s has wrong bytes afterwards (%d, expected %d)' % (p, len(v[0]), len(data)))
        if abs(v[1] - ts) >= 1.0 or (d and int(v[1]) != int(ts)):
            raise Violation('recovery: %s has time %r afterwards, listed is %r' % (p, v[1], ts))
    for p in post:
        if p not in listed:
            raise Violation('recovery: %s is still there afterwards' % p)
    after = full_tree(world)
    dsts = [d + '/' for (s, d) in site.conf['maps']]
    for k in set(before) | set(after):
        if any(k.startswith(d) for d in dsts) or k.startswith('cwd/.resync-client-status.cfg'):
            continue
        if before.get(k) != after.get(k) and not k.endswith('/'):
            raise Violation('harmed: %s was changed by the recovery' % k)
    # and another sync finds nothing to do
    r = sync(site, op + 'b', 'audit', {'hashes': o.get('hashes')})
    if not r.ok or not any('IN SYNC' in m and 'NOT' not in m for m in r.statuses()):
        raise Violation('recovery: an audit afterwards says %s %s' % (r.brief(), r.statuses()))
