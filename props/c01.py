"""C01: a completed baseline sync makes the destination an exact copy."""

import os

from sim import model, net
from sim.core import Violation
from sim.model import Site, differs, diff_trees, full_tree, parse_status, sync
from sim.fs import write_file

BUDGET = {'quick': {'runs': 2600, 'wall': 100}, 'thorough': {'runs': 120000, 'wall': 1500}}
RULE = ('one run is a history of source changes, republications, local damage, audits and baseline syncs '
        'against one source; it is non-trivial if a sync had something to do')
LISTS = ('steps',)
SIMPLE = (('benign', 0.0),)
REAL = ('resync.client, resource_list, resource_list_builder, mapper, sitemap, list_base(_with_index), '
        'source_description, capability_list, hashes, url_or_file_open, url_authority, resync-sync, '
        'resync-build (for the lists in a fifth of the runs), urllib and http.client')
STUBS = 'TCP connections, HTTP server, clock, directory order; source model and writer of most documents'
ASSUMPTIONS = ('names without double slashes, fragments, spaces or non-ASCII characters',
               'no resource path is a directory of another one, at any time of a history',
               'successive versions differ in size, if sizes are listed, or by two seconds')


def plan(rng, tier):
    conf = model.gen_conf(rng, local_ok=True)
    names = model.local_names() if conf.get('local') else model.NAMES
    names = rng.sample(names, rng.choice([1, 2, 3, 5, 8, 14]))
    if rng.random() < 0.008:
        names += ['k/%03d' % i for i in range(rng.choice([60, 130, 300]))]
    steps = []
    cid = 1

    def put():
        nonlocal cid
        cid += 1
        return ['put', rng.randrange(3), rng.choice(names), cid, model.pick_size(rng), model.gen_ts(rng)]
    for i in range(len(names)):
        steps.append(['put', rng.randrange(3), names[i], cid + 100 + i, model.pick_size(rng), model.gen_ts(rng)])
    for _ in range(rng.choice([0, 0, 2])):
        steps.append(['local', 'extra', rng.randrange(9), rng.randrange(999)])
    nsync = rng.choice([1, 2, 2, 3, 3, 4, 6])
    for s in range(nsync):
        steps.append(['pub', rng.random() < 0.2, rng.randrange(1000)])
        r = rng.random()
        if r < 0.25:
            steps.append(['audit', gen_opts(rng, conf)])
        steps.append(['sync', gen_opts(rng, conf)])
        if rng.random() < 0.2:
            steps.append(['sync', gen_opts(rng, conf)])
        for _ in range(rng.randrange(5)):
            r = rng.random()
            if r < 0.45:
                steps.append(put())
            elif r < 0.6:
                steps.append(['del', rng.randrange(99)])
            elif r < 0.95:
                steps.append(['local', rng.choice(model.DAMAGES), rng.randrange(99), rng.randrange(9999)])
            else:
                steps.append(['tick', rng.choice([1, 3600, 1e6])])
        if rng.random() < 0.12:
            conf_change = rng.choice([['conf', 'parts', rng.choice([0, 1, 2, 4])],
                                      ['conf', 'route', rng.choice(['rl', 'explicit'] if conf.get('local')
                                                                   else model.ROUTES)],
                                      ['conf', 'hashes', model.gen_hashes(rng)]])
            steps.append(conf_change)
    if rng.random() < 0.12:
        conf['nolen'] = True
    return {'conf': conf, 'steps': steps, 'benign': rng.choice([0.0, 0.0, 0.2, 0.5]),
            'short': rng.random() < 0.3}


def gen_opts(rng, conf):
    o = {'delete': rng.random() < 0.6, 'hashes': model.gen_hashes(rng), 'checksum': rng.random() < 0.5}
    if rng.random() < 0.3:
        o['timeout'] = rng.choice([5, 60])
        o['tries'] = rng.choice([1, 3])
    if rng.random() < 0.3:
        o['verbose'] = True
    if rng.random() < 0.1:
        o['reldst'] = True
    if rng.random() < 0.15:
        o['noauth'] = True
    return o


def kw(plan):
    return {'fs_cfg': {'p': 0.0, 'short': plan.get('short')},
            'net_cfg': {'p': plan.get('benign', 0.0), 'kinds': list(net.BENIGN)}}


def expected(site, pre, o):
    """Model of what stands between destination and list: dicts by path."""
    hashes = set(o.get('hashes') or ()) & set(site.listed_hashes)
    create, update, same, unsure, delete = {}, {}, {}, {}, {}
    listed = {}
    for uri, (data, ts) in site.published.items():
        p = site.path(uri)
        listed[p] = uri
        v = pre.get(p)
        if v is None:
            create[p] = uri
            continue
        d = differs(v, data, ts, hashes, site.nolen)
        (unsure if d is None else update if d else same)[p] = uri
    for p, v in pre.items():
        if p not in listed:
            delete[p] = v
    return create, update, same, unsure, delete


def judge(world, site, pre, before, o, r, op, mode):
    """Compare a baseline or audit that ran without faults with the model."""
    if not site.published:
        if r.kind == 'ok':
            raise Violation('empty list: sync against an empty list reports no error')
        post = full_tree(world)
        d = [x for x in diff_trees(before, post, 10 ** 6) if 'cwd/' not in x]
        if d:
            raise Violation('empty list: files changed: %s' % d)
        return
    if not r.ok:
        raise Violation('failed: %s without any fault ended with %s (%s)' % (mode, r.brief(), r.where))
    create, update, same, unsure, delete = expected(site, pre, o)
    post = site.dst_tree()
    st = [parse_status(m) for m in r.statuses()]
    if not st:
        raise Violation('status: no status reported by %s' % mode)
    word, n = st[0]
    if not unsure:
        want = (len(same), len(create), len(update), len(delete))
        got = (n.get('same'), n.get('to create'), n.get('to update'), n.get('to delete'))
        if want != got:
            raise Violation('report: %s reported (same, create, update, delete) as %s, but it is %s'
                            % (mode, got, want))
        insync = not (create or update or delete)
        if (word == 'IN SYNC') != insync:
            raise Violation('report: %s says %s with %s' % (mode, word, want))
    if mode == 'audit':
        after = full_tree(world)
        d = diff_trees(before, after)
        if d:
            raise Violation('audit: changed files: %s' % d)
        bodies = [u for u in model.fetched(r, site)]
        if bodies:
            raise Violation('audit: downloaded %s' % bodies[:3])
        return
    bodies = model.fetched(r, site)
    # an answer by redirection is asked for twice
    for p, uri in list(create.items()) + list(update.items()):
        data, ts = site.published[uri]
        v = post.get(p)
        if v is None:
            raise Violation('missing: %s not copied to %s' % (uri, p))
        if v[0] != data:
            raise Violation('content: %s has wrong bytes (%d, expected %d)' % (p, len(v[0]), len(data)))
        if int(v[1]) != int(ts):
            raise Violation('time: %s has time %r, listed is %r' % (p, v[1], ts))
        if not site.local and bodies.count(uri) != 1:
            raise Violation('requests: %s requested %d times' % (uri, bodies.count(uri)))
    for p, uri in same.items():
        if not site.local and uri in bodies:
            raise Violation('needless download: %s is up to date' % uri)
        if post.get(p) != pre.get(p):
            raise Violation('same: up to date file %s was changed' % p)
    for p, v in delete.items():
        if o.get('delete'):
            if p in post:
                raise Violation('not deleted: %s remains' % p)
        elif post.get(p) != v:
            raise Violation('kept: %s was changed although deletion is off' % p)
    for p in post:
        if p not in pre and p not in create:
            raise Violation('stray: new file %s' % p)
    if create or update or (delete and o.get('delete')):
        world.nontrivial = True
        world.sim.probe('sync_with_work')
    if create or update or delete:
        w2, n2 = st[-1]
        if len(st) < 2:
            raise Violation('status: no final status')
        if not unsure:
            # what was done; without --delete, how many it would have removed
            left = bool(delete) and not o.get('delete')
            kd = 'to delete (--delete)' if left else 'deleted'
            got = (n2.get('same'), n2.get('created'), n2.get('updated'), n2.get(kd))
            want = (len(same), len(create), len(update), len(delete))
            if got != want:
                raise Violation('final status: (same, created, updated, %s) reported as %s, but it is %s'
                                % (kd, got, want))
            if w2 != ('PART SYNCED' if left else 'SYNCED'):
                raise Violation('final status: says %s (%d not deleted)' % (w2, len(delete) if left else 0))
    # nothing outside the destination and the client's state
    after = full_tree(world)
    for d in diff_trees(before, after, limit=10 ** 6):
        name = d.lstrip('+-').split(' ')[0]
        if not name.startswith('dst') and not name.startswith('cwd/'):
            raise Violation('outside: %s' % d)


def execute(world, plan):
    site = Site(world, plan['conf'])
    site.classes()
    sim = world.sim
    n = 0
    for step in plan['steps']:
        k = step[0]
        if k == 'put':
            model.put_distinct(site, site.uri(step[1], step[2]), step[3], step[4], step[5])
        elif k == 'del':
            if site.res:
                site.remove(sorted(site.res)[step[1] % len(site.res)])
        elif k == 'local':
            model.damage(site, step)
        elif k == 'tick':
            sim.advance(step[1])
        elif k == 'conf':
            site.conf[step[1]] = step[2]
        elif k == 'pub':
            if step[1] and not site.local:
                site.publish_real(step[2])
            else:
                site.publish()
        elif k in ('sync', 'audit'):
            if not site.server.docs:
                site.publish()
            # the list says what it said when it was published: serve the same
            n += 1
            o = step[1]
            mode = 'baseline' if k == 'sync' else 'audit'
            pub_now = all(site.server.files.get(u, (None,))[0] == d for u, (d, t) in site.published.items())
            if not pub_now:
                site.publish()
            pre = site.dst_tree()
            before = full_tree(world)
            r = sync(site, '%s%d' % (k, n), mode, o, **kw(plan))
            judge(world, site, pre, before, o, r, '%s%d' % (k, n), mode)
    if sim.escapes:
        raise Violation('outside: %s' % (sim.escapes[:3],))


def _scn(steps, **conf):
    c = {'maps': [['http://example.org/base', 'dst/d0']], 'route': 'rl', 'parts': 0, 'style': 0,
         'pretty': False, 'driver': 'api', 'hashes': []}
    c.update(conf)
    return {'conf': c, 'steps': steps, 'benign': 0.0}


_S = ['sync', {'delete': True}]
FINDINGS = {
    'utc_offset': _scn([['put', 0, 'a', 1, 10, 1e9], ['pub', False, 0], _S], style=2),
    'file_becomes_directory': _scn([['put', 0, 'd', 1, 10, 1e9], ['put', 0, 'x', 2, 10, 1e9], ['pub', False, 0], _S,
                                    ['del', 0], ['put', 0, 'd/a', 3, 10, 1e9], ['pub', False, 0], _S]),
    'directory_becomes_file': _scn([['put', 0, 'd/a', 1, 10, 1e9], ['put', 0, 'x', 2, 10, 1e9], ['pub', False, 0], _S,
                                    ['del', 0], ['put', 0, 'd', 3, 10, 1e9], ['pub', False, 0], _S]),
}
