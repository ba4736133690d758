"""C03: a source description that was not read completely changes nothing."""

import re

from sim import model
from sim.core import Violation
from sim.model import Site, diff_trees, full_tree, sync
from sim.net import FAIL_KINDS, TIMEOUT_KINDS
from sim.fs import write_file, _real

BUDGET = {'quick': {'runs': 4200, 'wall': 100}, 'thorough': {'runs': 150000, 'wall': 1500}}
RULE = ('one run syncs a destination, changes source and destination, then runs baseline or incremental syncs in which '
        'one document of the source cannot be read completely, or in which the source republishes its list at a '
        'given request; non-trivial if a document was damaged, a request failed or the list was republished')
LISTS = ('steps',)
REAL = ('resync.client, list_base, list_base_with_index, sitemap, source_description, capability_list, '
        'url_or_file_open, resync-sync, defusedxml, urllib, http.client')
STUBS = 'TCP connections, HTTP server, clock, file-system faults; documents come from a writer of the check'
ASSUMPTIONS = ('a response cut short without any length information is only detectable if the document is not '
               'well-formed; documents cut only in trailing white space count as complete',
               'multi-file lists are not republished while they are being read (known finding)')

CONTENT = ('missing', 'cut', 'cut', 'html', 'zero', 'wrongcap', 'emptylist', 'noloc', 'badmd', 'baddate',
           'wrongroot', 'entities', 'twolocs', 'nesting', 'badutf8', 'twomd', 'emptyparts')


def plan(rng, tier):
    conf = model.gen_conf(rng, local_ok=True)
    if rng.random() < 0.4:
        conf['parts'] = rng.choice([1, 2, 3])
    names = model.local_names() if conf.get('local') else model.NAMES
    names = rng.sample(names, rng.choice([1, 2, 3, 5, 8]))
    cid = [1]
    steps = []

    def put(n=None):
        cid[0] += 1
        return ['put', rng.randrange(3), n or rng.choice(names), cid[0], model.pick_size(rng, 0.02), model.gen_ts(rng)]
    for n in names:
        steps.append(put(n))
    for _ in range(rng.choice([0, 1, 3])):
        steps.append(['local', 'extra', rng.randrange(9), rng.randrange(999)])
    if rng.random() < 0.8:
        steps.append(['good', 'baseline', {'delete': True}])
    for _ in range(rng.choice([1, 2, 3])):
        for _ in range(rng.choice([0, 1, 2, 3])):
            r = rng.random()
            if r < 0.5:
                steps.append(put())
            elif r < 0.75:
                steps.append(['del', rng.randrange(99)])
            else:
                steps.append(['local', rng.choice(model.DAMAGES), rng.randrange(99), rng.randrange(9999)])
        o = {'delete': rng.random() < 0.75, 'hashes': model.gen_hashes(rng), 'ignore': rng.random() < 0.4,
             'timeout': rng.choice([None, 5]), 'tries': rng.choice([None, 1, 3])}
        o = {k: v for k, v in o.items() if v is not None}
        mode = rng.choice(['baseline', 'baseline', 'incremental'])
        r = rng.random()
        if r < 0.55 or conf.get('local'):
            steps.append(['broken', mode, o, rng.randrange(99), rng.choice(CONTENT), round(rng.random(), 4),
                          rng.choice([0, 1, 2])])
        elif r < 0.9:
            steps.append(['failing', mode, o, rng.randrange(99), rng.choice(FAIL_KINDS + TIMEOUT_KINDS),
                          round(rng.random() * 0.97, 4)])
        else:
            steps.append(['race', o, rng.randrange(12), [put() for _ in range(2)], rng.randrange(99)])
        if rng.random() < 0.3:
            steps.append(['good', rng.choice(['baseline', 'incremental']), {'delete': rng.random() < 0.5}])
    return {'conf': conf, 'steps': steps}


def relevant(site, mode):
    """Documents that have to be read, in no particular order."""
    docs = sorted(site.server.docs)
    cl = model.doc_locations(site.conf)['base'] + '/changelist'
    if mode == 'incremental':
        return [u for u in docs if u.startswith(cl)]
    return [u for u in docs if not u.startswith(cl)]


def publish(site, clparts):
    site.publish()
    site.publish_changes(parts=clparts)


def damage_doc(data, kind, frac, is_part, is_index):
    """The bytes to serve instead, None for none, False if not applicable."""
    if kind == 'missing':
        return None
    if kind == 'cut':
        n = len(data.rstrip())
        return data[:min(n - 1, int(frac * n))]
    if kind == 'html':
        return b'<!DOCTYPE html>\n<html><head><title>Not here</title></head><body><p>Login<br></body></html>'
    if kind == 'zero':
        return b''
    if kind == 'wrongcap':
        if b'capability=' not in data:
            return False
        head, sep, tail = data.partition(b'capability="')
        cap, q, rest = tail.partition(b'"')
        new = [b'changedump', b'resourcedump', b'resourcelist-archive', b'description'][int(frac * 4) % 4]
        if new == cap:
            new = b'resourcedump'
        # only the capability of the document itself, which comes before all entries
        if b'<url>' in head or b'<sitemap>' in head:
            return False
        return head + sep + new + q + rest
    if kind == 'emptylist':
        if is_part:
            return False
        return re.sub(br'<(url|sitemap)>.*</(url|sitemap)>', b'', data, flags=re.S)
    if kind == 'wrongroot':
        return data.replace(b'urlset', b'urlsets').replace(b'sitemapindex', b'sitemapsindex')
    if kind == 'entities':
        i = data.index(b'?>') + 2
        return data[:i] + b'<!DOCTYPE x [<!ENTITY e "yyyy">]>' + data[i:].replace(b'</loc>', b'&e;</loc>', 1)
    if kind == 'nesting':
        if not is_part:
            return False
        return data.replace(b'urlset', b'sitemapindex').replace(b'<url>', b'<sitemap>').replace(b'</url>', b'</sitemap>')
    if kind == 'badutf8':
        return data.replace(b'</loc>', b'\xff\xfe</loc>', 1) if b'</loc>' in data else False
    # the rest damage one entry
    n = data.count(b'</loc>')
    if not n:
        return False
    k = int(frac * n) % n
    bits = data.split(b'<loc>')
    if kind == 'noloc':
        bits[k + 1] = bits[k + 1].split(b'</loc>', 1)[1]
        return b'<loc>'.join(bits[:k + 1]) + bits[k + 1] + b''.join(b'<loc>' + b for b in bits[k + 2:])
    if kind == 'twolocs':
        bits[k + 1] = bits[k + 1].replace(b'</loc>', b'</loc><loc>http://example.org/base/second</loc>', 1)
        return b'<loc>'.join(bits)
    if kind == 'badmd':
        if b' length="' not in bits[k + 1]:
            return False
        bits[k + 1] = bits[k + 1].replace(b' length="', b' length="x', 1)
        return b'<loc>'.join(bits)
    if kind == 'baddate':
        if b'<lastmod>' not in bits[k + 1]:
            return False
        bits[k + 1] = bits[k + 1].replace(b'<lastmod>', b'<lastmod>not-', 1)
        return b'<loc>'.join(bits)
    if kind == 'twomd':
        if b'<rs:md' not in bits[k + 1].split(b'</url>')[0].split(b'</sitemap>')[0]:
            return False
        bits[k + 1] = bits[k + 1].replace(b'<rs:md', b'<rs:md length="3"/><rs:md', 1)
        return b'<loc>'.join(bits)
    raise AssertionError(kind)


def execute(world, plan):
    site = Site(world, plan['conf'])
    site.classes()
    model.bystanders(site)
    sim = world.sim
    n = 0

    def put(step):
        uri = site.uri(step[1], step[2])
        kind = 'updated' if uri in site.res else 'created'
        model.put_distinct(site, uri, step[3], step[4], step[5])
        site.record(uri, kind)

    for step in plan['steps']:
        k = step[0]
        sim.advance(1)
        n += 1
        op = '%s%d' % (k, n)
        if k == 'put':
            put(step)
        elif k == 'del':
            if len(site.res) > 1:
                uri = sorted(site.res)[step[1] % len(site.res)]
                site.remove(uri)
                site.record(uri, 'deleted')
        elif k == 'local':
            model.damage(site, step)
        elif not site.res:
            continue
        elif k == 'good':
            publish(site, 0)
            pre = site.dst_tree()
            r = sync(site, op, step[1], step[2])
            if not r.ok and not (step[1] == 'incremental' and 'No stored timestamp' in r.msg):
                raise Violation('quiet sync failed: %s (%s)' % (r.brief(), r.where))
            if not step[2].get('delete'):
                gone = sorted(set(pre) - set(site.dst_tree()))
                if gone:
                    raise Violation('deleted: without --delete: %s' % gone[:3])
        elif k == 'broken':
            mode, o, sel, kind, frac, clparts = step[1:]
            publish(site, clparts)
            if kind == 'emptyparts':
                # a multi-file list without any entry
                if mode == 'incremental' or not site.part_uris:
                    continue
                for uri in site.part_uris:
                    new = damage_doc(site.server.docs[uri], 'emptylist', frac, False, False)
                    site.server.docs[uri] = new
                    if site.local:
                        write_file(uri, new)
                must_fail(world, site, op, mode, o, 'empty parts of %s' % site.list_uri(), {})
                continue
            rel = relevant(site, mode)
            uri = rel[sel % len(rel)]
            data = site.server.docs[uri]
            is_part = bool(re.search(r'\d{5}\.xml$', uri))
            new = damage_doc(data, kind, frac, is_part, b'<sitemapindex' in data)
            if new is False or new == data:
                continue
            if kind == 'emptylist' and (mode == 'incremental' or not data.count(b'<loc>')):
                continue
            if new is None:
                del site.server.docs[uri]
            else:
                site.server.docs[uri] = new
            if site.local:
                if new is None:
                    _real['unlink'](uri)
                else:
                    write_file(uri, new)
            must_fail(world, site, op, mode, o, '%s of %s' % (kind, uri), {})
        elif k == 'failing':
            mode, o, sel, kind, frac = step[1:]
            publish(site, sel % 3)
            # learn the order of requests from a run that changes nothing
            start = len(world.net.attempts)
            o2 = dict(o, dryrun=True)
            r = sync(site, op + 'p', 'audit' if mode == 'baseline' else mode, o2)
            if not r.ok:
                if mode == 'incremental' and 'No stored timestamp' in r.msg:
                    continue
                raise Violation('quiet sync failed: %s (%s)' % (r.brief(), r.where))
            seen = world.net.attempts[start:]
            rel = set(relevant(site, mode))
            idx = [i for i, a in enumerate(seen) if a.get('tag') and a['tag'][0] == 'doc' and a['tag'][1] in rel]
            if not idx:
                continue
            nth = idx[sel % len(idx)]
            what = '%s while fetching %s' % (kind, seen[nth]['tag'][1])
            cnt = [0]
            # a URI may be asked for twice (base and host locations can be the same)
            lasting = kind == 'redirect_loop' or sel % 2 or site.conf['maps'][0][0].count('/') == 2

            def kind_for(host):
                cnt[0] += 1
                return [kind, frac] if cnt[0] == nth + 1 or (lasting and cnt[0] > nth) else None
            world.net.kind_for = kind_for
            try:
                must_fail(world, site, op, mode, o, what, {})
            finally:
                world.net.kind_for = None
        elif k == 'mixed':
            mixed(world, site, op)
        elif k == 'race':
            race(world, site, op, step)
    if sim.escapes:
        raise Violation('outside: %s' % (sim.escapes[:3],))


def must_fail(world, site, op, mode, o, what, kw):
    before = full_tree(world)
    r = sync(site, op, mode, o, **kw)
    if mode == 'incremental' and 'No stored timestamp' in r.msg:
        return
    world.nontrivial = True
    world.sim.probe('broken_' + mode)
    d = diff_trees(before, full_tree(world))
    if d:
        raise Violation('changed: files were changed by a %s that met: %s: %s (%s)' % (mode, what, d, r.brief()))
    if r.ok:
        raise Violation('accepted: %s reports no error although: %s' % (mode, what))


def race(world, site, op, step):
    """The source replaces its single-file list and its resources during the sync."""
    o, at, puts, dele = step[1:]
    sim = world.sim
    parts, site.conf['parts'] = site.conf.get('parts'), 0
    publish(site, 0)
    gens = [(dict(site.server.docs), dict(site.published))]
    lu = site.list_uri()
    state = {'n': 0, 'served': None}
    start = len(site.server.requests)

    def hook(uri, req):
        state['n'] += 1
        if state['n'] == at + 1:
            for p in puts:
                u = site.uri(p[1], p[2])
                model.put_distinct(site, u, p[3], p[4], p[5])
                site.record(u, 'updated')
            if len(site.res) > 1:
                u = sorted(site.res)[dele % len(site.res)]
                site.remove(u)
                site.record(u, 'deleted')
            publish(site, 0)
            gens.append((dict(site.server.docs), dict(site.published)))
            sim.fault('republish')
        if uri == lu:
            state['served'] = gens[-1][1]
        return None
    site.server.hook = hook
    pre = site.dst_tree()
    try:
        r = sync(site, op, 'baseline', o)
    finally:
        site.server.hook = None
        site.conf['parts'] = parts
    if r.kind not in ('ok', 'error'):
        raise Violation('race: sync ended with %s' % r.brief())
    post = site.dst_tree()
    gone = sorted(set(pre) - set(post))
    listed = {site.path(u) for u in (state['served'] or {})}
    bad = [p for p in gone if p in listed or not o.get('delete') or state['served'] is None]
    if bad:
        raise Violation('deleted: %s although in the list that was read, or deletion is off' % bad[:3])


def mixed(world, site, op):
    """The source changes its list between the requests for two of its parts."""
    publish(site, 0)
    second = site.part_uris[1]
    names = sorted(site.published)
    done = []

    def hook(uri, req):
        if uri == second and not done:
            # parts hold one entry each: the second entry moves to the first part
            done.append(1)
            site.remove(names[0])
            site.put(site.uri(0, 'z'), 77, 10, 1e9)
            publish(site, 0)
        return None
    site.server.hook = hook
    pre = site.dst_tree()
    r = sync(site, op, 'baseline', {'delete': True})
    site.server.hook = None
    gone = [p for p in sorted(set(pre) - set(site.dst_tree())) if p != site.path(names[0])]
    if gone:
        raise Violation('deleted: %s is in the source and in every version of its list' % gone[0])


FINDINGS = {'mixed_generations': {
    'conf': {'maps': [['http://example.org/base', 'dst/d0']], 'route': 'rl', 'parts': 1, 'style': 0,
             'pretty': False, 'driver': 'api', 'hashes': []},
    'steps': [['put', 0, 'a', 1, 10, 1e9], ['put', 0, 'b', 2, 10, 1e9], ['put', 0, 'c', 3, 10, 1e9],
              ['good', 'baseline', {'delete': True}], ['mixed']]}}
