"""C11: a generated change list is the exact difference of two inventories."""

import os
import re

from sim import model
from sim.core import Violation
from sim.fs import tree, write_file, _real
from sim.source import ReadError, Server, content, digest, doc, hash_att, iso, parse_iso, read_doc
from props.c03 import damage_doc

BUDGET = {'quick': {'runs': 7000, 'wall': 120}, 'thorough': {'runs': 300000, 'wall': 1500}}
RULE = ('one run is a history of two to five states of a collection; between successive states change lists are written '
        'from a reference list (local or from a web server, in parts or not) and the files or a second list, under '
        'damaged, missing and failing references, disk errors and crashes; non-trivial if something changed or failed')
LISTS = ('steps',)
REAL = ('resync-build, client.write_change_list, resource_list.compare, resource.equal, change_list, sitemap, '
        'resource_list_builder, list_base_with_index, urllib.request, http.client')
STUBS = 'clock, network below the socket calls, faults and crashes of the file system'
ASSUMPTIONS = ('a resource counts as changed if time (by a second or more), size or a digest that both lists have differ',
               'the scan of the files themselves does not fail (see C10)',
               'an entry that was only a second or less newer and has the same size and no digests is the same')
BROKEN = ['missing', 'cut', 'html', 'zero', 'wrongcap', 'wrongroot', 'entities', 'noloc', 'twolocs', 'badmd', 'badutf8', 'dup']
NET = ['refuse', 'dns', 'reset_head', 'close_head', 'reset_body', 'trunc', 's404', 's500', 's503', 'badchunk', 'garbage']
LINKS = [['--link', 'describedby', {}], ['--link', 'alternate', {'type': 'text/html', 'pri': '2'}],
         ['--link', 'via', {'modified': '2020-01-01T00:00:00Z', 'length': '12'}], ['--describedby-link', 'describedby', {}],
         ['--capabilitylist-link', 'up', {}], ['--sourcedescription-link', None, {}]]
MIMES = [None, None, 'text/plain', 'a/b; c="d"']


def gen_file(rng):
    ts = round(model.gen_ts(rng), 6)
    if rng.random() < 0.08:             # the clock of whoever wrote the file was ahead
        ts = round(1.6e9 + rng.choice([40, 1e5, 3e7, 3e8]) + rng.random(), rng.choice([0, 3]))
    return [rng.randrange(1000), rng.choice([0, 1, 5, 5, 100, 20000]), ts, rng.choice(MIMES)]


def gen_edits(rng, names):
    out = []
    for _ in range(rng.choice([0, 1, 2, 3, 5, 9])):
        k = rng.choice(['put', 'put', 'del', 'del', 'size', 'touch', 'back', 'flip', 'flip', 'tiny', 'one', 'one', 'all'])
        if k == 'all' and rng.random() < 0.8:
            k = 'put'
        out.append([k, rng.randrange(2), rng.choice(names), gen_file(rng), rng.randrange(100)])
    return out


def plan(rng, tier):
    nmap = rng.choice([1, 1, 2])
    names = model.pick_names(rng, rng.choice([2, 5, 12, 30]))
    start = [['put', rng.randrange(2), rng.choice(names), gen_file(rng), 0] for _ in range(rng.choice([0, 1, 4, 8, 20]))]
    steps = []
    for _ in range(rng.choice([1, 2, 3, 4])):
        st = {'edits': gen_edits(rng, names), 'ref': gen_side(rng), 'new': gen_side(rng) if rng.random() < 0.45 else None,
              'hashes': model.gen_hashes(rng), 'exclude': rng.random() < 0.15, 'limit': rng.choice([None, None, 1, 2, 5]),
              'stdout': rng.random() < 0.2, 'api': rng.random() < 0.3, 'bad': None, 'net': None, 'fs': None, 'crash': None,
              'same': rng.random() < 0.05, 'nomulti': rng.random() < 0.08,
              'badre': rng.choice(['(', '*x', '[', 'a{2,1}']) if rng.random() < 0.06 else None,
              'spec10': rng.random() < 0.12, 'checksum': rng.random() < 0.5,
              'links': [rng.choice(LINKS) for _ in range(rng.choice([0, 0, 0, 1, 2, 3]))], 'empty': rng.random() < 0.04}
        r = rng.random()
        if r < 0.25:
            st['bad'] = [rng.choice(['ref', 'ref', 'new']), rng.randrange(50), rng.choice(BROKEN), round(rng.random() * 0.999, 4)]
        elif r < 0.4:
            st['net'] = {'p': rng.choice([0.1, 0.4, 0.8]), 'kinds': NET if rng.random() < 0.5 else rng.sample(NET, 2)}
        elif r < 0.5:
            st['fs'] = {'p': rng.choice([0.1, 0.4]), 'only': ['lists'], 'calls': ['open', 'read']}
        elif r < 0.6:
            st['fs'] = {'p': rng.choice([0.1, 0.4]), 'only': ['out'], 'short': rng.random() < 0.5}
        elif r < 0.7:
            st['crash'] = [round(rng.random(), 4), rng.choice(['before', 'after', 'torn', 'sigint'])]
        steps.append(st)
    return {'nmap': nmap, 'start': start, 'steps': steps}


def gen_side(rng):
    return {'web': rng.random() < 0.35, 'parts': rng.choice([0, 0, 1, 2, 4]), 'shuffle': rng.random() < 0.4,
            'hashes': model.gen_hashes(rng), 'style': rng.choice([0, 0, 1, 4]), 'pretty': rng.random() < 0.3,
            'drop': rng.choice(['', '', '', 'length', 'lastmod', 'some']), 'mime': rng.random() < 0.3,
            'real': rng.random() < 0.25, 'maplocal': rng.random() < 0.5,
            'chg': rng.random() < 0.1}


# no way to say that something is wrong with the input or the output
BUGS = ('TypeError', 'AttributeError', 'NameError', 'UnboundLocalError', 'KeyError', 'IndexError', 'AssertionError')

BASES = ['http://example.org/data', 'http://example.org/data2']
LISTS_URI = 'http://lists.example.org/l'


def edit(state, e, nmap):
    kind, m, name, f, k = e
    uri = BASES[m % nmap] + '/' + name
    keys = sorted(state)
    if kind == 'put' or not keys:
        state[uri] = list(f)
        return
    if kind == 'all':
        state.clear()
        return
    u = keys[k % len(keys)]
    v = list(state[u])
    if kind == 'del':
        del state[u]
        return
    if kind == 'size':
        v[1] += 1 + k
        v[0] += 1
    elif kind == 'touch':
        v[2] = round(v[2] + 1.5 + k, 6)
    elif kind == 'back':
        v[2] = round(v[2] - 1.5 - k, 6)
    elif kind == 'flip':
        v[0] += 1
    elif kind == 'one':
        # exactly a second if that can be said exactly
        v[2] = v[2] + (1 if k % 2 else -1) * (1.0 if v[2] == int(v[2]) else 1.5)
        v[0] += k // 50
    elif kind == 'tiny':
        v[2] = round(v[2] + 0.25, 6)
    state[u] = v


def data_of(v):
    return content(v[0], v[1])


def meta(v, hashes, drop='', mime=False, i=0):
    """What a list says about a resource."""
    data = data_of(v)
    d = {'ts': v[2], 'length': len(data), 'hash': {h: digest(data, h) for h in hashes}, 'type': v[3] if mime else None}
    if drop == 'length' or drop == 'some' and i % 3 == 1:
        d['length'] = None
    if drop == 'lastmod' or drop == 'some' and i % 4 == 2:
        d['ts'] = None
    return d


def same(a, b):
    if (a['ts'] is None) != (b['ts'] is None):
        return False
    if a['ts'] is not None and abs(a['ts'] - b['ts']) >= 1.0:
        return False
    if a['length'] is not None and b['length'] is not None and a['length'] != b['length']:
        return False
    return all(b['hash'][h] == v for h, v in a['hash'].items() if h in b['hash'])


def publish(world, server, name, side, inv, rng_key):
    """Put a list on the server or the disk; return its location and the documents {location: bytes}."""
    uris = sorted(inv)
    if side['shuffle']:
        uris.sort(key=lambda u: hash_key(u, rng_key))
    ents = []
    for u in uris:
        d = inv[u]
        e = {'uri': u}
        if d['ts'] is not None:
            e['lastmod'] = iso(d['ts'], side['style'])
        if d['length'] is not None:
            e['length'] = d['length']
        if d['hash']:
            e['hash'] = ' '.join('%s:%s' % x for x in sorted(d['hash'].items()))
        if d['type']:
            e['type'] = d['type']
        if side.get('chg') and len(ents) % 3 == 0:
            e['change'] = ['created', 'updated', 'deleted'][len(ents) // 3 % 3]
        ents.append(e)
    base = LISTS_URI if side['web'] else world.p('lists')
    loc = '%s/%s.xml' % (base, name)
    docs = {}
    if side['parts'] and len(ents) > side['parts']:
        idx = []
        for i in range(0, len(ents), side['parts']):
            p = '%s/%s%05d.xml' % (base, name, i // side['parts'])
            docs[p] = doc('resourcelist', ents[i:i + side['parts']], md={'at': '2020-01-01T00:00:00Z'}, pretty=side['pretty'])
            u = p
            if not side['web'] and side['maplocal']:
                u = '%s/%s' % (LISTS_URI, p.rsplit('/', 1)[1])
            idx.append({'uri': u})
        docs[loc] = doc('resourcelist', idx, md={'at': '2020-01-01T00:00:00Z'}, index=True, pretty=side['pretty'])
    else:
        docs[loc] = doc('resourcelist', ents, md={'at': '2020-01-01T00:00:00Z'}, pretty=side['pretty'])
    return loc, docs


def hash_key(u, k):
    import hashlib
    return hashlib.md5(('%s%s' % (u, k)).encode()).digest()


def execute(world, plan):
    sim = world.sim
    server = Server(world)
    nmap = plan['nmap']
    for d in ('lists', 'out', 'd0', 'd1'):
        _real['makedirs'](world.p(d))
        world.dirs[d] = world.p(d)
    dirs = [world.p('d0'), world.p('d1')][:nmap]
    state = {}
    for e in plan['start']:
        edit(state, e, nmap)
    on_disk = {}
    for k, st in enumerate(plan['steps']):
        op = 'cl%d' % k
        sim.op = op
        sim.advance(50.3)
        old = {u: list(v) for u, v in state.items()}
        if not st['same']:
            for e in st['edits']:
                edit(state, e, nmap)
        one(world, server, plan, st, op, old, state, dirs)


def put_files(world, state, dirs):
    for d in dirs:
        for rel, v in sorted(tree(d).items(), reverse=True):
            p = d + '/' + rel.rstrip('/')
            if v is None:
                if not os.listdir(p):
                    _real['rmdir'](p)
            else:
                _real['unlink'](p)
    for u in sorted(state):
        for b, d in zip(BASES, dirs):
            if u.startswith(b + '/'):
                write_file(d + u[len(b):], data_of(state[u]), state[u][2])


def one(world, server, plan, st, op, old, state, dirs):
    sim = world.sim
    server.docs.clear()
    for rel in tree(world.p('lists')):
        _real['unlink'](world.p('lists', rel))
    # the first inventory
    side = st['ref']
    docs = {}
    if side['real'] and not side['web']:
        put_files(world, old, dirs)
        ref = world.p('lists/ref.xml')
        a = ['--write-resourcelist', '--outfile', ref, '--paths', ','.join(dirs)]
        for h in side['hashes']:
            a.append('--hash=' + h)
        if side['parts']:
            a += ['--max-sitemap-entries', str(side['parts'])]
        r = world.cli(op + 'ref', 'resync-build', a + maps_of(world, dirs))
        if not r.ok:
            raise Violation('reference: writing the first inventory failed with %s (%s)' % (r.brief(), r.where))
        inv0 = {u: meta(v, side['hashes']) for u, v in old.items()}
        for rel, v in tree(world.p('lists')).items():
            docs[world.p('lists', rel)] = v[0]
    else:
        inv0 = {u: meta(v, side['hashes'], side['drop'], side['mime'], i) for i, (u, v) in enumerate(sorted(old.items()))}
        ref, docs = publish(world, server, 'ref', side, inv0, op)
    sim.op = op
    # the second
    new = None
    ndocs = {}
    if st['new'] is not None:
        s2 = st['new']
        inv1 = {u: meta(v, s2['hashes'], s2['drop'], s2['mime'], i) for i, (u, v) in enumerate(sorted(state.items()))}
        new, ndocs = publish(world, server, 'new', s2, inv1, op)
    else:
        put_files(world, state, dirs)
        inv1 = {u: meta(v, st['hashes']) for u, v in state.items()}
        if st['exclude']:
            inv1 = {u: v for u, v in inv1.items() if not any(c.startswith('d') for c in rel_of(u).split('/'))}
    # damage
    broken = False
    if st['bad']:
        which, i, kind, frac = st['bad']
        target = ndocs if which == 'new' and new is not None else docs
        locs = sorted(target)
        loc = locs[i % len(locs)]
        data = target[loc]
        is_index = b'<sitemapindex' in data
        is_part = re.search(r'\d{5}\.xml$', loc) is not None
        if kind == 'dup':
            d2 = False
            if not is_index and data.count(b'<url>') >= 1:
                j = data.index(b'<url>')
                e = data[j:data.index(b'</url>') + 6]
                d2 = data[:j] + e + data[j:]
        else:
            d2 = damage_doc(data, kind, frac, is_part, is_index)
        if d2 is not False and d2 != data:
            broken = True
            sim.fault('broken_' + kind, loc)
            if d2 is None:
                del target[loc]
            else:
                target[loc] = d2
    for loc, data in sorted(list(docs.items()) + list(ndocs.items())):
        if '://' in loc:
            server.docs[loc] = data
        else:
            write_file(loc, data, sim.now)
    if broken and st['ref']['real'] and not st['ref']['web']:
        for rel in tree(world.p('lists')):
            if world.p('lists', rel) not in docs and world.p('lists', rel) not in ndocs:
                _real['unlink'](world.p('lists', rel))
    out = world.p('out/changes.xml')
    want = {} if st.get('empty') else difference(inv0, inv1)
    # links: the options that are there once count once, those with --link in their order
    links, largs = [], []
    for i, (opt, rel, atts) in enumerate(st.get('links') or []):
        href = 'http://example.org/link%d' % i
        if opt == '--link':
            links.append(dict(atts, rel=rel, href=href))
            largs += [opt, ','.join([rel, href] + ['%s=%s' % x for x in sorted(atts.items())])]
        elif opt not in largs:
            if rel:
                links.append({'rel': rel, 'href': href})
            largs += [opt, href]
    limit = st['limit']
    stdout = st['stdout'] and (limit is None or len(want) <= limit)
    pre = tree(world.p('out'))
    kw = {}
    if st['net']:
        kw['net_cfg'] = dict(st['net'])
    if st['fs']:
        kw['fs_cfg'] = dict(st['fs'])
    if st['crash']:
        kw['crash_at'] = 1 + int(st['crash'][0] * (3 + 3 * (len(want) // (limit or 1000))))
        kw['crash_mode'] = st['crash'][1]
    nf = len(sim.fault_log)
    if st['api']:
        def fn():
            from resync.client import Client
            c = Client(hashes=list(st['hashes']), **({'spec_version': '1.0'} if st.get('spec10') else {}))
            c.set_mappings(maps_of(world, dirs))
            if st['exclude']:
                c.exclude_patterns = ['d']
            if st.get('badre') and not st.get('empty'):
                c.exclude_patterns = c.exclude_patterns + [st['badre']]
            c.max_sitemap_entries = limit
            if st.get('nomulti'):
                c.allow_multifile = False
            c.write_change_list(paths=','.join(dirs), outfile=None if stdout else out, ref_sitemap=ref, newref_sitemap=new,
                                links=[dict(x) for x in links] or None, empty=bool(st.get('empty')))
        r = world.run(op, fn, **kw)
    else:
        a = ['--write-changelist', '--paths', ','.join(dirs)] + largs
        a += ['--empty'] if st.get('empty') else ['--reference', ref]
        if new is not None:
            a += ['--newreference', new]
        if not stdout:
            a += ['--outfile', out]
        for h in st['hashes']:
            a.append('--checksum' if h == 'md5' and st.get('checksum') else '--hash=' + h)
        if st.get('spec10'):
            a += ['--spec-version', '1.0']
        if st['exclude']:
            a.append('--exclude=d')
        if st.get('badre') and not st.get('empty'):
            a.append('--exclude=' + st['badre'])
        if limit is not None:
            a += ['--max-sitemap-entries', str(limit)]
        if st.get('nomulti'):
            a.append('--multifile')
        r = world.cli(op, 'resync-build', a + maps_of(world, dirs), **kw)
    sim.op = op + 'check'
    objects(world, st, op, inv0, inv1, difference(inv0, inv1))
    sim.op = op + 'check'
    post = tree(world.p('out'))
    faults = [f for f in sim.fault_log[nf:]]
    hard = [f for f in faults if f[2] != 'short_write']
    if want or hard or broken:
        world.nontrivial = True
    if r.kind in ('hang', 'exit'):
        raise Violation('ended: %s' % r.brief())
    if st.get('empty'):
        broken = False
    if st.get('badre') and new is None and not broken and not hard and not st['crash'] and not st.get('empty'):
        # nothing can be said about what is to be listed
        sim.probe('pattern_refused')
        if r.kind != 'error' or r.exc != 'ClientFatalError':
            if not st.get('nomulti'):
                raise Violation('pattern: the pattern %s was taken, the script ended with %s' % (st['badre'], r.brief()))
        if post != pre or '<urlset' in r.stdout:
            raise Violation('written: output was changed although a pattern was refused')
        return
    if st.get('nomulti') and not broken and not st.get('empty'):
        # lists in several parts are neither to be read nor to be written
        read = [docs.get(ref), ndocs.get(new)]
        if any(x is not None and b'<sitemapindex' in x for x in read):
            sim.probe('index_refused')
            if r.ok:
                raise Violation('index: a change list was written from an index although only single lists were to be read')
            if post != pre:
                raise Violation('written: output was changed although a reference was refused')
            return
        if limit is not None and len(want) > limit and not stdout:
            if r.ok or not hard and not st['crash'] and post != pre:
                raise Violation('index: an index was written although only single lists were to be written')
            return
    if broken and r.ok:
        raise Violation('damaged: a change list was written although a reference is damaged (%s)' % st['bad'][2])
    read_failed = any('lists' in f[3] or f[2].startswith('net:') for f in hard)
    if not r.ok:
        if not broken and not hard and not (st.get('badre') and new is None):
            raise Violation('failed: without any fault the writing ended with %s (%s)' % (r.brief(), r.where))
        if '<urlset' in r.stdout and not (st['crash'] or st['fs']):
            raise Violation('printed: a change list was printed although the writing failed with %s' % r.brief())
        if (broken or read_failed) and not st['crash'] and post != pre:
            raise Violation('written: output was changed although a reference could not be read: %s'
                            % model.diff_trees(pre, post))
        sim.probe('refused')
        if r.exc in BUGS:
            raise Violation('refused: the writing ended with %s (%s)' % (r.brief(), r.where))
        if st['crash'] or st['fs']:
            # what is there is old, cannot be read, or is right
            v = post.get('changes.xml')
            if v is not None and pre.get('changes.xml', (None,))[0] != v[0]:
                try:
                    d = read_doc(v[0])
                except ReadError:
                    return
                if not d['index']:
                    judge(old_style(d['entries'], r) if st.get('spec10') else d['entries'], want, inv0, inv1)
        return
    if stdout:
        i = r.stdout.find('<?xml')
        if i < 0:
            raise Violation('printed: nothing was printed')
        bodies = [r.stdout[i:].encode('utf-8')]
    else:
        v = post.get('changes.xml')
        if v is None:
            raise Violation('nothing: no change list was written')
        if pre.get('changes.xml') == v and want and not st['same']:
            raise Violation('nothing: the change list was not written')
        bodies = [v[0]]
    try:
        d = read_doc(bodies[0])
        ents = list(d['entries'])
        check_links(d, links)
        if d['index']:
            ents = []
            for e in d['entries']:
                name = e['uri'].rsplit('/', 1)[1]
                if not e['uri'].startswith('http://out.example.org/o/') or name not in post:
                    raise Violation('parts: the index names %s' % e['uri'])
                d2 = read_doc(post[name][0])
                check_links(d2, links)
                if d2['md'].get('capability') != 'changelist' or limit and len(d2['entries']) > limit:
                    raise Violation('parts: %s has %d entries and says %s' % (name, len(d2['entries']), d2['md']))
                ents += d2['entries']
        elif limit and len(ents) > limit:
            raise Violation('parts: one document has %d entries, the limit is %d' % (len(ents), limit))
        if d['md'].get('capability') != 'changelist':
            raise Violation('kind: the document says %s' % d['md'])
    except ReadError as e:
        raise Violation('unreadable: what was written cannot be read: %s' % e)
    if st.get('spec10'):
        judge(old_style(ents, r), want, inv0, inv1)
        sim.probe('changes_1_0', len(want))
        return
    judge(ents, want, inv0, inv1)
    for e in ents:
        t = e['md'].get('datetime')
        if e.get('lastmod') is not None and (t is None or not r.t0 - 1e-5 <= parse_iso(t) <= r.t1 + 1e-5):
            raise Violation('found: the change of %s is said to have been found at %s, it was between %s and %s'
                            % (e['uri'], t, iso(r.t0, 6), iso(r.t1, 6)))
    sim.probe('changes', len(want))


def objects(world, st, op, inv0, inv1, want):
    """The same comparison of list objects that keep the order in which entries were added."""
    side = st['new'] or st['ref']

    def make(inv, key, cls):
        from resync.resource import Resource
        from resync.resource_list import ResourceList
        rl = ResourceList(resources_class=cls) if cls else ResourceList()
        for u in sorted(inv, key=lambda u: hash_key(u, key)):
            d = inv[u]
            h = d['hash']
            rl.add(Resource(uri=u, timestamp=d['ts'], length=d['length'], md5=h.get('md5'), sha1=h.get('sha-1'),
                            sha256=h.get('sha-256')))
        return rl

    def fn():
        from resync.change_list import ChangeList
        from resync.resource_list import ResourceListOrdered
        a = make(inv0, 'a', ResourceListOrdered)
        b = make(inv1, 'b', ResourceListOrdered if side['shuffle'] else None)
        res = a.compare(b)
        cl = ChangeList()
        for rs, k in zip(res[1:], ('updated', 'deleted', 'created')):
            cl.add_changed_resources(rs, change=k)
        return [(r.uri, r.change) for r in cl], [r.uri for r in res[0]], [r.uri for r in a], [r.uri for r in b]
    r = world.run(op + 'obj', fn)
    if not r.ok:
        raise Violation('objects: the comparison ended with %s (%s)' % (r.brief(), r.where))
    got, same_uris, a, b = r.value
    if sorted(got) != sorted(want.items()):
        raise Violation('objects: the difference is %s instead of %s' % (sorted(got)[:5], sorted(want.items())[:5]))
    if sorted(same_uris) != sorted(u for u in inv0 if u in inv1 and u not in want):
        raise Violation('objects: unchanged are said to be %s' % sorted(same_uris)[:5])
    if sorted(a) != sorted(inv0) or sorted(b) != sorted(inv1):
        raise Violation('objects: the comparison changed the lists')


def check_links(d, links):
    got = [x for x in d['ln'] if x.get('rel') != 'index']
    if sorted(map(sorted, map(dict.items, got))) != sorted(map(sorted, map(dict.items, links))):
        raise Violation('links: the document has the links %s instead of %s' % (got, links))


def old_style(ents, r):
    """Entries of a list of version 1.0: no datetime, and a lastmod in its place if there is none of the resource."""
    out = []
    for e in ents:
        if 'datetime' in e['md']:
            raise Violation('version: a change list of version 1.0 has a datetime for %s' % e['uri'])
        if e.get('lastmod') is not None and r.t0 - 1e-5 <= parse_iso(e['lastmod']) <= r.t1 + 1e-5:
            e = dict(e, lastmod=None)
        out.append(e)
    return out


def rel_of(u):
    for b in BASES:
        if u.startswith(b + '/'):
            return u[len(b) + 1:]


def maps_of(world, dirs):
    return ['%s=%s' % (b, d) for b, d in zip(BASES, dirs)] + \
        ['%s=%s' % (LISTS_URI, world.p('lists')), 'http://out.example.org/o=%s' % world.p('out')]


def difference(a, b):
    want = {}
    for u in a:
        if u not in b:
            want[u] = 'deleted'
        elif not same(a[u], b[u]):
            want[u] = 'updated'
    for u in b:
        if u not in a:
            want[u] = 'created'
    return want


def judge(ents, want, inv0, inv1):
    seen = set()
    for e in ents:
        u, ch = e['uri'], e['md'].get('change')
        if u in seen:
            raise Violation('twice: %s has more than one entry' % u)
        seen.add(u)
        if want.get(u) != ch:
            raise Violation('change: %s is said to be %s, it is %s' % (u, ch, want.get(u, 'unchanged')))
        got = {'ts': None if e.get('lastmod') is None else round(parse_iso(e['lastmod']), 6),
               'length': int(e['md']['length']) if 'length' in e['md'] else None,
               'hash': dict(x.split(':', 1) for x in e['md'].get('hash', '').split()), 'type': e['md'].get('type')}
        ok = [inv1[u]] if u in inv1 else [inv0[u], {'ts': None, 'length': None, 'hash': {}, 'type': None}]
        if got not in ok:
            raise Violation('metadata: %s has %s instead of %s' % (u, got, ok[0]))
    for u in want:
        if u not in seen:
            raise Violation('lost: %s was %s, but the change list says nothing about it' % (u, want[u]))
