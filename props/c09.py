"""C09: published documents say exactly what was to be published."""

import hashlib
import os

from sim import model
from sim.core import Violation
from sim.fs import tree, write_file, _real
from sim.source import ReadError, content, iso, parse_iso, read_doc

BUDGET = {'quick': {'runs': 5600, 'wall': 120}, 'thorough': {'runs': 250000, 'wall': 1500}}
RULE = ('one run builds lists of one kind and writes them to files several times, under disk faults and crashes, '
        'sometimes through resync-build; non-trivial if a fault or a crash met the writing or the list has several parts')
LISTS = ('entries', 'old', 'writes')
REAL = ('resync.resource, resource_list, change_list, capability_list, source_description, archives, dump and manifest classes, '
        'list_base, list_base_with_index, sitemap, hashes, mapper, w3c_datetime, resync-build, xml.etree')
STUBS = 'clock, faults and crashes of the file system; documents are read by an independent reader of the check'
ASSUMPTIONS = ('what write() was told to have written is on the disk (no loss of the page cache)',
               'times are given with at most microseconds',
               'as_xml_index() makes an index without digests, as documented, and is checked for names only')

ARCHIVES = ('resourcelist-archive', 'changelist-archive', 'resourcedump-archive', 'changedump-archive')
KINDS = ['resourcelist', 'resourcelist', 'resourcelist', 'ordered', 'generator', 'changelist', 'changelist', 'changelist',
         'capabilitylist', 'description', 'resourcedump', 'changedump', 'index', 'cli_rl', 'cli_rl', 'cli_rl', 'cli_caps',
         'cli_sd', 'resourcedump-manifest', 'changedump-manifest'] + list(ARCHIVES)
CAP = {'resourcelist': 'resourcelist', 'ordered': 'resourcelist', 'generator': 'resourcelist', 'changelist': 'changelist',
       'capabilitylist': 'capabilitylist', 'description': 'description', 'resourcedump': 'resourcedump',
       'changedump': 'changedump', 'index': 'resourcelist', 'cli_rl': 'resourcelist', 'cli_caps': 'capabilitylist',
       'cli_sd': 'description', 'resourcedump-manifest': 'resourcedump-manifest',
       'changedump-manifest': 'changedump-manifest'}
CAP.update((k, k) for k in ARCHIVES)
CHANGES = ('changelist', 'changedump-manifest')
# lists that keep all their entries in the order in which they were added
PLAIN = CHANGES + ARCHIVES + ('generator',)
ORDER = ['resourcelist', 'resourcedump', 'changelist', 'changedump', 'resourcelist-archive', 'resourcedump-archive',
         'changelist-archive', 'changedump-archive']
WEIRD = ['b a', 'x\u00fcy', '\u4e2d/\u6587', '<tag>', '"dq"', 'a\tb', 'nl\nx', ']]>', '&amp;', '\U0001f600', 'cr\rx', 'nbsp\u00a0',
         '\u2028', 'ctl\x01', '\x7f', 'esc\x1b[0m', '\ufffe']


def gen_link(rng):
    d = {'rel': rng.choice(['up', 'describedby', 'duplicate', 'alternate', 'index', 'contents', 'http://x.org/rel?a&b']),
         'href': rng.choice(['http://example.org/x', 'http://example.org/x?a=1&b="2"', "http://o.org/it's", 'http://example.org/x#top', '../up.xml'])}
    for k, vs in (('mime_type', ['text/html', 'a/b; c="d"']), ('pri', [1, 999999]), ('length', [0, 12]),
                  ('path', ['/p q', '/a&b', '/s ']), ('hash', ['md5:00'])):
        if rng.random() < 0.15:
            d[k] = rng.choice(vs)
    return d


def gen_entry(rng, kind, i):
    e = {'name': rng.choice(WEIRD) if rng.random() < 0.08 else rng.choice(model.NAMES), 'n': rng.randrange(4)}
    if rng.random() < 0.8:
        e['ts'] = round(model.gen_ts(rng), 6)
    if rng.random() < 0.7:
        e['length'] = rng.choice([0, 1, 12345, 2 ** 40])
    e['hashes'] = model.gen_hashes(rng)
    if kind in CHANGES:
        e['change'] = rng.choice(['created', 'updated', 'deleted'])
    if kind in CHANGES or rng.random() < 0.1:
        if rng.random() < 0.9:
            e['dt'] = round(model.gen_ts(rng), 6)
    if kind in ('capabilitylist', 'cli_caps'):
        e['capability'] = rng.choice(ORDER + ['unknown', 'other-thing'])
    if rng.random() < 0.15:
        e['path'] = rng.choice(['/a/b', '/r 1', '/q&"<', '/end '])
    if rng.random() < 0.15:
        e['mime'] = rng.choice(['text/html', 'a/b; c="d"'])
    if rng.random() < 0.15:
        e['ln'] = [gen_link(rng) for _ in range(rng.choice([1, 2]))]
    if rng.random() < 0.1:
        e['extra'] = {k: round(model.gen_ts(rng), 6) for k in rng.sample(['at', 'completed', 'from', 'until'],
                                                                        rng.choice([1, 2, 4]))}
    return e


def gen_named(rng, kind, e):
    e = {'n': e['n'], 'name': e['name'], 'hashes': [], 'obj': rng.random() < 0.6,
         'capability': 'capabilitylist' if kind == 'description' else rng.choice(ORDER)}
    if kind == 'description' and e['obj'] and rng.random() < 0.6:
        e['ln'] = [{'rel': 'describedby', 'href': 'http://example.org/about?a=%d&b' % rng.randrange(5)}]
    return e


def gen_list(rng, kind):
    n = rng.choice([0, 1, 2, 3, 4, 5, 6, 7, 9, 12, 20])
    return [gen_entry(rng, kind, i) for i in range(n)]


def plan(rng, tier):
    kind = rng.choice(KINDS)
    p = {'kind': kind, 'entries': gen_list(rng, kind), 'old': gen_list(rng, kind),
         'limit': rng.choice([50000, 1, 2, 3, 3, 4, 5, 10]), 'pretty': rng.random() < 0.4,
         'spec': rng.choice(['1.1', '1.1', '1.1', '1.0']), 'add_lastmod': rng.random() < 0.2,
         'out': rng.choice(['list.xml', 'list.xml', 'list', 'l.x', 'a.xml.xml', 'b.xml.x', '%d.xml']),
         'ln': [gen_link(rng) for _ in range(rng.choice([0, 0, 0, 1, 2]))],
         'md': {k: iso(round(model.gen_ts(rng), 6)) for k in rng.sample(['md_at', 'md_completed', 'md_from', 'md_until'],
                                                                       rng.choice([0, 0, 1, 2]))},
         'reuse': rng.random() < 0.3, 'hashes': model.gen_hashes(rng), 'string': rng.random() < 0.25,
         'ctor': rng.choice(['add', 'add', 'one', 'ctor', 'set']), 'omit': rng.random() < 0.5,
         'multi': rng.random() >= 0.08, 'stdout': kind.startswith('cli_') and rng.random() < 0.2}
    if kind.startswith('cli_') and rng.random() < 0.4:
        p['lopts'] = rng.sample(sorted(LOPTS), rng.choice([1, 1, 2, 3]))
    if not kind.startswith('cli_') and rng.random() < 0.3:
        p['twice'] = [rng.randrange(8), rng.random() < 0.5]
    if not kind.startswith('cli_') and rng.random() < 0.04:
        p.update(limit=50000, nolimit=True)
    if kind in ('capabilitylist', 'description') and rng.random() < 0.35:
        # added by the specific methods
        p['ctor'] = 'name'
        for w in ('entries', 'old'):
            p[w] = [gen_named(rng, kind, e) for e in p[w]]
    writes = []
    if rng.random() < 0.6:
        writes.append(['old', None, None])
    for _ in range(rng.choice([1, 1, 2, 3])):
        f, c = None, None
        r = rng.random()
        if r < 0.4:
            f = {'p': rng.choice([0.03, 0.1, 0.3]), 'only': ['out'], 'short': rng.random() < 0.4,
                 'sticky_full': rng.random() < 0.3}
            if rng.random() < 0.6:
                f['calls'] = rng.choice([['write'], ['close'], ['openw'], ['write', 'close'], ['open', 'read', 'stat']])
        elif r < 0.75:
            c = [round(rng.random(), 4), rng.choice(['before', 'after', 'torn', 'torn', 'sigint'])]
        writes.append([rng.choice(['entries', 'entries', 'old']), f, c])
    writes.append([rng.choice(['entries', 'old']), None, None])
    p['writes'] = writes
    return p


def uri_of(e, kind):
    return 'http://example.org/%s%s' % (['', 'd/', 'e f/', 'd-'][e['n']], e['name'])


def expect(plan, which):
    """Expected entries in the canonical order, as a reader should see them."""
    kind = plan['kind']
    out, seen = [], set()
    for e in plan[which]:
        u = uri_of(e, kind)
        if u in seen and kind not in PLAIN:
            continue
        seen.add(u)
        out.append((u, e))
    if kind in ('capabilitylist', 'cli_caps'):
        out.sort(key=lambda x: (ORDER.index(x[1]['capability']) if x[1]['capability'] in ORDER else 99,
                                x[1]['capability'], x[0]))
    elif kind in ('resourcelist', 'description', 'resourcedump', 'changedump', 'resourcedump-manifest', 'index', 'cli_rl',
                  'cli_sd'):
        out.sort(key=lambda x: x[0])
    return [entry(plan, u, e) for u, e in out]


def link(d):
    return {'type' if k == 'mime_type' else k: str(v) for k, v in d.items()}


def entry(plan, u, e):
    kind = plan['kind']
    if kind == 'cli_caps':
        return {'uri': u, 'lastmod': None, 'md': {'capability': e['capability']}, 'ln': []}
    if kind == 'cli_sd':
        return {'uri': u, 'lastmod': None, 'md': {'capability': 'capabilitylist'}, 'ln': []}
    md = {}
    for k in ('length', 'path', 'change', 'capability'):
        if e.get(k) is not None:
            md[k] = str(e[k])
    if e.get('mime'):
        md['type'] = e['mime']
    if e['hashes']:
        data = u.encode('utf-8', 'replace')
        md['hash'] = ' '.join('%s:%s' % (h, model.source.digest(data, h)) for h in ('md5', 'sha-1', 'sha-256')
                              if h in e['hashes'])
    for k, v in (e.get('extra') or {}).items():
        md[k] = v
    if e.get('dt') is not None and plan['spec'] != '1.0':
        md['datetime'] = e['dt']
    lm = e.get('ts')
    if lm is None and (plan['spec'] == '1.0' or plan['add_lastmod']):
        lm = e.get('dt')
    return {'uri': u, 'lastmod': lm, 'md': md, 'ln': [link(x) for x in e.get('ln') or ()]}


TIMES = ('at', 'completed', 'from', 'until', 'datetime')


def seen_entry(e):
    md = {k: round(parse_iso(v), 6) if k in TIMES else v for k, v in e['md'].items()}
    lm = e.get('lastmod')
    return {'uri': e['uri'], 'lastmod': None if lm is None else round(parse_iso(lm), 6), 'md': md, 'ln': e['ln']}


def norm(e):
    e = dict(e)
    e['md'] = {k: round(v, 6) if k in TIMES else v for k, v in e['md'].items()}
    if e['lastmod'] is not None:
        e['lastmod'] = round(e['lastmod'], 6)
    return e


def bulk(plan):
    for w in ('entries', 'old'):
        if isinstance(plan[w], int):
            plan[w] = [{'name': 'b%06d' % i, 'n': 0, 'ts': 1e9 + i, 'hashes': []} for i in range(plan[w])]
    return plan


def build(plan, which, mapper=None):
    """The real list object."""
    from resync.resource import Resource
    from resync import resource_list as m_rl
    from resync.resource_list import ResourceList
    from resync.change_list import ChangeList
    from resync.capability_list import CapabilityList, CapabilitySet
    from resync.source_description import SourceDescription
    from resync.resource_dump import ResourceDump
    from resync.change_dump import ChangeDump
    from resync.resource_dump_manifest import ResourceDumpManifest
    from resync.change_dump_manifest import ChangeDumpManifest
    from resync.resource_set import ResourceSet
    from resync import archives
    kind = plan['kind']
    rs, seen = [], set()
    for e in plan[which]:
        u = uri_of(e, kind)
        if u in seen and kind not in PLAIN:
            continue
        seen.add(u)
        r = Resource(uri=u, timestamp=e.get('ts'), length=e.get('length'), change=e.get('change'),
                     ts_datetime=e.get('dt'), path=e.get('path'), mime_type=e.get('mime'))
        if e.get('capability'):
            r.capability = e['capability']
        data = u.encode('utf-8', 'replace')
        for h in e['hashes']:
            setattr(r, {'md5': 'md5', 'sha-1': 'sha1', 'sha-256': 'sha256'}[h], model.source.digest(data, h))
        for k, v in (e.get('extra') or {}).items():
            setattr(r, 'ts_' + k, v)
        if e.get('ln'):
            r.ln = [dict(x) for x in e['ln']]
        rs.append(r)
    how = plan.get('ctor', 'add')
    md, ln = dict(plan['md']), [dict(x) for x in plan['ln']]
    kw = {'md': md, 'ln': ln, 'spec_version': plan['spec'], 'add_lastmod': plan['add_lastmod']}
    if how == 'set' and len({x['rel'] for x in ln}) == len(ln):
        # by the properties of the list instead
        kw['md'] = kw['ln'] = None
    if plan.get('omit'):
        # what is the default anyway is left out
        for k, v in (('md', {}), ('ln', []), ('spec_version', '1.1'), ('add_lastmod', False)):
            if kw[k] == v or kw[k] is None:
                del kw[k]
    if kind not in ('description', 'generator') and plan.get('omit'):
        kw['uri'] = 'http://example.org/this/list.xml'
    cls = {'capabilitylist': CapabilityList, 'description': SourceDescription, 'changelist': ChangeList,
           'resourcedump': ResourceDump, 'changedump': ChangeDump, 'resourcedump-manifest': ResourceDumpManifest,
           'changedump-manifest': ChangeDumpManifest, 'resourcelist-archive': archives.ResourceListArchive,
           'changelist-archive': archives.ChangeListArchive, 'resourcedump-archive': archives.ResourceDumpArchive,
           'changedump-archive': archives.ChangeDumpArchive}.get(kind, ResourceList)
    if kind == 'ordered':
        kw['resources_class'] = m_rl.ResourceListOrdered
    late = kind in ('capabilitylist', 'description') or kind in ARCHIVES
    if not late:
        kw['mapper'] = mapper
    if kind == 'generator':
        li = ResourceList(resources=(r for r in rs), count=len(rs), **kw)
    elif how == 'ctor':
        c = m_rl.ResourceListOrdered() if kind == 'ordered' else CapabilitySet() if kind == 'capabilitylist' else \
            ResourceSet() if kind == 'description' else list(rs) if kind in PLAIN else m_rl.ResourceListDict()
        if not isinstance(c, list):
            for r in rs:
                c.add(r)
        li = cls(resources=c, **kw)
    else:
        li = cls(**kw)
        if how == 'one':
            for r in rs:
                li.add(r)
        elif how == 'name':
            seen = {uri_of(e, kind): e for e in reversed(plan[which])}
            for r in rs:
                by_name(li, kind, seen[r.uri])
        elif how == 'set' and kind == 'capabilitylist' and all(e.get('capability') for e in plan[which]):
            for r in rs:
                li.add(r)
        else:
            li.add(rs)
    if plan.get('twice') and rs and hasattr(li.resources, 'keys'):
        again(li, rs[plan['twice'][0] % len(rs)], plan['twice'][1], kind)
    if 'uri' in kw and li.uri != kw['uri']:
        raise Violation('uri: the list was given the URI %s and has %s' % (kw['uri'], li.uri))
    if late:
        li.mapper = mapper
    if how == 'set' and len({x['rel'] for x in ln}) == len(ln):
        for k, v in md.items():
            setattr(li, k, parse_iso(v))
        for x in ln:
            x = dict(x)
            rel, href = x.pop('rel'), x.pop('href')
            if plan.get('twice'):
                # is replaced below
                li.link_set(rel, 'http://example.org/replaced')
            if rel in ('up', 'describedby', 'index') and not x:
                setattr(li, rel, href)
            else:
                li.link_set(rel, href, **x)
    if not plan.get('multi', True):
        li.allow_multifile = False
    if kind == 'index':
        li.sitemapindex = True
    li.pretty_xml = plan['pretty']
    if hasattr(li, 'max_sitemap_entries'):
        if plan.get('nolimit'):
            li.max_sitemap_entries = None
        elif plan['limit'] != 50000:
            li.max_sitemap_entries = plan['limit']
    return li


def again(li, r, put_back, kind):
    """There is only one entry for a URI, which is not replaced unless it is asked for."""
    from resync.resource import Resource
    other = Resource(uri=r.uri, timestamp=77, length=77)
    try:
        li.resources.add(other)
    except Exception:
        pass
    else:
        raise Violation('twice: %s was added to a %s twice' % (r.uri, kind))
    if put_back:
        li.resources.add(other, replace=True)
        if [x for x in li.resources if x.uri == r.uri] != [other]:
            raise Violation('twice: %s was not replaced in a %s' % (r.uri, kind))
        li.resources.add(r, replace=True)


def by_name(li, kind, e):
    from resync import archives, list_base
    from resync.resource_list import ResourceList
    from resync.change_list import ChangeList
    from resync.capability_list import CapabilityList
    from resync.resource_dump import ResourceDump
    from resync.change_dump import ChangeDump
    u = uri_of(e, kind)
    if not e['obj']:
        if kind == 'description':
            li.add_capability_list(u)
        else:
            li.add_capability(uri=u, name=e['capability'])
        return
    c = e['capability']
    cls = {'resourcelist': ResourceList, 'changelist': ChangeList, 'resourcedump': ResourceDump, 'changedump': ChangeDump,
           'capabilitylist': CapabilityList, 'resourcelist-archive': archives.ResourceListArchive,
           'changelist-archive': archives.ChangeListArchive, 'resourcedump-archive': archives.ResourceDumpArchive,
           'changedump-archive': archives.ChangeDumpArchive}.get(c)
    if cls is None:
        obj = list_base.ListBase(capability_name=c)
    else:
        obj = cls()
    obj.uri = u
    for x in e.get('ln') or ():
        obj.describedby = x['href']
    if kind == 'description':
        li.add_capability_list(obj)
    elif e['n'] % 2:
        li.add_capability(obj)
    else:
        li.add_capability(capability=obj, uri='http://example.org/not/this')


def multi(plan, n):
    if plan['kind'] in ('capabilitylist', 'cli_caps'):
        return False
    return n > plan['limit']


def refused(plan, exp):
    return not (plan.get('multi', True) and not plan.get('stdout')) and plan['kind'] not in ('cli_caps', 'cli_sd') and multi(plan, len(exp))


def part_name(base, i):
    return (base[:-4] if base.endswith('.xml') else base) + '%05d.xml' % i


def chars_ok(plan, which):
    """False if an entry cannot be expressed in XML as it is."""
    bad = [chr(i) for i in range(32) if i not in (9, 10)] + ['\ufffe', '\uffff']
    for e in expect(plan, which):
        if any(c in e['uri'] for c in bad):
            return False
    return True


def execute(world, plan):
    sim = world.sim
    plan = bulk(dict(plan))
    kind = plan['kind']
    if kind in ('cli_caps', 'cli_sd'):
        for which in ('entries', 'old'):
            # the option is a comma separated list of name=uri
            plan = dict(plan)
            plan[which] = [e for e in plan[which] if not any(c in e['name'] for c in ',= \t\n\r')
                           and e['n'] != 2]
            if kind == 'cli_caps':
                # one entry for each name
                plan[which] = list({e['capability']: e for e in plan[which]}.values())
    if kind == 'cli_rl':
        plan = dict(plan)
        for which in ('entries', 'old'):
            plan[which] = files_of(plan[which])
    if kind == 'index':
        plan = dict(plan, limit=50000)
    out = world.p('out', plan['out'])
    _real['makedirs'](world.p('out'), exist_ok=True)
    world.dirs['out'] = world.p('out')
    maps = ['http://example.org=%s' % world.p('data'), 'http://example.org/rs/lists=%s' % world.p('out')]
    held = {}
    for k, (which, f, c) in enumerate(plan['writes']):
        sim.advance(37.3)
        exp = expect(plan, which)
        ok_chars = chars_ok(plan, which)
        pre = tree(world.p('out'))
        kw = {}
        if f:
            kw['fs_cfg'] = f
        if c:
            n = len(exp)
            est = 6 + 4 * n // plan['limit'] if multi(plan, n) else 4
            kw['crash_at'] = 1 + int(c[0] * est)
            kw['crash_mode'] = c[1]
        op = 'write%d' % k
        if kind.startswith('cli_'):
            r = cli(world, plan, which, op, maps, out, exp, kw)
        else:
            key = which if plan['reuse'] and kind != 'generator' else None

            def fn():
                from resync.mapper import Mapper
                li = held.get(key) if key else None
                if li is None:
                    li = build(plan, which, Mapper(maps))
                    if key:
                        held[key] = li
                before = (dict(li.md), [dict(x) for x in li.ln])
                li.write(basename=out)
                after = (dict(li.md), [dict(x) for x in li.ln])
                return before, after
            r = world.run(op, fn, reset=not held, **kw)
        post = tree(world.p('out'))
        faulty = bool(f or c)
        if r.kind in ('hang', 'exit'):
            raise Violation('ended: writing ended with %s' % r.brief())
        if plan.get('stdout'):
            if post != pre:
                raise Violation('form: a list that was to be printed was written')
            if r.ok and not refused(plan, exp):
                i = r.stdout.find('<?xml')
                if i < 0:
                    raise Violation('missing: the list was not printed')
                post = {plan['out']: (r.stdout[i:].encode('utf-8', 'surrogatepass'), sim.now)}
        if refused(plan, exp):
            if r.ok:
                raise Violation('form: %d entries were written although a list may have only %d and no index was allowed'
                                % (len(exp), plan['limit']))
            if post != pre:
                raise Violation('form: a list refused as too long changed the files')
            sim.probe('refused')
            continue
        if r.kind == 'error' and not faulty and ok_chars:
            raise Violation('failed: writing ended without any fault with %s (%s)' % (r.brief(), r.where))
        docs = expected_docs(world, plan, exp, r)
        if r.ok:
            for name in docs:
                if post.get(name) is None:
                    raise Violation('missing: writing succeeded but there is no %s' % name)
                check_doc(world, plan, name, post[name][0], docs[name], post, r)
            if multi(plan, len(exp)) or faulty:
                world.nontrivial = True
            if r.value:
                b, a = r.value
                b[0].setdefault('capability', CAP[kind])
                a[0].setdefault('capability', CAP[kind])
                if a != b:
                    raise Violation('list changed: writing changed the metadata or links of the list from %s to %s'
                                    % (b, a))
            if k == len(plan['writes']) - 1:
                if not plan.get('stdout'):
                    read_back(world, plan, out, exp, maps)
                if plan['string'] and not kind.startswith('cli_'):
                    as_string(world, plan, which, exp)
        else:
            world.nontrivial = True
            sim.probe('interrupted')
            # every document is old, new, or cannot be read
            for name, v in post.items():
                if v is None or pre.get(name) is not None and pre[name][0] == v[0]:
                    continue
                try:
                    d = read_doc(v[0])
                except ReadError:
                    sim.probe('unreadable')
                    continue
                if name not in docs:
                    if name in pre and c:
                        continue
                    raise Violation('partial: %s is a document that was neither there before nor to be written' % name)
                try:
                    check_doc(world, plan, name, v[0], docs[name], None, r)
                except Violation as e:
                    raise Violation('partial: after an interrupted write %s' % e)
                sim.probe('complete')


def files_of(entries):
    """Entries that can be files: no name that is a directory of another."""
    out = {}
    for e in entries:
        name = ['', 'd/', 'e f/', 'd-'][e['n']] + e['name']
        if '\x00' in name:
            continue
        if any(name.startswith(o + '/') or o.startswith(name + '/') for o in out):
            continue
        e = {k: e[k] for k in ('name', 'n', 'ts') if k in e}
        e.setdefault('ts', 1e9)
        e['hashes'] = []
        out.setdefault(name, e)
    return list(out.values())


def cli(world, plan, which, op, maps, out, exp, kw):
    kind = plan['kind']
    a = []
    if kind == 'cli_rl':
        top = world.p('data')
        for rel, v in tree(top).items():
            if v is not None:
                _real['unlink'](top + '/' + rel)
        _real['makedirs'](top, exist_ok=True)
        for e in plan[which]:
            write_file(top + '/' + uri_of(e, kind)[len('http://example.org/'):], content(len(e['name']), len(e['name']) * 7),
                       e['ts'])
        a += ['--write-resourcelist', '--paths', top]
        for h in plan['hashes']:
            a += ['--hash', h]
        if plan['limit'] < 50000:
            a += ['--max-sitemap-entries', str(plan['limit'])]
        if not plan.get('multi', True):
            a.append('--multifile')
    elif kind == 'cli_caps':
        if not exp:
            exp.append({'uri': 'http://example.org/q', 'lastmod': None, 'md': {'capability': 'resourcelist'}, 'ln': []})
        order = sorted(exp, key=lambda e: hashlib.md5(e['uri'].encode()).digest())
        a += ['--write-capabilitylist', ','.join('%s=%s' % (e['md']['capability'], e['uri']) for e in order)]
    else:
        if not exp:
            exp.append({'uri': 'http://example.org/q', 'lastmod': None, 'md': {'capability': 'capabilitylist'}, 'ln': []})
        order = sorted(exp, key=lambda e: hashlib.md5(e['uri'].encode()).digest())
        a += ['--write-sourcedescription', ','.join(e['uri'] for e in order)]
    if not plan.get('stdout'):
        a += ['--outfile', out]
    for x in plan['ln']:
        a += ['--link', ','.join([x['rel'], x['href']] + ['%s=%s' % kv for kv in link_atts(x).items()])]
    for i, k in enumerate(plan.get('lopts') or []):
        a += ['--%s-link' % k, LOPTS[k][i % 2]]
    return world.cli(op, 'resync-build', a + maps, **kw)


LOPTS = {'capabilitylist': ['http://example.org/caps.xml', 'http://o.org/c?a=1&b=2'],
         'sourcedescription': ['http://example.org/.well-known/resourcesync', 'http://o.org/s,d'],
         'describedby': ['http://example.org/about', 'http://o.org/"it"']}


def link_atts(x):
    """Attributes of a link that can be given with --link."""
    return {k: v for k, v in link(x).items() if k not in ('rel', 'href') and not set(v) & set(',=')}


def links_of(plan):
    kind = plan['kind']
    if kind.startswith('cli_'):
        out = [dict(link_atts(x), rel=x['rel'], href=x['href']) for x in plan['ln']]
        o = {k: LOPTS[k][i % 2] for i, k in enumerate(plan.get('lopts') or [])}
        # the links by which a document is found belong to the kinds that have them
        if 'capabilitylist' in o and kind == 'cli_rl':
            out.insert(0, {'rel': 'up', 'href': o['capabilitylist']})
        if 'sourcedescription' in o and kind == 'cli_caps':
            out.insert(0, {'rel': 'up', 'href': o['sourcedescription']})
        if 'describedby' in o:
            out.insert(0, {'rel': 'describedby', 'href': o['describedby']})
        return out
    return [link(x) for x in plan['ln']]


def expected_docs(world, plan, exp, r):
    """{file name: (index?, md, ln, entries)}"""
    kind = plan['kind']
    md = {k[3:]: parse_iso(v) for k, v in plan['md'].items()}
    if kind.startswith('cli_'):
        md = {}
    md['capability'] = CAP[kind]
    ln = links_of(plan)
    base = plan['out']
    if kind == 'cli_rl':
        exp = []
        for e in plan[[w[0] for w in plan['writes']][int(r.op[5:])]]:
            rel = uri_of(e, kind)[len('http://example.org/'):]
            data = content(len(e['name']), len(e['name']) * 7)
            m = {'length': str(len(data))}
            if plan['hashes']:
                m['hash'] = ' '.join('%s:%s' % (h, model.source.digest(data, h)) for h in ('md5', 'sha-1', 'sha-256')
                                     if h in plan['hashes'])
            exp.append({'uri': 'http://example.org/' + rel, 'lastmod': round(e['ts'], 6), 'md': m, 'ln': []})
        exp.sort(key=lambda e: e['uri'])
    lim = plan['limit']
    limited = kind != 'cli_sd'
    if not (limited and multi(plan, len(exp))):
        return {base: (kind == 'index', md, ln, exp)}
    docs = {}
    iu = 'http://example.org/rs/lists/' + base
    parts = []
    for i in range(0, len(exp), lim):
        name = part_name(base, len(parts))
        old = [x for x in ln if x['rel'] == 'index']
        pl = [dict(x) for x in ln]
        if old:
            [x for x in pl if x['rel'] == 'index'][0]['href'] = iu
        else:
            pl.append({'rel': 'index', 'href': iu})
        docs[name] = (False, md, pl, exp[i:i + lim])
        parts.append(name)
    docs[base] = (True, md, ln, [('part', 'http://example.org/rs/lists/' + n, n) for n in parts])
    return docs


def check_doc(world, plan, name, data, want, files, r):
    index, md, ln, entries = want
    try:
        d = read_doc(data)
    except ReadError as e:
        raise Violation('unreadable: %s cannot be read: %s' % (name, e))
    if d['index'] != index:
        raise Violation('form: %s has index=%s instead of %s' % (name, d['index'], index))
    gmd = {k: parse_iso(v) if k in TIMES else v for k, v in d['md'].items()}
    if plan['kind'] == 'cli_rl':
        for k in ('at', 'completed'):
            t = gmd.pop(k, None)
            if t is not None and not r.t0 - 0.001 <= t <= r.t1 + 0.001:
                raise Violation('metadata: %s says %s=%s' % (name, k, t))
    if {k: (round(v, 6) if k in TIMES else v) for k, v in gmd.items()} != \
            {k: (round(v, 6) if k in TIMES else v) for k, v in md.items()}:
        raise Violation('metadata: that of %s is %s instead of %s' % (name, gmd, md))
    if d['ln'] != ln:
        raise Violation('links: those of %s are %s instead of %s' % (name, d['ln'], ln))
    if len(d['entries']) != len(entries):
        raise Violation('entries: %s has %d entries instead of %d' % (name, len(d['entries']), len(entries)))
    for a, b in zip(d['entries'], entries):
        if b[0] == 'part' if isinstance(b, tuple) else False:
            if a['uri'] != b[1]:
                raise Violation('index: names %s instead of %s' % (a['uri'], b[1]))
            if files is not None:
                got = a['md'].get('hash')
                have = files[b[2]][0]
                if got != 'md5:' + hashlib.md5(have).hexdigest():
                    raise Violation('index: the digest of %s is given as %s' % (b[2], got))
                if a.get('lastmod') is None or abs(parse_iso(a['lastmod']) - files[b[2]][1]) > 1e-5:
                    raise Violation('index: the time of %s is given as %s' % (b[2], a.get('lastmod')))
            continue
        try:
            s = seen_entry(a)
        except ValueError as e:
            raise Violation('entry: %s in %s: %s' % (a['uri'], name, e))
        if s != norm(b):
            raise Violation('entry: %s has %s instead of %s' % (name, s, norm(b)))


def read_back(world, plan, out, exp, maps):
    """The code reads what it wrote."""
    kind = plan['kind']
    if kind in ('index', 'cli_rl', 'generator'):
        return
    if plan['spec'] == '1.0':
        return
    if refused(plan, exp):
        return
    parts = [part_name(plan['out'], i) for i in range(-(-len(exp) // plan['limit']))] if kind != 'cli_sd' and \
        multi(plan, len(exp)) else None
    cap = CAP[kind]

    def fn():
        from resync.resource_list import ResourceList
        from resync.change_list import ChangeList
        from resync.resource_dump import ResourceDump
        from resync.change_dump import ChangeDump
        from resync.capability_list import CapabilityList
        from resync.source_description import SourceDescription
        from resync.resource_dump_manifest import ResourceDumpManifest
        from resync.change_dump_manifest import ChangeDumpManifest
        from resync import archives
        from resync.mapper import Mapper
        cls = {'changelist': ChangeList, 'resourcedump': ResourceDump, 'changedump': ChangeDump,
               'capabilitylist': CapabilityList, 'description': SourceDescription,
               'resourcedump-manifest': ResourceDumpManifest, 'changedump-manifest': ChangeDumpManifest,
               'resourcelist-archive': archives.ResourceListArchive, 'changelist-archive': archives.ChangeListArchive,
               'resourcedump-archive': archives.ResourceDumpArchive,
               'changedump-archive': archives.ChangeDumpArchive}.get(cap, ResourceList)

        def new():
            li = cls()
            li.mapper = Mapper([maps[1]])
            return li
        li = new()
        li.read(uri=out)
        got = [(r.uri, r.timestamp, r.hash, r.length, r.change, r.capability) for r in li]
        more = None
        if hasattr(li, 'has_capability'):
            more = [(c, li.has_capability(c), li.has_capability(c) and li.capability_info(c).uri)
                    for c in ORDER + ['unknown', 'nothing']]
        only = None
        if hasattr(li, 'max_sitemap_entries') and not (parts and kind in CHANGES):
            lj = new()
            lj.read(uri=out, index_only=True)
            only = (lj.sitemapindex, [r.uri for r in lj])
        return got, more, only, {k: li.md.get(k) for k in ('capability', 'md_at', 'md_completed', 'md_from', 'md_until')}
    r = world.run('read', fn)
    if not r.ok:
        raise Violation('read: what was written cannot be read: %s (%s)' % (r.brief(), r.where))
    got, more, only, md = r.value
    got = [(u, None if t is None else round(t, 6), h, n, c, k) for (u, t, h, n, c, k) in got]
    want = [(e['uri'], None if e['lastmod'] is None else round(e['lastmod'], 6), e['md'].get('hash'),
             int(e['md']['length']) if 'length' in e['md'] else None, e['md'].get('change'), e['md'].get('capability'))
            for e in exp]
    if kind == 'ordered':
        got.sort(key=lambda x: x[0])
        want.sort(key=lambda x: x[0])
    if got != want:
        d = [(a, b) for a, b in zip(got, want) if a != b][:1]
        raise Violation('read: read back as %d entries instead of %d, first difference %s' % (len(got), len(want), d))
    if more is not None:
        first = {}
        for e in exp:
            first.setdefault(e['md'].get('capability'), e['uri'])
        for c, has, u in more:
            if (has, u) != (c in first, first.get(c, False)):
                raise Violation('read: capability %s is %s %s instead of %s' % (c, has, u, first.get(c)))
    if only is not None:
        w = (True, ['http://example.org/rs/lists/' + n for n in parts]) if parts else (False, [e[0] for e in want])
        if only[0] != w[0] or only[1] != w[1] and not (kind == 'ordered' and sorted(only[1]) == sorted(w[1])):
            raise Violation('read: reading the index only gives %s instead of %s' % (only, w))
    wmd = {'md_at': None, 'md_completed': None, 'md_from': None, 'md_until': None}
    if not kind.startswith('cli_'):
        wmd.update(plan['md'])
    wmd['capability'] = cap
    if {k: v and (parse_iso(v) if k != 'capability' else v) for k, v in md.items()} != \
            {k: v and (parse_iso(v) if k != 'capability' else v) for k, v in wmd.items()}:
        raise Violation('read: the metadata are read as %s instead of %s' % (md, wmd))


def _scenario(n):
    return {'kind': 'resourcelist', 'entries': n, 'old': [], 'limit': 50000, 'pretty': False, 'spec': '1.1',
            'add_lastmod': False, 'out': 'list.xml', 'ln': [], 'md': {}, 'reuse': False, 'hashes': [], 'string': False,
            'writes': [['entries', None, None]]}


# the documented limit itself; the seeds use smaller ones
SCENARIOS = {'limit': _scenario(50000), 'over_limit': _scenario(50001)}


def as_string(world, plan, which, exp):
    kind = plan['kind']

    def fn():
        li = build(plan, which)
        if kind == 'capabilitylist' or not multi(plan, len(exp)):
            return [li.as_xml()]
        n = li.requires_multifile()
        if kind == 'generator':
            return None
        out = [li.as_xml_part(basename='http://example.org/l.xml', part_number=i) for i in range(n)]
        return out + [li.as_xml(allow_multifile=True, basename='http://example.org/l.xml')]
    r = world.run('string', fn)
    if not r.ok:
        raise Violation('string: making a string failed with %s (%s)' % (r.brief(), r.where))
    if r.value is None:
        return
    docs = [read_doc(x.encode('utf-8')) for x in r.value]
    if multi(plan, len(exp)):
        n = len(docs) - 1
        if [e['uri'] for e in docs[-1]['entries']] != [part_name('http://example.org/l.xml', i) for i in range(n)]:
            raise Violation('string: the index names %s' % [e['uri'] for e in docs[-1]['entries']])
        docs = docs[:-1]
        for d in docs:
            if len(d['entries']) > plan['limit']:
                raise Violation('string: a part has %d entries' % len(d['entries']))
    got = [seen_entry(e) for d in docs for e in d['entries']]
    if plan['spec'] == '1.1' and not plan['add_lastmod'] or not multi(plan, len(exp)):
        if got != [norm(e) for e in exp]:
            raise Violation('string: has %s instead of %s' % (got[:3], exp[:3]))
    world.sim.probe('string')
