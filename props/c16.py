"""C16: lists can be iterated and used by several readers at once."""

import hashlib

from props import c09
from sim import model
from sim.core import Violation
from sim.fs import tree, write_file, _real
from sim.sched import Interrupt, Sched
from sim.source import ReadError, read_doc

THREADS = True
BUDGET = {'quick': {'runs': 14000, 'wall': 120}, 'thorough': {'runs': 250000, 'wall': 1500}}
RULE = ('one run lets two to four threads iterate, serialise, compare and write one list (and read others) under a seeded '
        'scheduler that may switch before every statement or inside expressions; non-trivial if threads were switched in the middle')
LISTS = ('entries', 'old', 'tasks')
SIMPLE = (('fine', False), ('interrupts', 0), ('pretty', False))
REAL = ('resource_container, list_base, list_base_with_index, resource_list, resource_set, change_list, capability_list, '
        'source_description, resource_dump, change_dump, sitemap, resource, mapper, hashes, xml.etree')
STUBS = 'thread scheduler, clock, faults of the file system'
ASSUMPTIONS = ('no thread changes the list, apart from the capability that serialising fills in if it is not set',
               'the switches are those that the interpreter can make: before a statement or inside an expression of the code '
               'under test, and at its system calls')
KINDS = ['resourcelist', 'resourcelist', 'resourcelist', 'ordered', 'changelist', 'changelist', 'capabilitylist',
         'capabilitylist', 'description', 'resourcedump', 'changedump', 'index']
OPS = ['iter', 'iter', 'iter', 'nested', 'nested', 'zip', 'partial', 'xml', 'xml', 'write', 'part', 'hashes', 'uris', 'len',
       'compare', 'compare', 'compare_self', 'first', 'cap', 'parse', 'read', 'sorted', 'copy', 'changes', 'links', 'index', 'item',
       'contains', 'dumpsize']


def plan(rng, tier):
    kind = rng.choice(KINDS)
    p = {'kind': kind, 'entries': c09.gen_list(rng, kind)[:rng.choice([2, 4, 6, 20])],
         'old': c09.gen_list(rng, kind)[:rng.choice([2, 5, 20])],
         'limit': rng.choice([50000, 50000, 1, 2, 3, 5]), 'pretty': rng.random() < 0.3,
         'spec': rng.choice(['1.1', '1.1', '1.1', '1.0']), 'add_lastmod': rng.random() < 0.2, 'out': 'x',
         'ln': [c09.gen_link(rng) for _ in range(rng.choice([0, 0, 1]))], 'md': {}, 'share': rng.random() < 0.4,
         'quantum': rng.choice([1, 2, 3, 10, 10, 40, 200]), 'fine': rng.random() < 0.25,
         'interrupts': rng.choice([0, 0, 0, 0.02, 0.1])}
    if rng.random() < 0.5 and p['entries']:
        # the other list is a variation of the first
        p['old'] = [dict(e) for e in p['entries'] if rng.random() < 0.8]
        for e in p['old']:
            if rng.random() < 0.3 and 'ts' in e:
                e['ts'] = round(e['ts'] + rng.choice([-5, 0.5, 1, 100]), 6)
        p['old'] += c09.gen_list(rng, kind)[:3]
    p['entries'] = clean(p['entries'])
    p['old'] = clean(p['old'])
    if rng.random() < 0.2:
        p['ln'] = p['ln'] + [{'rel': 'index', 'href': 'http://example.org/other'}]
    tasks = []
    # often all do the same few things
    ops = OPS if rng.random() < 0.4 else rng.sample(OPS, rng.choice([1, 1, 2, 3]))
    for _ in range(rng.choice([1, 2, 2, 2, 3, 4])):
        tasks.append([[rng.choice(ops), rng.random() < 0.8, round(rng.random(), 4)]
                      for _ in range(rng.choice([1, 1, 2, 3]))])
    p['tasks'] = tasks
    if rng.random() < 0.2:
        p['fs'] = {'p': rng.choice([0.05, 0.3]), 'only': ['out'], 'short': rng.random() < 0.3}
    return p


def clean(entries):
    return [e for e in entries if not any(ord(c) < 32 or c == '\ufffe' for c in e['name'])]


class Ops(object):
    """What readers do; each returns something comparable."""

    def __init__(self, world, plan, mapper, lists, name):
        self.world = world
        self.plan = plan
        self.mapper = mapper
        self.lists = lists
        self.name = name
        self.n = 0

    def do(self, op, main, f):
        a, b = self.lists if main else (self.lists[1], self.lists[0])
        self.n += 1
        fn = getattr(self, 'op_' + op)
        return fn(a, b, f)

    def ids(self, it):
        return [(r.uri, r.timestamp, r.change, r.capability) for r in it]

    def op_iter(self, a, b, f):
        return self.ids(a)

    def op_nested(self, a, b, f):
        out = []
        for x in a:
            for y in (a if f < 0.7 else a.resources):
                out.append((x.uri, y.uri))
        return out

    def op_zip(self, a, b, f):
        its, outs = [iter(a), iter(a), iter(a.resources)], [[], [], []]
        k = int(f * 1000)
        left = {0, 1, 2}
        while left:
            k = (k * 1103515245 + 12345) & 0x7fffffff
            i = sorted(left)[(k >> 8) % len(left)]
            try:
                outs[i].append(next(its[i]).uri)
            except StopIteration:
                left.discard(i)
        return outs

    def op_partial(self, a, b, f):
        out = []
        n = int(f * (len(a) + 1))
        for r in a:
            if len(out) >= n:
                break
            out.append(r.uri)
        return out + ['then'] + [r.uri for r in a]

    def op_xml(self, a, b, f):
        if hasattr(a, 'requires_multifile') and a.requires_multifile():
            return a.as_xml(allow_multifile=True, basename='http://example.org/rs/i.xml')
        return a.as_xml()

    def op_part(self, a, b, f):
        if not hasattr(a, 'requires_multifile') or not a.requires_multifile():
            return None
        return [a.as_xml_part(basename='http://example.org/rs/i.xml', part_number=i)
                for i in range(a.requires_multifile())]

    def op_write(self, a, b, f):
        d = self.world.p('out', '%s-%d' % (self.name, self.n))
        a.write(basename=d + '/list.xml')
        return ('files', d)

    def op_hashes(self, a, b, f):
        return sorted(a.hashes()) if hasattr(a, 'hashes') else None

    def op_uris(self, a, b, f):
        if self.plan['kind'] in ('capabilitylist', 'description'):
            return None
        return list(a.resources.uris()) if hasattr(a.resources, 'uris') else a.uris()

    def op_len(self, a, b, f):
        return (len(a), a.requires_multifile() if hasattr(a, 'requires_multifile') else None)

    def op_compare(self, a, b, f):
        if not hasattr(a, 'compare'):
            return None
        return [self.ids(x) for x in a.compare(b)]

    def op_compare_self(self, a, b, f):
        if not hasattr(a, 'compare'):
            return None
        return [self.ids(x) for x in a.compare(a)]

    def op_first(self, a, b, f):
        if not hasattr(a.resources, 'first') or not len(a):
            return None
        return a.resources.first().uri

    def op_cap(self, a, b, f):
        if not hasattr(a, 'has_capability'):
            return None
        names = c09.ORDER + ['unknown', 'x']
        return [(n, a.has_capability(n), a.capability_info(n) and a.capability_info(n).uri) for n in names]

    def op_parse(self, a, b, f):
        # another list, from a document
        from resync.resource_list import ResourceList
        li = ResourceList()
        li.parse(str_data=self.plan['_doc'])
        return self.ids(li)

    def op_read(self, a, b, f):
        from resync.resource_list import ResourceList
        li = ResourceList(mapper=self.mapper)
        li.read(uri=self.plan['_file'])
        return self.ids(li)

    def op_sorted(self, a, b, f):
        if not hasattr(a.resources, 'sorted_iter'):
            return None
        return [(x.uri, [y.uri for y in a.resources.sorted_iter()]) for x in a.resources.sorted_iter()]

    def op_copy(self, a, b, f):
        # make a list of the resources of another
        from resync.resource_list import ResourceList
        if self.plan['kind'] == 'changelist':
            return None
        li = ResourceList()
        li.add(a)
        return self.ids(li)

    def op_changes(self, a, b, f):
        from resync.change_list import ChangeList
        li = ChangeList()
        li.add_changed_resources(a, change='updated')
        return self.ids(li)

    def op_links(self, a, b, f):
        return (a.up, a.describedby, a.index, a.link('alternate'), a.md_at, a.md_from, a.md_until, a.md_completed)

    def op_index(self, a, b, f):
        if not hasattr(a, 'index_as_xml'):
            return None
        return a.index_as_xml()

    def op_item(self, a, b, f):
        rs = [r.uri for r in a]
        if not rs:
            return None
        k = int(f * len(rs)) % len(rs)
        if self.plan['kind'] == 'changelist':
            return a[k].uri
        return a[rs[k]].uri

    def op_contains(self, a, b, f):
        if self.plan['kind'] == 'changelist':
            return None
        return [(u, u in a.resources) for u in sorted(self.plan['_uris'])]

    def op_dumpsize(self, a, b, f):
        return sum(r.length or 0 for r in a)


def outcome(fn):
    try:
        return ['ok', fn()]
    except Interrupt:
        return ['interrupted', None]
    except Exception as e:
        e.__traceback__ = None
        return ['error', type(e).__name__, str(e), isinstance(e, OSError)]


def canon(world, v):
    """Make an outcome comparable: what was written instead of where."""
    if v[0] == 'ok' and isinstance(v[1], tuple) and v[1][:1] == ('files',):
        d = v[1][1]
        out = {}
        for name, f in tree(d).items():
            if f is None:
                continue
            try:
                x = read_doc(f[0])
            except ReadError as e:
                out[name] = 'unreadable %s' % e
                continue
            place = d[len(world.root):].replace('/out/', '')
            text = repr((x['index'], x['md'], x['ln'], [
                (e['uri'], None if x['index'] else e.get('lastmod'),
                 e['md'] if not x['index'] or 'hash' not in e['md'] or not _part(world, d, e) else
                 dict(e['md'], hash=e['md']['hash'] == 'md5:' + hashlib.md5(_part(world, d, e)).hexdigest()),
                 e['ln']) for e in x['entries']]))
            out[name] = text.replace(place, 'PLACE')
        return ['ok', out]
    if v[0] == 'error':
        return v[:2]
    return v


def _part(world, d, e):
    name = e['uri'].rsplit('/', 1)[-1]
    f = tree(d).get(name)
    return f[0] if f else None


def props(r):
    return (r.uri, r.timestamp, r.lastmod, r.length, r.md5, r.sha1, r.sha256, r.hash, r.change, r.datetime, r.path,
            r.mime_type, r.capability, repr(r.ln), r.md_at, r.md_from, r.md_until, r.md_completed)


def snapshot(li):
    return ([props(r) for r in li], {k: v for k, v in li.md.items() if k != 'capability'}, [dict(x) for x in li.ln],
            li.uri, li.count, li.capability_name, len(li), li.sitemapindex)


def execute(world, plan):
    sim = world.sim
    plan = dict(plan)
    if not plan['tasks']:
        return
    kind = plan['kind']
    _real['makedirs'](world.p('out'), exist_ok=True)
    world.dirs['out'] = world.p('out')
    maps = ['http://example.org=%s' % world.p('data'), 'http://example.org/rs/lists=%s' % world.p('out')]
    plan['_uris'] = {c09.uri_of(e, kind) for e in plan['entries'] + plan['old']} | {'http://example.org/none'}
    exp = {True: [e['uri'] for e in c09.expect(plan, 'entries')], False: [e['uri'] for e in c09.expect(plan, 'old')]}
    from sim.source import doc
    plan['_doc'] = doc('resourcelist', [{'uri': 'http://example.org/p%d' % i, 'lastmod': '2020-01-01T00:00:0%dZ' % i}
                                        for i in range(4)]).decode('utf-8')
    if plan['_doc'].startswith('<?xml'):
        plan['_doc'] = plan['_doc'].split('?>', 1)[1].strip()
    write_file(world.p('read.xml'), plan['_doc'].encode('utf-8'), sim.now)
    plan['_file'] = world.p('read.xml')

    def lists():
        from resync.mapper import Mapper
        m = Mapper(maps)
        a = c09.build(plan, 'entries', m)
        return m, (a, c09.build(plan, 'old', m))
    # each writer has a place of its own
    for t, ops in enumerate(plan['tasks']):
        for k, (op, main, f) in enumerate(ops):
            if op == 'write':
                _real['makedirs'](world.p('out', 'a%d-%d-1' % (t, k)), exist_ok=True)
                _real['makedirs'](world.p('out', 't%d-%d' % (t, k + 1)), exist_ok=True)
    # 1. every operation alone, with lists of its own
    alone = {}

    def run_alone():
        for t, ops in enumerate(plan['tasks']):
            for k, (op, main, f) in enumerate(ops):
                m, two = lists()
                o = Ops(world, plan, m, two, 'a%d-%d' % (t, k))
                alone[t, k] = outcome(lambda: o.do(op, main, f))
    r = world.run('alone', run_alone)
    for (t, k), v in sorted(alone.items()):
        if v[0] != 'ok' and r.ok:
            raise Violation('alone: %s of the %s failed with %s' % (plan['tasks'][t][k][0], kind, v[:3]))
    if not r.ok:
        raise Violation('ended: reading a list alone ended with %s (%s)' % (r.brief(), r.where))
    alone = {k: canon(world, v) for k, v in alone.items()}
    # 2. all at once
    got = {}
    shared = {}

    def body(t, ops):
        o = Ops(world, plan, shared['m'], shared['two'], 't%d' % t)

        def run():
            for k, (op, main, f) in enumerate(ops):
                got[t, k] = ['unfinished']
                got[t, k] = outcome(lambda: o.do(op, main, f))
        return run
    s = Sched(sim, plan['quantum'], plan['fine'], plan['interrupts'])
    kept = {}

    def run_together():
        m, two = lists()
        shared.update(m=m, two=two)
        kept['before'] = [snapshot(x) for x in two]
        kept['items'] = [[id(x) for x in y] for y in two]
        s.run([('t%d' % t, body(t, ops)) for t, ops in enumerate(plan['tasks'])])
    kw = {'fs_cfg': plan['fs']} if plan.get('fs') else {}
    n0 = len(sim.fault_log)
    r = world.run('threads', run_together, reset=False, **kw)
    failed = len(sim.fault_log) > n0
    if not r.ok:
        raise Violation('ended: reading a list from %d threads ended with %s (%s)' % (len(plan['tasks']), r.brief(), r.where))
    sim.probe('switches', s.switches)
    if s.switches > len(plan['tasks']):
        world.nontrivial = True
    sim.probe('fine_runs' if plan['fine'] else 'statement_runs')
    for (t, k), v in sorted(got.items()):
        op, main, f = plan['tasks'][t][k]
        if v[0] in ('interrupted', 'unfinished'):
            sim.probe('interrupted')
            continue
        c = canon(world, v)
        if v[0] == 'error' and v[3] and failed and op in ('write', 'read'):
            continue
        if failed and op in ('write', 'read') and c != alone[t, k]:
            # C09 decides what a write under disk faults may leave
            if v[0] == 'error' and 'Failed to load' in v[2]:
                continue
        if c != alone[t, k]:
            raise Violation('result: %s of the %s list gave %s %s, alone it gives %s'
                            % (op, kind, short(c, alone[t, k]), v[2:3], short(alone[t, k], c)))
        if op == 'iter' and [x[0] for x in v[1]] != exp[main]:
            raise Violation('order: the %s gives %s instead of %s' % (kind, [x[0] for x in v[1]], exp[main]))
        if op == 'nested' and v[1] != [(x, y) for x in exp[main] for y in exp[main]]:
            raise Violation('order: nested iterations of the %s give %s' % (kind, v[1][:30]))
        if op == 'zip' and any(x != exp[main] for x in v[1]):
            raise Violation('order: iterations of the %s side by side give %s instead of %s' % (kind, v[1], exp[main]))
    # 3. nothing has changed

    def after():
        for i, x in enumerate(shared['two']):
            if snapshot(x) != kept['before'][i]:
                return 'changed: the %s was changed: %s' % (kind, short(repr(snapshot(x)), repr(kept['before'][i])))
            if [id(y) for y in x] != kept['items'][i]:
                return 'changed: the entries of the %s are other objects' % kind
            cap = x.md.get('capability')
            if cap not in (None, c09.CAP[kind]):
                return 'changed: the capability of the %s has become %s' % (kind, cap)
        return None
    r = world.run('after', after, reset=False)
    if not r.ok:
        raise Violation('ended: the list cannot be read any more: %s (%s)' % (r.brief(), r.where))
    if r.value:
        raise Violation(r.value)


def short(a, b):
    a, b = repr(a), repr(b)
    i = 0
    while i < min(len(a), len(b)) and a[i] == b[i]:
        i += 1
    i = max(0, i - 60)
    return '...%s' % a[i:i + 160] if i else a[:160]


FINDINGS = {}
SCENARIOS = {}
