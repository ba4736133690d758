"""C21: a sync from a local directory never damages its source."""

import os

from sim import model
from sim.core import Violation
from sim.fs import tree, write_file, _real
from sim.model import diff_trees, full_tree
from sim.source import content, doc, hash_att, iso

BUDGET = {'quick': {'runs': 6000, 'wall': 120}, 'thorough': {'runs': 250000, 'wall': 1500}}
RULE = ('one run lets clients sync one to four times between local directories that are the same, contain each other, are linked '
        'or have nothing in common but a beginning of their names, written as absolute or relative paths, with dots or as '
        'file: URIs, under disk faults and crashes; non-trivial if they overlap or a fault or crash met the sync')
LISTS = ('steps', 'files', 'local')
REAL = ('resync.mapper, client, resource_list, change_list, list_base*, sitemap, resource_list_builder, url_or_file_open, '
        'client_state, resync-sync, urllib file handler')
STUBS = 'clock, faults and crashes of the file system'
ASSUMPTIONS = ('lstat() of a symbolic link that exists does not fail', 'directories are not moved or linked while a sync runs',
               'links are directories on the way to or in place of the source or the destination, not inside them')
NAMES = [n for n in model.local_names() if not any(c in n for c in '=,')]

# source and destination below the scratch directory, and whether one contains the other
PAIRS = [('cwd/src', 'cwd/src', True), ('src', 'src', True), ('cwd/src', 'cwd/src/copy', True), ('src/part', 'src', True),
         ('src', 'src/a/b/c', True), ('cwd/src', 'cwd', True), ('src', 'srclink', True), ('srclink', 'src/in', True),
         ('up/srclink', 'up/data', True), ('cwd/src', 'cwd/src/.', True),
         ('src', 'dst', False), ('src', 'src2', False), ('src2', 'src', False), ('cwd/src', 'cwd/src-b', False),
         ('src/a', 'src/ab', False), ('src/ab', 'src/a', False), ('cwd/s', 'dst/s', False), ('src', 'dst/src', False),
         ('src', 'dstlink', False), ('src.d', 'src', False), ('cwd/src', 'src', False), ('up/src', 'up/dst', False)]
LINKS = [('srclink', 'src'), ('up/srclink', 'up/data'), ('dstlink', 'elsewhere')]
STYLES = ['abs', 'abs', 'rel', 'rel', 'dots', 'updown', 'slashes', 'dotrel']
FILE = ['file3', 'file1', 'filehost', 'filequote']


def plan(rng, tier):
    s, d, over = rng.choice(PAIRS)
    steps = []
    for _ in range(rng.choice([1, 2, 2, 3, 4])):
        f, c = None, None
        r = rng.random()
        if r < 0.2:
            f = {'p': rng.choice([0.03, 0.15]), 'short': rng.random() < 0.5,
                 'calls': ['open', 'read', 'openw', 'write', 'close', 'stat', 'mkdir', 'utime', 'unlink', 'scandir', 'readdir']}
        elif r < 0.4:
            c = [round(rng.random(), 4), rng.choice(['before', 'after', 'torn', 'sigint'])]
        edits = [[rng.choice(['put', 'put', 'del', 'stale', 'stale', 'grow']), rng.choice(NAMES), rng.randrange(1000),
                  model.pick_size(rng), round(model.gen_ts(rng), 6)] for _ in range(rng.choice([0, 1, 2, 4]))]
        steps.append([rng.choice(['baseline', 'baseline', 'baseline', 'incremental', 'incremental', 'audit', 'dryrun']),
                      rng.random() < 0.7, rng.random() < 0.3, f, c, edits])
    return {'src': s, 'dst': d, 'over': over, 'sstyle': rng.choice(STYLES + FILE), 'dstyle': rng.choice(STYLES),
            'form': rng.choice(['two', 'eq', 'eq', 'default' if s == d else 'eq']),
            'second': rng.choice([None, None, None, 'http', 'chain', 'back', 'apart']),
            'files': [[n, rng.randrange(1000), model.pick_size(rng), round(model.gen_ts(rng), 6)]
                      for n in rng.sample(NAMES, rng.choice([1, 2, 4, 8]))],
            'local': [[rng.choice(NAMES + ['zz', 'd/zz']), rng.randrange(1000), rng.choice([1, 20])]
                      for _ in range(rng.choice([0, 1, 3]))],
            'hashes': model.gen_hashes(rng), 'api': rng.random() < 0.4, 'explicit': rng.random() < 0.3, 'parts': rng.choice([0, 0, 0, 2]), 'steps': steps}


def write_path(world, rel, style):
    """The directory written in some way."""
    p = world.p(rel)
    if style in ('rel', 'dotrel'):
        q = os.path.relpath(p, world.cwd)
        return {'rel': q, 'dotrel': './' + q}[style]
    head, tail = p.rsplit('/', 1)
    return {'abs': p, 'dots': head + '/./' + tail, 'updown': head + '/' + 'nodir/../' + tail, 'slashes': head + '//' + tail,
            'file3': 'file://' + p, 'file1': 'file:' + p, 'filehost': 'file://localhost' + p,
            'filequote': 'file://' + head + '/%' + '%02x' % ord(tail[0]) + tail[1:]}[style]


def execute(world, plan):
    sim = world.sim
    for d in {'src', 'src2', 'up/data', 'elsewhere', plan['src']}:
        if d not in [x for x, _ in LINKS]:
            _real['makedirs'](world.p(d), exist_ok=True)
    if 'updown' in (plan['sstyle'], plan['dstyle']):
        for d in (plan['src'], plan['dst']):
            _real['makedirs'](os.path.dirname(world.p(d)) + '/nodir', exist_ok=True)
    for a, b in LINKS:
        _real['symlink'](world.p(b), world.p(a))
    now = sim.now
    src = world.p(plan['src'])
    for n, cid, size, ts in plan['files']:
        put(src, n, content(cid, size), ts)
    dst = world.p(plan['dst'])
    if not plan['over']:
        for n, cid, size in plan['local']:
            put(dst, n, content(cid, size), now - 9e4)
    base = write_path(world, plan['src'], plan['sstyle'])
    to = write_path(world, plan['dst'], plan['dstyle'])
    maps = [[base, to]]
    over = plan['over']
    second = plan['second']
    if second == 'http':
        maps.append(['http://example.org/x', world.p('web')])
    elif second == 'apart':
        _real['makedirs'](world.p('more/s'))
        maps.append([world.p('more/s'), world.p('more/d')])
    elif second in ('chain', 'back') and not over:
        # the destination of one is the source of the other, or both ways
        other = world.p('third')
        if second == 'chain':
            maps.append([world.p(plan['dst']), other])
        else:
            _real['makedirs'](other, exist_ok=True)
            maps.insert(rng_pos(plan), [other, world.p(plan['src']) + '/x'])
        over = True
    if maps[0][0] != base:
        main = maps[0][0]
    else:
        main = base
    listed = {}
    world.dirs['dst'] = dst
    world.dirs['src'] = src
    for k, (mode, delete, clock, f, c, edits) in enumerate(plan['steps']):
        sim.advance(100.5)
        step(world, plan, 'sync%d' % k, maps, base, main, src, dst, over, mode, delete, f, c, edits, k, listed)


def rng_pos(plan):
    return len(plan['files']) % 2


def put(top, name, data, ts):
    p = top + '/' + name
    q = os.path.dirname(p)
    while len(q) > len(top):
        if os.path.isfile(q):
            return
        q = os.path.dirname(q)
    if os.path.isdir(p):
        return
    write_file(p, data, ts)


def files(top):
    return {rel: v for rel, v in tree(top).items() if v is not None}


def step(world, plan, op, maps, base, main, src, dst, over, mode, delete, f, c, edits, k, old):
    sim = world.sim
    now = sim.now
    stale = {}
    have = {n: v for n, v in files(src).items() if not n.endswith('.xml')}
    before_edit = dict(have)
    for kind, n, cid, size, ts in edits:
        if kind in ('stale', 'grow'):
            # the list will say something else than is there
            if have:
                m = sorted(have)[cid % len(have)]
                stale[m] = kind
        elif kind == 'put':
            put(src, n, content(cid, size), ts)
        else:
            p = src + '/' + n
            if os.path.isfile(p):
                _real['unlink'](p)
    have = {n: v for n, v in files(src).items() if n in NAMES}
    entries, changes = [], []
    for n in sorted(have):
        data, ts = have[n]
        e = {'uri': base + '/' + n, 'lastmod': iso(round(ts, 6)), 'length': len(data)}
        if plan['hashes']:
            e['hash'] = hash_att(data, plan['hashes'])
        if n in stale:
            e['lastmod'] = iso(round(ts, 6) + 7.0)
            if stale[n] == 'grow':
                e['length'] += 3
        entries.append(e)
        if before_edit.get(n) != have[n] or n in stale or k == 0:
            changes.append(dict(e, change='updated', datetime=iso(now - 5)))
    for n in sorted(set(before_edit) - set(have)):
        if n in NAMES:
            changes.append({'uri': base + '/' + n, 'change': 'deleted', 'datetime': iso(now - 5)})
    md = {'at': iso(now)}
    top = src if main == base else main
    docs = {}
    if plan['parts'] and len(entries) > plan['parts']:
        idx = []
        for i in range(0, len(entries), plan['parts']):
            pn = 'resourcelist%05d.xml' % (i // plan['parts'])
            docs[pn] = doc('resourcelist', entries[i:i + plan['parts']], md=md)
            idx.append({'uri': main + '/' + pn})
        docs['resourcelist.xml'] = doc('resourcelist', idx, md=md, index=True)
    else:
        docs['resourcelist.xml'] = doc('resourcelist', entries, md=md)
    docs['changelist.xml'] = doc('changelist', changes, md={'from': iso(now - 1000)})
    for n, b in docs.items():
        write_file(top + '/' + n, b, now)
    pre = full_tree(world)
    fsrc = files(src)
    kw = {}
    if f:
        kw['fs_cfg'] = f
    if c:
        kw['crash_at'] = 1 + int(c[0] * (4 + 8 * len(entries)))
        kw['crash_mode'] = c[1]
    nf = len(sim.fault_log)
    fr = iso(now - 500)
    # lists are not looked for in the directories above the current one
    explicit = main + '/resourcelist.xml' if plan['explicit'] or main.startswith(('..', './..')) else None
    m = 'baseline' if mode == 'dryrun' else mode
    forms = ['%s=%s' % tuple(x) for x in maps]
    if len(maps) == 1 and plan['form'] == 'two':
        forms = list(maps[0])
    elif len(maps) == 1 and plan['form'] == 'default' and not base.startswith('file'):
        forms = [base]
    if plan['api'] and len(forms) != 1 or plan['api'] and '=' in forms[0]:
        def fn():
            from resync.client import Client
            cl = Client(hashes=plan['hashes'] or None, dryrun=(mode == 'dryrun'))
            cl.set_mappings(forms)
            cl.tries = 2
            if explicit:
                cl.sitemap_name = explicit
            if m == 'incremental':
                return cl.incremental(allow_deletion=delete, from_datetime=fr)
            return cl.baseline_or_audit(allow_deletion=delete, audit_only=(m == 'audit'))
        r = world.run(op, fn, **kw)
    else:
        a = ['--' + m]
        if delete:
            a.append('--delete')
        if mode == 'dryrun':
            a.append('--dryrun')
        for h in plan['hashes']:
            a.append('--hash=' + h)
        if m == 'incremental':
            a += ['--from', fr]
        if explicit:
            a += ['--sitemap', explicit]
        r = world.cli(op, 'resync-sync', a + forms, **kw)
    if r.kind in ('hang', 'exit'):
        raise Violation('ended: %s' % r.brief())
    post = full_tree(world)
    faulty = bool(c) or any(x[2] != 'short_write' for x in sim.fault_log[nf:])
    if over or faulty:
        world.nontrivial = True
    # the source is as it was
    now_src = files(src)
    for n in sorted(set(fsrc) | set(now_src)):
        if fsrc.get(n) != now_src.get(n):
            raise Violation('source: the %s from %s to %s changed %s of the source: %s -> %s' % (
                mode, short(world, base), short(world, maps[0][1]), n, say(fsrc.get(n)), say(now_src.get(n))))
    state = [x for x in diff_trees(pre, post, 10 ** 6) if '.resync-client-status' not in x]
    if over:
        sim.probe('overlap')
        if m != 'audit':
            if r.ok:
                raise Violation('allowed: a %s from %s to %s was not refused' % (mode, short(world, base),
                                                                              short(world, maps[0][1])))
            if state:
                raise Violation('changed: a %s from %s to %s changed %s' % (mode, short(world, base),
                                                                           short(world, maps[0][1]), state))
        return
    if mode in ('audit', 'dryrun') and state:
        raise Violation('changed: a %s changed %s' % (mode, state))
    if faulty:
        return
    if not entries and m != 'incremental':
        return
    if clash(have, files(dst)):
        return
    if not r.ok:
        raise Violation('refused: a %s from %s to %s ended with %s (%s)' % (
            mode, short(world, base), short(world, maps[0][1]), r.brief(), r.where))
    if mode == 'baseline':
        sim.probe('copied', len(entries))
        got = files(dst)
        for n in have:
            if n not in got or got[n][0] != have[n][0]:
                if n in got and len(got[n][0]) == len(have[n][0]) and not plan['hashes']:
                    continue
                raise Violation('copy: %s is not a copy of that in the source' % n)
        if delete:
            for n in got:
                if n not in have:
                    raise Violation('copy: %s was not deleted' % n)


def clash(want, got):
    """True if a name needed as a directory is a file or the other way round."""
    for n in want:
        for o in got:
            if o.startswith(n + '/') or n.startswith(o + '/'):
                return True
    return False


def short(world, x):
    return x.replace(world.root, '$R')


def say(v):
    return 'absent' if v is None else '%d bytes of %r' % (len(v[0]), v[1])
