"""C20: a document that was damaged, or is malformed, is rejected as a whole."""

import random
import re
import xml.etree.ElementTree as ET
from xml.sax.saxutils import quoteattr

from props import c03
from sim import model
from sim.core import Violation
from sim.model import Site, sync
from sim.fs import tree, write_file
from sim.source import RS, SM, Server, content, doc, hash_att, iso

BUDGET = {'quick': {'runs': 9000, 'wall': 100}, 'thorough': {'runs': 300000, 'wall': 1500}}
RULE = ('one run stores several documents (single, or an index with parts) of which one is damaged by a storage, transfer or '
        'publisher fault, and has them read by the list classes or by whole syncs, from the web and from disk; '
        'non-trivial if a document was damaged')
LISTS = ('steps',)
REAL = ('resync.sitemap, resource, w3c_datetime, list_base, list_base_with_index, all list classes, url_or_file_open, '
        'client (baseline, incremental), defusedxml, urllib, http.client')
STUBS = 'TCP connections, HTTP server, clock, disk; documents and their faults come from a writer of the check'
ASSUMPTIONS = ('unknown elements, attributes, digest types and capability names of entries are extensions, which a reader may ignore',
               'a damaged document that is still valid cannot be recognised; it has to be read as what it is now',
               'white space around numbers and times, leap seconds, empty lastmod elements and the same URI twice in lists other '
               'than resource, resource dump and capability lists are not judged',
               'UTC offsets other than zero are not compared (known finding of C01)')
LEVEL_NOTE = 'Documents are judged valid, invalid or unclear by a reader of the check; unclear ones are not judged. '

# class name: capability, index allowed, repeated URIs are an error (None: not judged)
CLASSES = {
    'ResourceList': ('resourcelist', True, True),
    'ChangeList': ('changelist', True, False),
    'CapabilityList': ('capabilitylist', False, True),
    'SourceDescription': ('description', True, True),
    'ResourceDump': ('resourcedump', True, True),
    'ChangeDump': ('changedump', True, None),
    'ResourceDumpManifest': ('resourcedump-manifest', True, True),
    'ChangeDumpManifest': ('changedump-manifest', True, False),
    'ResourceListArchive': ('resourcelist-archive', True, None),
    'ChangeListArchive': ('changelist-archive', True, None),
    'ResourceDumpArchive': ('resourcedump-archive', True, None),
    'ChangeDumpArchive': ('changedump-archive', True, None)}
CHANGES = ('ChangeList', 'ChangeDumpManifest')
BYTES = ('cut', 'tail', 'torn', 'zeroblock', 'oldblock', 'dropblock', 'dupblock', 'swapblocks', 'flip', 'flip', 'nul',
         'twice', 'empty', 'entities')
FORM = ('noloc', 'emptyloc', 'twoloc', 'twolastmod', 'badlastmod', 'badlastmod', 'twomd', 'badlength', 'badchange', 'nochange',
        'baddatetime', 'lnnohref', 'lnnorel', 'lnbadpri', 'lnbadlength', 'toptwomd', 'mdlater', 'lnlater', 'topln',
        'wrongcap', 'nocap', 'root', 'namespace', 'swapkind', 'again')
BAD_TIMES = ('not a time', '2020-13-01', '2020-01-32T10:00:00Z', '2020-01-05T10:00:00', '2020-01-05 10:00:00Z', '20200105T100000Z',
             '2020-01-05T25:00:00Z', '2020-1-5', '2020-02-30T00:00:00Z', '2020-01-05T10:61:00Z', 'Sun, 05 Jan 2020 10:00:00 GMT',
             '2020-01-05T10:00:00.Z', '2020-01-05T10:00:00+0100', '2020-01-05T10:00:00+25:00', '1578218400', '2020-01-05T10Z',
             '2020-01-05T10:00:00.25', 'x2020-01-05T10:00:00Z', '2020-01-05T10:00:00Zx')
BAD_INTS = ('x', '', '1.5', '0x10', '1e3', '12 34', '10kB', '--3')


def plan(rng, tier):
    steps = []
    conf = model.gen_conf(rng, local_ok=True)
    if rng.random() < 0.5:
        conf['parts'] = rng.choice([1, 2, 3])
    names = rng.sample(model.local_names() if conf.get('local') else model.NAMES, rng.choice([2, 3, 5]))
    for i, n in enumerate(names):
        steps.append(['put', n, i + 1, rng.choice([0, 1, 30, 300]), model.gen_ts(rng)])
    if rng.random() < 0.7:
        steps.append(['good'])
    for _ in range(rng.choice([1, 2, 4, 8])):
        fault = [rng.choice(BYTES if rng.random() < 0.45 else FORM), round(rng.random(), 5), round(rng.random(), 5)]
        if rng.random() < 0.05:
            fault[0] = 'none'
        if rng.random() < 0.2:
            steps.append(['put', rng.choice(names), rng.randrange(100, 999), rng.choice([1, 40]), model.gen_ts(rng)])
            steps.append(['sync', rng.choice(['baseline', 'baseline', 'incremental']), rng.random() < 0.75,
                          rng.randrange(99), rng.choice([0, 0, 1, 2])] + fault)
        else:
            cls = rng.choice(sorted(CLASSES) + ['ResourceList'] * 3 + ['ChangeList'] * 2 + ['CapabilityList'] * 2)
            steps.append(['read', cls, rng.randrange(10 ** 6), rng.choice([1, 2, 3, 5, 12]), rng.choice([0, 0, 1, 2, 4]),
                          rng.choice(['read', 'read', 'read', 'parse', 'fh', 'str', 'index_only', 'nomulti', 'spec10', 'script']),
                          rng.random() < 0.5, rng.randrange(99)] + fault)
    return {'conf': conf, 'steps': steps}


# -- documents --------------------------------------------------------------------

def gen_entries(seed, cls, n):
    r = random.Random(seed)
    cap = CLASSES[cls][0]
    out = []
    for i in range(n):
        data = content(r.randrange(999), r.choice([0, 1, 20, 500]))
        e = {'uri': 'http://example.org/base/%s%d%s' % (r.choice(['res', 'a/b', 'x&y=', 'z~']), i, r.choice(['', '.html', '/c']))}
        if r.random() < 0.8:
            e['lastmod'] = iso(model.gen_ts(r), r.choice([0, 1, 4]))
        if cap in ('capabilitylist', 'description'):
            e['capability'] = (['resourcelist', 'changelist', 'resourcedump', 'changedump'][i % 4]
                               if cap == 'capabilitylist' else 'capabilitylist')
        else:
            if r.random() < 0.8:
                e['length'] = len(data)
            if r.random() < 0.6:
                e['hash'] = hash_att(data, r.choice([['md5'], ['sha-256'], ['md5', 'sha-1']]))
            if r.random() < 0.3:
                e['type'] = r.choice(['text/html', 'application/x-y; charset=utf-8'])
            if 'manifest' in cap:
                e['path'] = '/resources/%d' % i
        if cap.startswith('change') and 'archive' not in cap and cap != 'changedump':
            e['change'] = r.choice(['created', 'updated', 'deleted'])
            e['datetime'] = iso(model.gen_ts(r), 0)
        if r.random() < 0.3:
            e['ln'] = [{'rel': r.choice(['duplicate', 'alternate', 'describedby']), 'href': 'http://example.org/m%d' % i,
                        **({'pri': r.choice([1, 2, 999999])} if r.random() < 0.5 else {}),
                        **({'length': 12} if r.random() < 0.3 else {})} for _ in range(r.choice([1, 2]))]
        out.append(e)
    return out


def gen_docs(seed, cls, n, parts, base, suffix='.xml'):
    """(uri of the main document, {uri: bytes})."""
    r = random.Random(seed + 1)
    cap = CLASSES[cls][0]
    entries = gen_entries(seed, cls, n)
    pretty = r.random() < 0.5
    md = {}
    if r.random() < 0.7:
        md[r.choice(['at', 'from'])] = iso(model.gen_ts(r), 0)
    ln = [{'rel': 'up', 'href': base + 'up.xml'}] if r.random() < 0.5 else []
    if r.random() < 0.2:
        ln.append({'rel': 'describedby', 'href': 'http://example.org/info'})
    main = base + 'doc' + suffix
    docs = {}
    if parts:
        index = []
        for k, i in enumerate(range(0, len(entries), parts)):
            pu = base + ('doc%05d%s' if pretty else 'doc-%d%s') % (k + 9, suffix)
            docs[pu] = doc(cap, entries[i:i + parts], md=md, pretty=pretty,
                           ln=ln + ([{'rel': 'index', 'href': main}] if r.random() < 0.5 else []))
            index.append({'uri': pu, 'lastmod': iso(1.6e9 + k)})
        docs[main] = doc(cap, index, md=md, index=True, pretty=pretty, ln=ln)
    else:
        docs[main] = doc(cap, entries, md=md, pretty=pretty, ln=ln)
    return main, docs


# -- faults -----------------------------------------------------------------------

def byte_fault(data, kind, a, b, old):
    """What a storage or transfer fault leaves of data, whose previous version is old."""
    n = len(data)
    if kind == 'none':
        return data
    if kind == 'cut':
        return data[:int(a * n)]
    if kind == 'tail':                      # overwritten in place, not truncated
        return data + old[n:]
    if kind == 'torn':                      # overwritten in place, not completely
        k = int(a * n)
        return data[:k] + old[k:]
    if kind == 'flip':
        i = int(a * n)
        return data[:i] + bytes([data[i] ^ (1 << int(b * 8))]) + data[i + 1:]
    if kind == 'nul':
        return data + b'\0' * (1 + int(a * 600))
    if kind == 'twice':
        return data + data
    if kind == 'empty':
        return b''
    if kind == 'entities':
        i = data.index(b'?>') + 2
        return data[:i] + b'<!DOCTYPE x [<!ENTITY e "yyyy">]>' + data[i:].replace(b'</loc>', b'&e;</loc>', 1)
    bs = [16, 64, 512][int(b * 3)]
    blocks = [data[i:i + bs] for i in range(0, n, bs)]
    i = int(a * len(blocks))
    if kind == 'zeroblock':
        blocks[i] = b'\0' * len(blocks[i])
    elif kind == 'oldblock':
        blocks[i] = old[i * bs:(i + 1) * bs] or blocks[i]
    elif kind == 'dropblock':
        del blocks[i]
    elif kind == 'dupblock':
        blocks.insert(i, blocks[i])
    elif kind == 'swapblocks':
        if len(blocks) < 2:
            return None
        j = (i + 1) % len(blocks)
        blocks[i], blocks[j] = blocks[j], blocks[i]
    else:
        raise AssertionError(kind)
    return b''.join(blocks)


def form_fault(data, kind, a, b):
    """What a faulty publisher makes of a document, or None if there is no place for the fault."""
    text = data.decode('utf-8')
    index = '<sitemapindex' in text
    item = 'sitemap' if index else 'url'
    m = re.match(r'(<\?xml[^>]*\?>\n<\w+ [^>]*>)(.*)(</\w+>\n)$', text, re.S)
    head, body, foot = m.groups()
    i = body.find('<%s>' % item)
    pre, rest = (body, '') if i < 0 else (body[:i], body[i:])
    pre = re.findall(r'<[^>]*/>', pre)
    entries = [re.findall(r'<loc>[^<]*</loc>|<lastmod>[^<]*</lastmod>|<rs:\w+ [^>]*/>', e)
               for e in re.findall(r'<%s>(.*?)</%s>' % (item, item), rest, re.S)]
    tail = []
    if not entries:
        return None
    k = int(a * len(entries))
    e = entries[k]

    def where(prefix):
        return [j for j, x in enumerate(e) if x.startswith(prefix)]

    def setatt(j, name, value, lst=None):
        lst = e if lst is None else lst
        x = re.sub(r' %s="[^"]*"' % name, '', lst[j])
        lst[j] = x if value is None else x[:-2] + ' %s=%s/>' % (name, quoteattr(value))

    def md():
        if not where('<rs:md'):
            e.append('<rs:md length="5"/>')
        return where('<rs:md')[0]

    def ln():
        if not where('<rs:ln'):
            e.append('<rs:ln rel="alternate" href="http://example.org/alt"/>')
        return where('<rs:ln')[-1]

    def pick(seq):
        return seq[int(b * len(seq))]
    if kind == 'noloc':
        e.pop(0)
    elif kind == 'emptyloc':
        e[0] = pick(['<loc></loc>', '<loc/>'])
    elif kind == 'twoloc':
        e.insert(pick([1, len(e)]), pick([e[0], '<loc>http://example.org/base/other</loc>']))
    elif kind == 'twolastmod':
        lm = where('<lastmod')
        e.append(pick([e[lm[0]] if lm else '<lastmod>2020-01-01</lastmod>', '<lastmod>2021-05-06T07:08:09Z</lastmod>']))
        if not lm:
            e.append('<lastmod>2020-01-02T00:00:00Z</lastmod>')
    elif kind == 'badlastmod':
        e[:] = [x for x in e if not x.startswith('<lastmod')]
        e.append('<lastmod>%s</lastmod>' % pick(BAD_TIMES))
    elif kind == 'twomd':
        j = md()
        e.append(pick([e[j], '<rs:md length="7"/>', '<rs:md type="text/plain"/>']))
    elif kind == 'badlength':
        setatt(md(), 'length', pick(BAD_INTS))
    elif kind == 'badchange':
        setatt(md(), 'change', pick(['modified', 'Created', 'delete', '', 'created updated']))
    elif kind == 'nochange':
        setatt(md(), 'change', None)
    elif kind == 'baddatetime':
        setatt(md(), 'datetime', pick(BAD_TIMES))
    elif kind == 'lnnohref':
        setatt(ln(), 'href', None)
    elif kind == 'lnnorel':
        setatt(ln(), 'rel', None)
    elif kind == 'lnbadpri':
        setatt(ln(), 'pri', pick(('0', '1000000', '-1', 'x', '1.5', '')))
    elif kind == 'lnbadlength':
        setatt(ln(), 'length', pick(BAD_INTS))
    elif kind == 'toptwomd':
        x = [p for p in pre if p.startswith('<rs:md')]
        pre += pick([x, ['<rs:md at="2020-01-01T00:00:00Z"/>']])
    elif kind in ('mdlater', 'lnlater'):
        x = [p for p in pre if p.startswith('<rs:' + kind[:2])]
        x = x[0] if x else '<rs:%s rel="up" href="http://example.org/up"/>' % kind[:2]
        if b < 0.3 and x in pre:
            pre.remove(x)
        tail.append((k, x))
    elif kind == 'topln':
        pre.append(pick(['<rs:ln rel="up"/>', '<rs:ln href="http://example.org/up"/>',
                         '<rs:ln rel="up" href="http://example.org/up" pri="0"/>',
                         '<rs:ln rel="up" href="http://example.org/up" length="many"/>']))
    elif kind in ('wrongcap', 'nocap'):
        x = [j for j, p in enumerate(pre) if 'capability="' in p]
        if not x:
            return None
        caps = [c[0] for c in CLASSES.values()] + ['resourcelists', 'Resourcelist', '']
        caps.remove(re.search(r'capability="([^"]*)"', pre[x[0]]).group(1))
        setatt(x[0], 'capability', pick(caps) if kind == 'wrongcap' else None, pre)
    elif kind == 'root':
        new = pick(['urlsets', 'html', 'feed', 'rs:urlset'])
        head, foot = re.sub(r'<(urlset|sitemapindex)', '<' + new, head), re.sub(r'\w+>', new + '>', foot)
    elif kind == 'namespace':
        head = head.replace(SM, pick(['http://www.google.com/schemas/sitemap/0.84', SM + '/', SM.upper(), 'http://example.org/']))
    elif kind == 'swapkind':
        head = head.replace('<sitemapindex' if index else '<urlset', '<urlset' if index else '<sitemapindex')
        foot = '</urlset>\n' if index else '</sitemapindex>\n'
        item = 'url' if index else 'sitemap'
    elif kind == 'again':
        entries.insert(int(b * (len(entries) + 1)), [e[0]] + (e[1:] if b < 0.5 else []))
    else:
        raise AssertionError(kind)
    out = [head] + pre
    for j, x in enumerate(entries):
        out.append('<%s>%s</%s>' % (item, ''.join(x), item))
        out += [t for (at, t) in tail if at == j]
    return ''.join(out + [foot]).encode('utf-8')


def damage(data, kind, a, b, old):
    if kind in BYTES or kind == 'none':
        return byte_fault(data, kind, a, b, old)
    return form_fault(data, kind, a, b)


# -- the reader of the check ------------------------------------------------------

class Bad(Exception):
    pass


class Unclear(Exception):
    pass


def judge_time(s, spare=False):
    """Timestamp, or None if it is not compared."""
    if s is None or s.strip() != s or not s.isascii():
        raise Unclear('time')
    m = re.match(r'(\d{4})(?:-(\d\d)(?:-(\d\d)(?:T(\d\d):(\d\d)(?::(\d\d)(\.\d+)?)?(Z|[+-]\d\d:\d\d))?)?)?\Z', s)
    if not m:
        raise Bad('time %r' % s)
    y, mo, d, h, mi, sec = (int(x) if x else z for x, z in zip(m.groups()[:6], (0, 1, 1, 0, 0, 0)))
    if y < 1 or sec == 60 or h == 24:
        raise Unclear('time')
    days = [31, 29 if y % 4 == 0 and (y % 100 or y % 400 == 0) else 28, 31, 30, 31, 30, 31, 31, 30, 31, 30, 31]
    if not 1 <= mo <= 12 or not 1 <= d <= days[mo - 1] or h > 23 or mi > 59 or sec > 59:
        raise Bad('time %r' % s)
    z = m.group(8) or 'Z'
    if z != 'Z':
        if int(z[1:3]) > 23 or int(z[4:6]) > 59:
            raise Bad('time %r' % s)
        if z[1:] != '00:00':
            return None
    import calendar
    return calendar.timegm((y, mo, d, h, mi, sec)) + float(m.group(7) or 0)


def judge_int(s):
    if re.match(r'[0-9]+\Z', s):
        return int(s)
    if not s.isascii() or s.strip() != s or '_' in s or re.match(r'[+-]\d+\Z', s):
        raise Unclear('number')
    raise Bad('number %r' % s)


def blank(s):
    return s is None or not s.strip()


def judge_md(e, entry, spec10):
    if len(e) or not blank(e.text):
        raise Unclear('content of rs:md')
    a = dict(e.attrib)
    if 'change' in a and a['change'] not in ('created', 'updated', 'deleted'):
        raise Bad('change %r' % a['change'])
    if 'length' in a:
        a['length'] = judge_int(a['length'])
    if entry and 'datetime' in a and not spec10:
        a['datetime'] = ('t', judge_time(a['datetime']) if a['datetime'] != '' else _bad('time'))
    return a


def _bad(what):
    raise Bad(what)


def judge_ln(e):
    if len(e) or not blank(e.text):
        raise Unclear('content of rs:ln')
    a = dict(e.attrib)
    for x in ('href', 'rel'):
        if x not in a:
            raise Bad('no %s in rs:ln' % x)
    if 'length' in a:
        a['length'] = judge_int(a['length'])
    if 'pri' in a:
        if re.match(r'-\d+\Z', a['pri']):
            raise Bad('pri')
        a['pri'] = judge_int(a['pri'])
        if not 1 <= a['pri'] <= 999999:
            raise Bad('pri %d' % a['pri'])
    return {k: v for k, v in a.items() if k in ('hash', 'href', 'length', 'modified', 'path', 'rel', 'pri', 'type')}


def judge_hash(s):
    if s is None:
        return {}
    out = {}
    for w in s.split():
        t, sep, v = w.partition(':')
        if not sep or t in out or t not in ('md5', 'sha-1', 'sha-256'):
            return None
        out[t] = v
    return out


def judge(data, cls, part, allow_index, spec10=False, text=False):
    """What the document says: dict(index, md, ln, entries). Raises Bad or Unclear."""
    cap = CLASSES[cls][0] if cls else None
    if not text:
        m = re.match(rb'<\?xml version=[\'"]1.0[\'"] encoding=[\'"](.*?)[\'"]\?>', data)
        if not m or m.group(1).upper() != b'UTF-8':
            # the encoding may be another one now
            try:
                ET.fromstring(data)
            except ET.ParseError as e:
                raise Bad('not well-formed: %s' % e)
            except (LookupError, ValueError):
                raise Bad('encoding')
            raise Unclear('XML declaration')
    if b'<!ENTITY' in data:
        raise Bad('entities')
    if b'<!' in data or b'<?' in data[5:]:
        try:
            ET.fromstring(data)
        except ET.ParseError as e:
            raise Bad('not well-formed: %s' % e)
        raise Unclear('comment')
    try:
        root = ET.fromstring(data.decode('utf-8') if text else data)
    except ET.ParseError as e:
        raise Bad('not well-formed: %s' % e)
    if root.tag not in ('{%s}urlset' % SM, '{%s}sitemapindex' % SM):
        raise Bad('root element %s' % root.tag)
    index = root.tag.endswith('sitemapindex')
    if index and (part or not allow_index):
        raise Bad('index in place of a list')
    item = '{%s}%s' % (SM, 'sitemap' if index else 'url')
    out = {'index': index, 'md': None, 'ln': [], 'entries': []}
    unclear = []

    def soft(fn, *args):
        try:
            return fn(*args)
        except Unclear as e:
            unclear.append(str(e))
    if not blank(root.text):
        unclear.append('text')
    for e in root:
        if not blank(e.tail):
            unclear.append('text')
        if e.tag == '{%s}md' % RS:
            if out['entries'] or out['md'] is not None:
                raise Bad('misplaced or repeated rs:md')
            out['md'] = soft(judge_md, e, False, spec10) or {}
        elif e.tag == '{%s}ln' % RS:
            if out['entries']:
                raise Bad('misplaced rs:ln')
            out['ln'].append(soft(judge_ln, e))
        elif e.tag == item:
            out['entries'].append(judge_entry(e, spec10, unclear, soft, blank))
        else:
            unclear.append('element %s' % e.tag)
    have = (out['md'] or {}).get('capability')
    if have is None and cap not in ('resourcelist', None):
        raise Bad('no capability')
    if have is not None and cap and have != cap:
        raise Bad('capability %r' % have)
    if cls in CHANGES and not index and any('change' not in e['md'] for e in out['entries']):
        raise Bad('no change type')
    if unclear:
        raise Unclear('; '.join(unclear))
    return out


def judge_entry(e, spec10, unclear, soft, blank):
    d = {'ln': [], 'md': {}}
    seen = set()
    if not blank(e.text) or e.attrib:
        unclear.append('text')
    for c in e:
        t = c.tag.split('}')[-1]
        if c.tag not in ('{%s}loc' % SM, '{%s}lastmod' % SM, '{%s}md' % RS, '{%s}ln' % RS):
            unclear.append('element %s' % c.tag)
            continue
        if not blank(c.tail):
            unclear.append('text')
        if t == 'ln':
            d['ln'].append(soft(judge_ln, c))
            continue
        if t in seen:
            raise Bad('repeated %s' % t)
        seen.add(t)
        if t in ('loc', 'lastmod') and len(c):
            unclear.append('content of %s' % t)
        if t == 'loc':
            if c.text is None or c.text == '':
                if not len(c):
                    raise Bad('empty loc')
            elif c.text.strip() != c.text:
                unclear.append('white space')
            d['uri'] = c.text
        elif t == 'lastmod':
            d['lastmod'] = soft(judge_time, c.text)
            d['has_lastmod'] = True
        else:
            d['md'] = soft(judge_md, c, True, spec10) or {}
    if 'uri' not in d:
        raise Bad('no loc')
    return d


def host_lower(uri):
    m = re.match(r'(\w+://[^/]*)(.*)', uri, re.S)
    return m.group(1).lower() + m.group(2) if m else uri


def expected(docs, main, cls, reader, text=False):
    """What reading main has to give: list of (uri, entry), and md."""
    allow = CLASSES[cls][1] and reader not in ('parse', 'fh', 'str', 'nomulti')
    spec10 = reader == 'spec10'
    top = judge(docs[main], cls, False, allow, spec10, text)
    entries = []
    if not top['index'] or reader == 'index_only':
        entries = top['entries']
    else:
        unclear = None
        uris = [e['uri'] for e in top['entries']]
        if len(set(uris)) != len(uris):
            unclear = 'repeated part'
        for u in uris:
            if u not in docs:
                # anything may be there, so only paths like those that are in use are judged
                # (the scheme and the host may be in either case)
                if not re.match(r'[\w:/.$-]+\Z', u) or host_lower(u) in docs:
                    unclear = 'odd part'
                    continue
                raise Bad('no part at %s' % u)
        for u in sorted(uris):
            try:
                entries += judge(docs[u], cls, True, False, spec10)['entries'] if u in docs else []
            except Unclear as e:
                unclear = str(e)
        if unclear:
            raise Unclear(unclear)
    uris = [e['uri'] for e in entries]
    if len(set(uris)) != len(uris) and CLASSES[cls][2] is not False:
        if CLASSES[cls][2]:
            raise Bad('repeated URI')
        raise Unclear('repeated URI')
    return top, entries


def compare(top, entries, got, spec10):
    """The first difference between what is expected and what was read."""
    if len(got['entries']) != len(entries):
        return '%d entries instead of %d' % (len(got['entries']), len(entries))
    # lists that keep the order keep it, others sort by URI or capability
    by = sorted(range(len(entries)), key=lambda i: (entries[i]['uri'], i))
    gy = sorted(range(len(entries)), key=lambda i: (got['entries'][i]['uri'], i))
    for i, j in zip(by, gy):
        e, g = entries[i], got['entries'][j]
        md = e['md']
        if e['uri'] != g['uri']:
            return 'entry %r instead of %r' % (g['uri'], e['uri'])
        want = {'length': md.get('length'), 'change': md.get('change'), 'path': md.get('path'),
                'mime_type': md.get('type'), 'capability': md.get('capability')}
        for k, v in want.items():
            if g[k] != v:
                return '%s of %s is %r instead of %r' % (k, e['uri'], g[k], v)
        h = judge_hash(md.get('hash'))
        if h is not None and g['hash'] != h:
            return 'hash of %s is %r instead of %r' % (e['uri'], g['hash'], h)
        times = [('timestamp', e.get('lastmod'), e.get('has_lastmod'))]
        if not spec10:
            times.append(('ts_datetime', md.get('datetime', (0, None))[1], 'datetime' in md))
        for k, t, has in times:
            if not has and g[k] is not None:
                return '%s of %s is %r' % (k, e['uri'], g[k])
            if has and t is not None and (g[k] is None or abs(g[k] - t) > 2e-6):
                return '%s of %s is %r instead of %r' % (k, e['uri'], g[k], t)
        if (g['ln'] or []) != [{('mime_type' if k == 'type' else k): v for k, v in x.items()} for x in e['ln']]:
            return 'links of %s are %r instead of %r' % (e['uri'], g['ln'], e['ln'])
    if top['md'] is not None:
        for k, v in top['md'].items():
            name = {'at': 'md_at', 'completed': 'md_completed', 'from': 'md_from', 'until': 'md_until'}.get(k, k)
            if k in ('at', 'from', 'until', 'completed', 'capability') and got['md'].get(name) != v:
                return 'metadata %s of the list is %r instead of %r' % (k, got['md'].get(name), v)
    if got['ln'] != [{('mime_type' if k == 'type' else k): v for k, v in x.items()} for x in top['ln']]:
        return 'links of the list are %r instead of %r' % (got['ln'], top['ln'])
    return None


# -- runs -------------------------------------------------------------------------

def make(cls, reader):
    import resync
    import resync.archives
    import resync.change_dump_manifest
    import resync.resource_dump_manifest
    for m in (resync, resync.archives, resync.resource_dump_manifest, resync.change_dump_manifest):
        if hasattr(m, cls):
            kw = {}
            if reader == 'nomulti' and cls == 'ResourceList':
                kw['allow_multifile'] = False
            if reader == 'spec10' and cls in ('ResourceList', 'ChangeList', 'CapabilityList'):
                kw['spec_version'] = '1.0'
            return getattr(m, cls)(**kw)
    raise AssertionError(cls)


def extract(lst):
    out = []
    for r in lst:
        out.append({'uri': r.uri, 'timestamp': r.timestamp, 'length': r.length, 'change': r.change, 'path': r.path,
                    'ts_datetime': r.ts_datetime, 'mime_type': r.mime_type, 'capability': r.capability, 'ln': r.ln,
                    'hash': {k: v for k, v in (('md5', r.md5), ('sha-1', r.sha1), ('sha-256', r.sha256)) if v is not None}})
    return {'entries': out, 'md': dict(lst.md), 'ln': list(lst.ln)}


def step_script(world, n, main, docs, seed, what):
    """resync-sync --parse: what any document says, without the parts of an index."""
    try:
        top = judge(docs[main], None, False, True)
        verdict = 'valid'
    except Bad as e:
        verdict, why = 'invalid', str(e)
    except Unclear:
        verdict = 'unclear'
    world.sim.probe('doc_' + verdict)
    world.sim.probe('cls_script')
    verbose, most = seed % 3 != 0, [None, 1, 2, 4, 100][seed % 5]
    a = ['--parse', '--sitemap', main]
    if verbose:
        a.append('--verbose')
    if most:
        a += ['--max-sitemap-entries', str(most)]
    before = tree(world.root)
    r = world.cli('parse%d' % n, 'resync-sync', a)
    if r.kind not in ('ok', 'error', 'exit'):
        raise Violation('ended: --parse (%s) ended with %s' % (what, r.brief()))
    ok = r.ok and 'FatalError' not in r.stderr
    m = re.search(r'^Parsed (.*) document with (\d+) entries$', r.stdout, re.M)
    if tree(world.root) != before:
        raise Violation('wrote: --parse changed the disk (%s)' % what)
    if verdict == 'invalid' and (ok or m):
        raise Violation('accepted: %s (%s), shown by --parse as %r' % (why, what, m and m.group(0)))
    if verdict != 'valid':
        return
    if not ok or not m:
        raise Violation('refused: a valid document (%s): %s, %r' % (what, r.brief(), r.stdout[-200:]))
    entries = top['entries']
    if int(m.group(2)) != len(entries):
        raise Violation('misread: --parse shows %s entries of %d (%s)' % (m.group(2), len(entries), what))
    cap = (top['md'] or {}).get('capability')
    if cap and m.group(1) != cap:
        raise Violation('misread: --parse shows %s (%s)' % (m.group(0), what))
    shown = re.findall(r'^\[(\d+)\] \[ (\S+) \|', r.stdout, re.M)
    want = [(str(i), e['uri']) for i, e in enumerate(entries[:most or 100])] if verbose else []
    if shown != want and not any(re.search(r'[\s|]', e['uri']) for e in entries):
        raise Violation('misread: --parse shows the entries %r instead of %r (%s)' % (shown[:4], want[:4], what))


def step_read(world, server, n, step):
    cls, seed, count, parts, reader, local, sel, kind, a, b = step[1:]
    if reader == 'nomulti' and cls != 'ResourceList' or reader == 'index_only' and (
            cls in CHANGES or not CLASSES[cls][1]):
        reader = 'read'
    if reader == 'spec10' and cls not in ('ResourceList', 'ChangeList', 'CapabilityList'):
        reader = 'read'
    if cls == 'CapabilityList':
        count, parts = min(count, 4), 0
    if reader == 'fh':
        local = True
    base = world.p('docs%d' % n) + '/' if local else 'http://example.org/docs%d/' % n
    main, docs = gen_docs(seed, cls, count, parts, base)
    old = gen_docs(seed + 7, cls, count + (3 if seed % 2 else 0), parts, base)[1]
    uri = sorted(docs)[sel % len(docs)]
    new = damage(docs[uri], kind, a, b, old.get(uri, docs[uri]))
    if new is None or new == docs[uri] and kind != 'none':
        return
    docs[uri] = new
    text = reader == 'str'
    if text:
        try:
            docs[main].decode('utf-8')
        except UnicodeDecodeError:
            return
        if docs[main].startswith(b'\xef\xbb\xbf'):
            return
    for u, d in docs.items():
        if local:
            write_file(u, d)
        else:
            server.docs[u] = d
    if reader == 'script':
        world.sim.fault('doc_' + kind)
        return step_script(world, n, main, docs, seed, '%s %s, %s' % ('local' if local else 'web', cls, kind))
    try:
        top, entries = expected(docs, main, cls, reader, text)
        verdict = 'valid'
    except Bad as e:
        verdict, why = 'invalid', str(e)
    except Unclear as e:
        verdict, why = 'unclear', str(e)
    world.sim.fault('doc_' + kind)
    world.sim.probe('doc_' + verdict)
    world.sim.probe('cls_' + cls)

    def fn():
        lst = make(cls, reader)
        if reader in ('read', 'nomulti', 'spec10'):
            lst.read(main)
        elif reader == 'index_only':
            lst.read(main, index_only=True)
        elif reader == 'parse':
            lst.parse(uri=main)
        elif reader == 'fh':
            with open(main, 'rb') as fh:
                lst.parse(fh=fh)
        else:
            lst.parse(str_data=docs[main].decode('utf-8'))
        return extract(lst)
    r = world.run('read%d' % n, fn)
    what = '%s by %s.%s, %s in %s' % ('local' if local else 'web', cls, reader, kind, uri.replace(world.root, '$R'))
    if r.kind not in ('ok', 'error'):
        raise Violation('ended: reading a document (%s) ended with %s' % (what, r.brief()))
    if verdict == 'invalid' and r.ok:
        raise Violation('accepted: %s (%s), read as %d entries' % (why, what, len(r.value['entries'])))
    if verdict == 'valid':
        if not r.ok:
            raise Violation('refused: a valid document (%s): %s' % (what, r.brief()))
        d = compare(top, entries, r.value, reader == 'spec10')
        if d:
            raise Violation('misread: %s (%s)' % (d, what))


def step_sync(world, site, op, step):
    mode, delete, sel, clparts, kind, a, b = step[1:]
    old = dict(site.server.docs)
    c03.publish(site, clparts)
    rel = c03.relevant(site, mode)
    uri = rel[sel % len(rel)]
    data = site.server.docs[uri]
    new = damage(data, kind, a, b, old.get(uri, data))
    if new is None or new == data:
        return
    part = bool(re.search(r'\d{5}\.xml$', uri))
    cls = ('ChangeList' if mode == 'incremental' else 'CapabilityList' if uri == site.clu and site.conf.get('route') in
           ('wk_base', 'wk_host', 'caplist') else 'SourceDescription' if uri.endswith('resourcesync') else 'ResourceList')
    docs = dict(site.server.docs)
    docs[uri] = new
    try:
        if part:
            judge(new, cls, True, False)
        else:
            expected(docs, uri, cls, 'read')
        return
    except Unclear:
        return
    except Bad as e:
        why = str(e)
    site.server.docs[uri] = new
    if site.local:
        write_file(uri, new)
    world.sim.fault('doc_' + kind)
    c03.must_fail(world, site, op, mode, {'delete': delete}, '%s (%s in %s)' % (why, kind, uri), {})


def execute(world, plan):
    site = Site(world, plan['conf'])
    site.classes()
    server = site.server
    for n, step in enumerate(plan['steps']):
        world.sim.advance(1)
        k = step[0]
        if k == 'put':
            uri = site.uri(0, step[1])
            model.put_distinct(site, uri, step[2], step[3], step[4])
            site.record(uri, 'updated')
        elif k == 'good':
            if site.res:
                c03.publish(site, 0)
                r = sync(site, 'good%d' % n, 'baseline', {'delete': True})
                if not r.ok:
                    raise Violation('quiet sync failed: %s (%s)' % (r.brief(), r.where))
        elif k == 'read':
            world.nontrivial = True
            step_read(world, server, n, step)
        elif k == 'sync' and site.res:
            step_sync(world, site, 'sync%d' % n, step)
    if world.sim.escapes:
        raise Violation('outside: %s' % (world.sim.escapes[:3],))
