"""S04: what xigt validate reports."""
import re
from collections import Counter
from xigt import XigtCorpus, Igt, Tier, Item
from xigt.codecs import xigtxml
from xigt.scripts import xigt_validate as xv
from harness.scripts import outcome

PROPERTY = 'S04'
BOUNDS = ('two IGTs with up to 3 tiers of up to 3 items; ids and types present or missing, equal or different; reference attributes of tiers and '
          'items absent, empty, dangling, to empty or filled tiers; reference lists and expressions of up to 3 selections with spans of '
          'arbitrary digits on texts of 0 to 3 characters or none; chains of tiers with missing, dangling and circular references; '
          'reference expressions of up to 4 arbitrary characters; up to three files with ids that are the same or not; files in UTF-8, ISO-8859-1 and UTF-16, with ids that are not allowed')
ASSUMES = ['ids are unique where the corpus could not be loaded otherwise', 'spans are not negative']
ERROR, WARNING, INFO = 40, 30, 20
KINDS = [('noid', 'specify an id'), ('notype', 'specify a type'), ('dup', 'be unique within its'), ('dangling', 'select an available <tier> id'),
         ('unspecified', 'be specified on their <tier>'), ('missing', 'select available <item> ids'), ('outside', 'select spans within'),
         ('overlap', 'NOT overlap')]


def load(S, xc):
    return xigtxml.load(S.put_file('c.xml', xc), mode='transient')


def records(report, path=()):
    """[(path, level, kind, details)] of a report"""
    out = []
    for r in report['records']:
        msg = r['message']
        kind = [k for k, text in KINDS if text in msg]
        assert len(kind) == 1, msg
        detail = msg.split(': ')[-1] if kind[0] in ('unspecified', 'missing', 'outside', 'overlap') else None
        if kind[0] in ('missing', 'dangling'):
            detail = (msg.split('"')[1], detail)
        if kind[0] == 'dup':
            detail = msg.split(' within its ')[-1]
        modal = {ERROR: 'MUST', WARNING: 'SHOULD', INFO: 'MAY'}[r['level']]
        S_ = ' ' + modal + ' '
        assert S_ in msg, 'the modal verb agrees with the level'
        out.append((path, r['level'], kind[0], detail))
    for i, c in enumerate(report['children']):
        assert c['index'] == i, 'index of a report'
        out.extend(records(c, path + (i,)))
    return out


def agree(S, report, want):
    got = records(report)
    for x in want:
        S.require(x in got, 'not reported: %s at level %s of %s' % (x[2], x[1], x[0]))
    for x in got:
        S.require(x in want, 'reported without reason: %s at level %s of %s' % (x[2], x[1], x[0]))
    S.require(len(got) == len(want), 'reported more than once')
    for x in want:
        S.reach(x[2])
    if not want:
        S.reach('fine')


def context(xc, ids):
    return xv.make_context(xc, 0, '<xigt-corpus>', 'collection', ids=ids)


def xml(name, attrs, body=''):
    s = '<' + name
    for k, v in attrs:
        if v is not None:
            s += ' ' + k + '="' + v + '"'
    return s + '>' + body + '</' + name + '>'


def ident(S, name, pool):
    return S.str(name, 1, 1, pool) if S.flag(name + '?') else None


def ids(S):
    want = []
    cid = ident(S, 'corpus', 'ab') if S.params['vary'] == 'igt' else 'c'
    seen = Counter()
    if S.flag('other'):
        seen['a'] += 1
        if cid is not None and cid == 'a':
            want.append(((), ERROR, 'dup', 'collection.'))
    if cid is None:
        want.append(((), INFO, 'noid', None))
    doc, igts = '', []
    for g in range(2):
        gid = ident(S, 'igt%d' % g, 'ij') if S.params['vary'] == 'igt' else 'g%d' % g
        if gid is None:
            want.append(((g,), WARNING, 'noid', None))
        elif gid in igts:
            want.append(((g,), ERROR, 'dup', '<xigt-corpus>.'))
        igts.append(gid)
        tids, iids, body = [], [], ''
        for t in range(2):
            vary = S.params['vary'] == 'tier' and g == 1
            tid = ident(S, 'tier%d%d' % (g, t), 'st') if vary else 't%d' % t
            S.assume(tid is None or tid not in tids)
            tids.append(tid)
            typ = S.choice('type%d' % t, [None, '', 'x']) if vary else 'x'
            if tid is None:
                want.append(((g, t), WARNING, 'noid', None))
            if typ is None or typ == '':
                want.append(((g, t), WARNING, 'notype', None))
            here, items = [], ''
            for x in range(2):
                xid = ident(S, 'item%d%d%d' % (g, t, x), 'xy') if S.params['vary'] == 'item' and g == 0 else 'x%d%d' % (t, x)
                S.assume(xid is None or xid not in here)
                if xid is None:
                    want.append(((g, t, x), WARNING, 'noid', None))
                elif xid in iids:
                    want.append(((g, t, x), ERROR, 'dup', '<igt>.'))
                here.append(xid)
                items += xml('item', [('id', xid)], 'text')
            iids += here
            body += xml('tier', [('id', tid), ('type', typ)], items)
        doc += xml('igt', [('id', gid)], body)
    xc = load(S, xml('xigt-corpus', [('id', cid)], doc))
    agree(S, xv.validate_corpus(xc, context(xc, seen)), want)


RA = ['alignment', 'segmentation', 'content']


def refs(S):
    """reference attributes of a tier and its items"""
    want = []
    a, b = S.params['attrs']
    tiers = [('w', ['w1', 'w2']), ('e', [])]
    tref, iref = {}, [{}, {}]
    for ra in (a, b):
        tref[ra] = S.choice('t' + ra, [None, '', 'w', 'e', 'm', 'no', 'w1'])
        for i in range(2):
            iref[i][ra] = (S.choice('i%d%s' % (i, ra), [None, '', 'w1', 'w2', 'm1', 'w9'] if S.params.get('wide') or ra == a else [None, 'w2', 'm2'])
                           if i == 0 else S.choice('i%d%s' % (i, ra), [None, 'w1 w9', 'w9+m1'] if ra == a else [None]))
    holds = {'w': ['w1', 'w2'], 'e': [], 'm': ['m1', 'm2']}
    spec = [ra for ra in sorted((a, b)) if tref[ra] is None and any(r[ra] is not None for r in iref)]
    if spec:
        want.append(((0, 2), ERROR, 'unspecified', ', '.join(spec)))
    for ra in (a, b):
        t = tref[ra]
        if t is not None and t != '' and t not in holds:
            want.append(((0, 2), ERROR, 'dangling', (ra, None)))
        if t in holds:
            for i in range(2):
                r = iref[i][ra]
                bad = [x for x in (r or '').replace('+', ' ').split() if x not in holds[t]]
                if bad:
                    want.append(((0, 2, i), ERROR, 'missing', (ra, ', '.join(bad))))
    doc = ''.join(xml('tier', [('id', t), ('type', 'x')], ''.join(xml('item', [('id', x)], x) for x in xs)) for t, xs in tiers)
    doc += xml('tier', [('id', 'm'), ('type', 'x')] + sorted(tref.items()),
               ''.join(xml('item', [('id', 'm%d' % (i + 1))] + sorted(iref[i].items()), 'n') for i in range(2)))
    xc = load(S, xml('xigt-corpus', [('id', 'c')], xml('igt', [('id', 'i')], doc)))
    agree(S, xv.validate_corpus(xc, context(xc, Counter())), want)


def spans(S):
    p = S.params
    texts = []
    for i in range(2):
        n = S.choice('len%d' % i, p['lens'])
        texts.append(None if n is None else 'abc'[:n])
    expr, cover, out = '', {}, []
    prev = None
    for k in range(p['k']):
        x = S.choice('x%d' % k, [0, 1, 2])     # (2: no such item)
        d = S.choice('d%d' % k, p['delims']) if k else ''
        expr += d + 'w%d' % x
        sps = S.choice('n%d' % k, p['spans'])
        rng = []
        for j in range(sps):
            s, e = S.str('s%d%d' % (k, j), 1, 1, p['digits']), S.str('e%d%d' % (k, j), 1, 1, p['digits'])
            expr += ('[' if j == 0 else ',') + s + ':' + e
            rng.append((int(s), int(e), 'w%d[' % x + s + ':' + e + ']'))
        if sps:
            expr += ']'
        if x == 2:
            continue
        val = texts[x]
        n = 0 if val is None else len(val)
        for s, e, txt in rng:
            if s > n or e > n:
                out.append(txt)
        for s, e, _ in (rng if sps else [(0, n, '')]):
            for c in range(n):
                if s <= c and c < e:
                    cover[x, c] = cover.get((x, c), 0) + 1
    want = []
    ra = p['ra']
    if 'w2' in expr:
        m = ', '.join(['w2' for z in expr.replace('+', ' ').replace(',', ' ').split() if z[:2] == 'w2'])
        want.append(((0, 1, 0), ERROR, 'missing', (ra, m)))
    if out:
        want.append(((0, 1, 0), WARNING, 'outside', ', '.join(out)))
    # (named in the order in which they are referred to)
    order = sorted(set(x for x, c in cover), key=lambda x: expr.find('w%d' % x))
    over = ['w%d' % x for x in order if any(v > 1 for (y, c), v in cover.items() if y == x)]
    if over:
        want.append(((0, 1, 0), WARNING, 'overlap', ', '.join(over)))
    doc = xml('tier', [('id', 'w'), ('type', 'x')], ''.join(xml('item', [('id', 'w%d' % i)], t or '') for i, t in enumerate(texts)))
    doc += xml('tier', [('id', 'm'), ('type', 'x'), (ra, 'w')], xml('item', [('id', 'm1'), (ra, expr)], 'n'))
    xc = load(S, xml('xigt-corpus', [('id', 'c')], xml('igt', [('id', 'i')], doc)))
    agree(S, xv.validate_corpus(xc, context(xc, Counter())), want)


def chains(S):
    """items whose own references may be broken"""
    ra = S.params['ra']
    tref = S.choice('tref', [None, 'a', 'no', 'b'])
    iref = S.choice('iref', [None, '', 'a1', 'a9', 'b1', 'b2', 'a1[0:2]'])
    s, e = S.choice('s', [0, 1, 2]), S.choice('e', [0, 1, 2, 3])
    expr = 'b1[%d:%d]' % (s, e) + S.choice('more', ['', '+b1[0:2]', ',b2'])
    holds = {'a': ['a1'], 'b': ['b1', 'b2']}
    want = []
    if tref is None and iref is not None:
        want.append(((0, 1), ERROR, 'unspecified', ra))
    if tref == 'no':
        want.append(((0, 1), ERROR, 'dangling', (ra, None)))
    name = (iref or '').split('[')[0]
    if tref in holds and name != '' and name not in holds[tref]:
        want.append(((0, 1, 0), ERROR, 'missing', (ra, name)))
    # what the first item of the middle tier stands for (None: nothing can be said)
    val = None
    if ra != 'alignment' and tref in holds and name in holds[tref]:
        val = {'a1': 'abc', 'b2': 'xy', 'b1': None}[name]
        if iref == 'a1[0:2]':
            val = 'ab'
    if ra != 'alignment' and tref in holds and iref == '':
        val = ''
    if iref == 'a1[0:2]' and tref == 'a':
        S.reach('part')
    elif name == 'b1' and tref == 'b':
        S.reach('circular')
    n = 0 if val is None else len(val)
    out = [x for x in ['b1[%d:%d]' % (s, e)] if s > n or e > n]
    if 'b1[0:2]' in expr[6:] and 2 > n:
        out.append('b1[0:2]')
    cover = [x for x in range(s, e) if x < n and x < 2] if '+' in expr else []
    if out:
        want.append(((0, 2, 0), WARNING, 'outside', ', '.join(out)))
    if cover:
        want.append(((0, 2, 0), WARNING, 'overlap', 'b1'))
    last = S.params['last']
    cid = 'c1'
    if S.params['noid']:
        cid = None
        want.append(((0, 2, 0), WARNING, 'noid', None))
    doc = xml('tier', [('id', 'a'), ('type', 'x')], xml('item', [('id', 'a1')], 'abc'))
    doc += xml('tier', [('id', 'b'), ('type', 'x'), (ra, tref)], xml('item', [('id', 'b1'), (ra, iref)]) + xml('item', [('id', 'b2')], 'xy'))
    doc += xml('tier', [('id', 'c'), ('type', 'x'), (last, 'b')], xml('item', [('id', cid), (last, expr)]))
    xc = load(S, xml('xigt-corpus', [('id', 'c')], xml('igt', [('id', 'i')], doc)))
    agree(S, xv.validate_corpus(xc, context(xc, Counter())), want)


def odd(S):
    """whatever a reference looks like, there is a report"""
    expr = S.params['pre'] + S.str('expr', 1, S.params['n'], S.params['alpha']) + S.params['post']
    ra = S.params['ra']
    doc = xml('tier', [('id', 'a'), ('type', 'x')], xml('item', [('id', 'a1')], 'abc'))
    doc += xml('tier', [('id', 'c'), ('type', 'x'), (ra, 'a')], xml('item', [('id', 'c1'), (ra, expr)], 'n'))
    doc += xml('tier', [('id', 'd')])
    xc = load(S, xml('xigt-corpus', [('id', 'c')], xml('igt', [('id', 'i')], doc)))
    got = records(xv.validate_corpus(xc, context(xc, Counter())))
    S.require(((0, 2), WARNING, 'notype', None) in got, 'the other problems are reported')
    for path, level, kind, detail in got:
        S.require(path == (0, 2) or path == (0, 1, 0) and kind in ('missing', 'outside', 'overlap'), 'nothing else is reported')
        S.reach(kind)


def files(S):
    """several files: ids of corpora are used once, whatever else is wrong"""
    seen, want, paths, n = [], [], [], 0
    for f in range(S.params['files']):
        cid = S.str('c%d' % f, 1, 1, 'cd') if S.flag('id%d' % f) else None
        bad = S.choice('bad%d' % f, ['', 'type', 'dup'])
        doc = xml('tier', [('id', 's'), ('type', 'x')], xml('item', [('id', 'a')]))
        doc += xml('tier', [('id', 't'), ('type', None if bad == 'type' else 'x')], xml('item', [('id', 'a' if bad == 'dup' else 'b')]))
        paths.append(S.put_file('f%d.xml' % f, xml('xigt-corpus', [('id', cid)], xml('igt', [('id', 'i')], doc))))
        if cid is not None and cid in seen:
            want.append('collection.')
        if bad == 'type':
            want.append('specify a type.')
        elif bad == 'dup':
            want.append('<igt>.')
        seen.append(cid)
    how = outcome(xv.main, ['-v'] + paths)
    got = [m for level, m in S.logs()]
    S.require(len(got) == len(want), 'the number of problems of all files')
    for m, w in zip(got, want):
        S.require(w in m, 'the problems of the files in turn')
        S.reach(w)
    S.require(how == ('exit', 1 if want else 0), 'whether there are problems')


def coded(S):
    """a file is read in the encoding it declares"""
    enc = S.choice('enc', ['utf-8', 'iso-8859-1', 'utf-16'])
    text = S.choice('text', ['a', '\xe9\xdf'])
    bad = S.flag('bad')
    doc = '<?xml version="1.0" encoding="' + enc + '"?>\n'
    doc += '<xigt-corpus id="c"><igt id="i"><tier id="s" type="x"><item id="a" state="' + text + '">' + text + '</item></tier>'
    doc += '<tier id="t" type="x" alignment="' + ('q' if bad else 's') + '"><item id="b" alignment="a"/></tier></igt></xigt-corpus>'
    path = S.mkpath('coded.xml')
    with open(path, 'wb') as f:
        f.write(doc.encode(enc))
    how = outcome(xv.main, ['-v', path])
    got = [m for level, m in S.logs()]
    S.require(how == ('exit', 1 if got else 0), 'whether there are problems')
    S.require(bool(got) == bad, 'the problems of a file in another encoding')
    S.require('failed to load' not in S.stdout(), 'the file can be read')
    S.reach('coded')


def invalid(S):
    """a file with ids that are not allowed fails to load, and the next one is still validated"""
    cid = S.str('cid', 1, 2, 'a1_.- \xe9')
    cut = S.flag('cut')
    fine = not cut and bool(re.match(r'[A-Za-z][-\w.]*$', cid))
    level = S.choice('level', ['igt', 'tier', 'item'])
    ids = dict(igt='i', tier='t', item='b')
    ids[level] = cid
    doc = xml('tier', [('id', ids['tier']), ('type', 'x')], xml('item', [('id', ids['item'])]))
    one = S.put_file('one.xml', xml('xigt-corpus', [('id', 'c')], xml('igt', [('id', ids['igt'])], doc) + ('<' if cut else '')))
    two = S.put_file('two.xml', xml('xigt-corpus', [('id', 'c')] if S.flag('same') else [('id', 'd')], xml('igt', [('id', 'i')])))
    how = outcome(xv.main, ['-v', one, two])
    S.require(('failed to load' in S.stdout()) != fine, 'whether the file can be read')
    S.require(how == ('exit', 0 if fine and not S.logs() else 1), 'whether there are problems')
    S.reach('read' if fine else 'unreadable')


def sshapes(t):
    out = [dict(k=1, spans=[0, 1, 2], lens=[None, 2], digits='0123', delims='', ra='alignment'),
           dict(k=2, spans=[0, 1], lens=[2], digits='012', delims=['+', ','], ra='segmentation'),
           dict(k=2, spans=[0], lens=[None, 1], digits='0', delims=['+', ',', ' ', '  '], ra='content'),
           dict(k=3, spans=[0, 1], lens=[1], digits='01', delims=['+'], ra='content')]
    if t != 'quick':
        out += [dict(k=2, spans=[0, 1, 2], lens=[3], digits='0123', delims=['+'], ra='alignment'),
                dict(k=3, spans=[0, 1], lens=[None, 2], digits='012', delims=['+', ' '], ra='segmentation')]
    return out


HARNESSES = [('ids', lambda t: [dict(vary=v) for v in ('igt', 'tier', 'item')], ['noid', 'notype', 'dup', 'fine']),
             ('refs', lambda t: [dict(attrs=a, wide=t != 'quick') for a in (('alignment', 'segmentation'), ('content', 'alignment'), ('segmentation', 'content'))],
              ['dangling', 'unspecified', 'missing', 'fine']),
             ('chains', lambda t: [dict(ra=a, last=b, noid=c) for a, b, c in (('content', 'alignment', True), ('segmentation', 'segmentation', True), ('alignment', 'content', False))],
              ['dangling', 'unspecified', 'missing', 'outside', 'overlap', 'part', 'circular', 'fine']),
             ('odd', lambda t: [dict(pre='', n=3 if t == 'quick' else 4, alpha='a1[:] ', post='', ra='alignment'),
                                dict(pre='a1[', n=4 if t == 'quick' else 5, alpha='01.:-,', post=']', ra='content'),
                                dict(pre='a1[0:1', n=3 if t == 'quick' else 4, alpha='a1]+[:', post='', ra='segmentation')],
              ['missing', 'outside']),
             ('files', lambda t: [dict(files=2), dict(files=3)], ['collection.', 'specify a type.', '<igt>.']),
             ('invalid', lambda t: [{}], ['read', 'unreadable']),
             ('coded', lambda t: [{}], ['coded']),
             ('spans', sshapes, ['outside', 'overlap', 'missing', 'fine'])]
