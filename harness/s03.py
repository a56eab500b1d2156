"""S03: xigt query."""
from xigt import XigtCorpus, Igt, Tier, Item
from xigt.codecs import xigtxml
from xigt.scripts import xigt_query
from harness.scripts import outcome

PROPERTY = 'S03'
BOUNDS = ('corpora of two IGTs with two items each, attributes missing or of up to 2 arbitrary characters out of letters, braces and '
          'other marks; strings and objects as matches; all actions, alone, together and repeated, one or two files; up to 25 groups; descriptions with '
          'every combination of two fields, unknown names with and without indices and attributes, literal and doubled braces and arbitrary marks')
ASSUMES = ['descriptions are well-formed format strings whose fields are named', 'groups of equal size may be listed in any order']
MARKS = 'ab{}!:'


def corpus(S, name, n=2, alpha='ab', hi=1):
    igts, vals = [], []
    for g in range(2):
        items, vs = [], []
        for i in range(n):
            v = S.str('%sv%d%d' % (name, g, i), 1, hi, alpha) if S.flag('%sv%d%d?' % (name, g, i)) else None
            items.append(Item(id='x%d' % i, attributes={} if v is None else {'k': v}))
            if v is not None:
                vs.append(v)
        igts.append(Igt(id='g%d' % g, tiers=[Tier(id='t', items=items)]))
        vals.append(vs)
    return S.put_file(name, xigtxml.dumps(XigtCorpus(igts=igts))), vals


def find(S):
    path, vals = corpus(S, 'c.xml', n=S.params['n'], alpha=S.params['alpha'], hi=S.params['hi'])
    want = [v for vs in vals for v in vs]
    q = S.params['query']
    args = ['--find', q]
    before, after = q + '\t', ''
    if S.params['desc']:
        pre = S.str('pre', 0, 1, 'a!:<\'')
        kind = S.choice('kind', ['match', 'query', 'brace', 'unknown', 'spec', 'sub', 'index', 'attr', 'given'])
        desc, before, after = {'match': (pre + '{match}|', pre, '|'), 'query': ('{query}' + pre + '{match!s}', q + pre, ''),
                               'brace': ('{{' + pre + '}}{match}{{}}', '{' + pre + '}', '{}'),
                               'unknown': ('{foo}' + pre + '{match}', '{foo}' + pre, ''),
                               'spec': (pre + '{match:s}', pre, ''), 'sub': (pre + '[{subquery}]{match}', pre + '[]', ''),
                               'index': ('{foo[match]}{match}{a[0].query}', '{foo[match]}', '{a[0].query}'),
                               'attr': ('{foo.match}' + pre + '{match}{match_.x[query]!s}', '{foo.match}' + pre, '{match_.x[query]!s}'),
                               'given': ('{match[0]}{query[0]}' + pre, None, pre)}[kind]
        args += ['--description', desc]
        S.reach(kind)
    how = outcome(xigt_query.main, args + [path])
    S.require(how == ('done', None), 'the command succeeds')
    out = S.stdout()
    if before is None:
        lines = [v[0] + q[0] + after for v in want]
    else:
        lines = [before + v + after for v in want]
    S.require(out == path + ':\n' + ''.join(['  ' + x + '\n' for x in lines]) + '\n', 'the matches of find')


def table(lines):
    """[(number, rest)] of a table whose numbers are right-justified"""
    rows, widths = [], []
    for line in lines:
        i = line.find('\t')
        rows.append((int(line[:i]), line[i + 1:]))
        widths.append(i)
    return rows, len(set(widths)) <= 1


def counts(S):
    files = []
    for i in range(S.params['files']):
        files.append(corpus(S, 'c%d.xml' % i, n=S.params.get('n', 2), hi=S.params['hi']))
    args = []
    acts = S.params['acts']
    for a in acts:
        if a == 'tally':
            args += ['--tally', 'igt', 'tier/item/@k', '--description', 'T {query} {subquery} <{match}>']
        else:
            args += ['--' + a, '//item/@k']
            if S.params.get('desc'):
                args += ['-d', a + ' {query}']
    how = outcome(xigt_query.main, args + [p for p, _ in files])
    S.require(how == ('done', None), 'the command succeeds')
    blocks = S.stdout().split('\n\n')
    S.require(len(blocks) == len(files) + 1 and blocks[-1] == '', 'one part for each file')
    for (path, vals), block in zip(files, blocks):
        lines = block.split('\n')
        S.require(lines[0] == path + ':', 'the name of the file')
        rows, aligned = table(lines[1:])
        S.require(aligned, 'the numbers are right-justified')
        flat = [v for vs in vals for v in vs]
        for a in acts:
            if a == 'count':
                S.require(len(rows) > 0 and rows[0] == (len(flat), 'count //item/@k' if S.params.get('desc') else '//item/@k\t'),
                          'number of matches')
                rows = rows[1:]
                S.reach('count')
            elif a == 'unique':
                seen = []
                for v in flat:
                    if v not in seen:
                        seen.append(v)
                S.require(len(rows) > 0 and rows[0] == (len(seen), 'unique //item/@k' if S.params.get('desc') else '//item/@k\t'),
                          'number of different matches')
                rows = rows[1:]
                S.reach('unique')
            else:
                groups = []
                for vs in vals:
                    for g in groups:
                        if g[0] == vs:
                            g[1] += 1
                            break
                    else:
                        groups.append([vs, 1])
                got, rows = rows[:len(groups)], rows[len(groups):]
                S.require(len(got) == len(groups), 'number of groups')
                for vs, n in groups:
                    S.require((n, 'T igt tier/item/@k <' + ', '.join(vs) + '>') in got, 'the size of each group')
                for x, y in zip(got, got[1:]):
                    S.require(x[0] >= y[0], 'larger groups come first')
                S.reach('tally')
        S.require(rows == [], 'nothing else is reported')


def objects(S):
    """matches that are objects are counted as well"""
    targets = ['x0', 'x1', 'x2']
    refs = [S.choice('r%d' % i, targets) for i in range(S.params['n'])]
    xc = XigtCorpus(igts=[Igt(id='g', tiers=[Tier(id='t', items=[Item(id=x, text=x) for x in targets]),
                                             Tier(id='u', alignment='t', items=[Item(id='y%d' % i, alignment=r) for i, r in enumerate(refs)])])])
    path = S.put_file('c.xml', xigtxml.dumps(xc))
    how = outcome(xigt_query.main, ['--count', '//item', '--unique', '//tier[@id="u"]/item/referent()', '--unique', '//item', '--tally',
                                    '//tier[@id="u"]/item', 'referent()', '-d', '{query}', path])
    S.require(how == ('done', None), 'the command succeeds')
    lines = S.stdout().split('\n')
    rows, aligned = table([x for x in lines[1:] if x != ''])
    n = {}
    for r in refs:
        n[r] = n.get(r, 0) + 1
    got = [x[0] for x in rows]
    S.require(got[:3] == [3 + len(refs), len(n), 3 + len(refs)], 'numbers of objects')
    S.require(got[3:] == sorted(n.values(), reverse=True), 'numbers of objects for each group')
    S.reach('objects')


def frame(S):
    """headers, several finds, no action, a description without an action"""
    path, vals = corpus(S, 'c.xml', n=1)
    want = [v for vs in vals for v in vs]
    kind = S.choice('kind', ['none', 'basename', 'header', 'two', 'early', 'files'])
    if kind == 'none':
        args, out = [path], path + ':\n\n'
    elif kind == 'basename':
        args, out = ['--basename', '-f', '//item/@k', path], 'c.xml:\n' + ''.join('  //item/@k\t' + v + '\n' for v in want) + '\n'
    elif kind == 'header':
        args, out = ['-D', '== {filename} {{}}', '-f', '//item/@k', path], '== ' + path + ' {}\n' + ''.join(
            '  //item/@k\t' + v + '\n' for v in want) + '\n'
    elif kind == 'two':
        args = ['-f', '//item/@k', '-c', '//item', '-f', 'igt/@id', '-d', 'I {match}', path]
        out = (path + ':\n' + ''.join('  //item/@k\t' + v + '\n' for v in want) + '  I g0\n  I g1\n' + ' 2\t//item\t\n\n')
    elif kind == 'files':
        path2, vals2 = corpus(S, 'other.d.xml', n=1)
        order = S.choice('order', [0, 1])
        files = [(path, 'c.xml', vals), (path2, 'other.d.xml', vals2)]
        if order:
            files = files[::-1]
        base = S.flag('base')
        head = S.flag('head')
        args = (['--basename'] if base else []) + (['-D', 'in {filename}:'] if head else []) + ['-f', '//item/@k', '-c', '//item'] + [f[0] for f in files]
        out = ''
        for f, b, vs in files:
            out += ('in ' if head else '') + (b if base else f) + ':\n' + ''.join(['  //item/@k\t' + v + '\n' for x in vs for v in x]) + ' 2\t//item\t\n\n'
    else:
        how = outcome(xigt_query.main, ['-d', 'x', '-c', '//item', path])
        S.require(how[0] == 'exit' and how[1] not in (0, None), 'a description has to follow an action')
        S.require(S.stdout() == '', 'nothing is reported')
        S.reach('early')
        return
    how = outcome(xigt_query.main, args)
    S.require(how == ('done', None), 'the command succeeds')
    S.require(S.stdout() == out, 'the report')
    S.reach(kind)


def wide(S):
    """numbers of several digits"""
    n = S.choice('n', [9, 10, 11])
    m = S.size('m', 0, n)
    v = S.str('v', 1, 1, 'ab')
    xc = XigtCorpus(igts=[Igt(id='g', tiers=[Tier(id='t', items=[Item(attributes={'k': v} if i < m else {'l': v}) for i in range(n)])])])
    path = S.put_file('c.xml', xigtxml.dumps(xc))
    acts = [('//item', n), ('//item/@k', m), ('//item/@l', n - m)]
    i = S.choice('first', [0, 1, 2])
    acts = acts[i:] + acts[:i]
    args = []
    for q, _ in acts:
        args += ['--count', q, '-d', '{query}']
    args += ['--tally', '//item', '@k', '-d', 'T{match}']
    how = outcome(xigt_query.main, args + [path])
    S.require(how == ('done', None), 'the command succeeds')
    lines = S.stdout().split('\n')
    rows, aligned = table([x for x in lines[1:] if x != ''])
    S.require(aligned, 'the numbers are right-justified')
    S.require(rows[:3] == [(k, q) for q, k in acts], 'numbers of matches')
    S.require(sorted(rows[3:]) == sorted([x for x in ((m, 'T' + v), (n - m, 'T')) if x[0] > 0]), 'numbers of each group')
    S.require(len(rows) < 5 or rows[3][0] >= rows[4][0], 'larger groups come first')
    S.reach('wide')


def many(S):
    """more groups than usual"""
    n = S.choice('n', [3, 10, 11, 12, 25])
    x = S.choice('same', [0, n - 1])
    xc = XigtCorpus(igts=[Igt(id='g%d' % i, attributes={'k': 'k%d' % (x if i == n // 2 else i)}) for i in range(n)])
    path = S.put_file('c.xml', xigtxml.dumps(xc))
    how = outcome(xigt_query.main, ['--tally', 'igt', '@k', '-d', '{match}', '--find', 'igt/@k', '-d', 'F {match}', '--unique', 'igt/@k', path])
    S.require(how == ('done', None), 'the command succeeds')
    lines = [l for l in S.stdout().split('\n')[1:] if l != '']
    vs = ['k%d' % (x if i == n // 2 else i) for i in range(n)]
    S.require(lines[:n] == ['  F ' + v for v in vs], 'all matches')
    rows, aligned = table(lines[n:])
    groups = sorted(set(vs))
    S.require(aligned and sorted(rows) == sorted([(vs.count(v), v) for v in groups] + [(len(groups), 'igt/@k\t')]), 'all groups and their number')
    S.reach('many')


def fshapes(t):
    out = [dict(n=1, alpha=MARKS, hi=2, desc=False, query='//item/@k'), dict(n=1, alpha='a{', hi=1, desc=True, query='//item/@k'),
           dict(n=1, alpha='a}', hi=1, desc=True, query='//item[@k!="{x}{"]/@k'), dict(n=2, alpha='a', hi=1, desc=False, query='igt/tier/item[@k != "{0}"]/@k')]
    out += [dict(n=2, alpha=MARKS, hi=1, desc=True, query='//item/@k')]
    if t != 'quick':
        out += [dict(n=2, alpha=MARKS, hi=1, desc=True, query='//item[@k != "{match}"]/@k')]
    return out


def cshapes(t):
    out = [dict(files=1, acts=['count'], hi=1), dict(files=1, acts=['unique'], hi=2, n=1), dict(files=1, acts=['unique', 'count'], hi=1, desc=True),
           dict(files=1, acts=['tally'], hi=1), dict(files=2, acts=['tally', 'unique'], hi=1, n=1)]
    if t != 'quick':
        out += [dict(files=1, acts=['tally', 'count', 'unique', 'tally'], hi=2), dict(files=1, acts=['unique'], hi=2, n=2),
                dict(files=1, acts=['tally'], hi=1, n=3)]
    return out


HARNESSES = [('find', fshapes, ['match', 'query', 'brace', 'unknown', 'spec', 'sub', 'index', 'attr', 'given']), ('counts', cshapes, ['count', 'unique', 'tally']),
             ('objects', lambda t: [dict(n=2), dict(n=3)] + ([] if t == 'quick' else [dict(n=5)]), ['objects']),
             ('wide', lambda t: [{}], ['wide']),
             ('many', lambda t: [{}], ['many']),
             ('frame', lambda t: [{}], ['none', 'basename', 'header', 'two', 'early', 'files'])]
