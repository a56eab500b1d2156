"""R02: expanding and compressing reference expressions."""
from xigt import Igt, Tier, Item, ref
from harness.common import expression, resolution

PROPERTY = 'R02'
BOUNDS = ('expressions of one to three selections on one or two ids (repeated or not), each whole or with up to '
          'two (thorough: three) spans with arbitrary one-digit bounds of either sign, joined by arbitrary delimiters out of comma, plus, '
          'space and line break; reference lists with one or more blanks, line breaks and other delimiters, also of several characters; all expressions that arise from each other by expanding and compressing; the same expression asked about again after the caller changed the first answer')
ASSUMES = ['compressing merges neighbouring ranges on one id; how far it merges across blanks is left open as long as '
           'expanding gives the ranges back']


def written(sels, expanded):
    """the expanded form of an expression"""
    out = ''
    for d, x, spans in sels:
        if spans is None:
            out += d + x
        else:
            for j in range(len(spans)):
                sd, a, b = spans[j]
                out += (d if j == 0 else sd) + x + '[' + a + ':' + b + ']'
    return out


def rewrite(S):
    p = S.params
    text, sels = expression(S, p['ids'], p['k'], p['spans'], delims=p.get('delims', ',+'), signs=p.get('signs', True))
    full = written(sels, True)
    S.require(ref.expand(text) == full, 'expanded form')
    S.require(ref.expand(full) == full, 'expanding twice')
    short = ref.compress(text)
    S.require(ref.expand(short) == full, 'expanding a compressed expression')
    S.require(ref.compress(full) == short, 'compressing an expanded expression')
    S.require(ref.compress(short) == short, 'compressing twice')
    # neighbouring ranges on one id are merged
    n = 0
    last = None
    for d, x, spans in sels:
        if spans is None or last != x:
            n += 1
        last = None if spans is None else x
    if p.get('delims', ',+') == ',+':
        S.require(len(ref.selections(short, keep_delimiters=False)) == n, 'number of selections in compressed form')
        S.reach('merged' if n < len(sels) else 'unmerged')
    S.reach('ranges' if full != text else 'plain')
    S.observe(short)


def meaning(S):
    """all three forms resolve to the same text"""
    p = S.params
    text, sels = expression(S, p['ids'], p['k'], p['spans'], signs=False)
    vals = {}
    for x in p['ids']:
        vals[x] = S.str('text.' + x, 2, 2, 'pq')
    tier = Tier(id='t', items=[Item(id=x, text=vals[x]) for x in vals])
    Igt(tiers=[tier])
    want = resolution(sels, vals)
    S.require(ref.resolve(tier, ref.expand(text)) == want, 'meaning of the expanded form')
    S.require(ref.resolve(tier, ref.compress(text)) == want, 'meaning of the compressed form')
    S.reach('meaning')


def blanks(S):
    """lists of references separated by runs of blanks"""
    text, n = '', S.params['k']
    for i in range(n):
        x = S.choice('id%d' % i, ['a', 'b'])
        if i:
            text += S.choice('gap%d' % i, S.params.get('gaps', [' ', '  ', '\n', ' \n', '\n ']))
        text += x
        if S.flag('rng%d' % i):
            text += '[' + S.str('s%d' % i, 1, 1, '0123456789') + ':' + S.str('e%d' % i, 1, 1, '0123456789') + ']'
    S.require(ref.expand(text) == text, 'a list without compound ranges is expanded already')
    short = ref.compress(text)
    S.require(ref.expand(short) == text, 'expanding a compressed list')
    S.require(ref.compress(short) == short, 'compressing twice')
    S.reach('list')


def repeated(S):
    """what one call gave is the caller's own, and does not matter to the next"""
    text = S.choice('a', ['a1', 'a1[0:1]', 'a1[0:1+2:3]', 'a1[0:1]+a1[2:3]']) + S.str('sep', 1, 1, ', +') + S.choice('b', ['a1', 'b[0:1]', 'a1[4:5]'])
    k = S.choice('how', ['ids', 'selections', 'spans'])
    kw = {} if k == 'ids' else {'keep_delimiters': S.flag('keep')}
    f = getattr(ref, k)
    first = f(text, **kw)
    want = list(first)
    op = S.choice('op', ['append', 'clear', 'replace', 'other option', 'other text'])
    if op == 'append':
        first.append('z')
    elif op == 'clear':
        del first[:]
    elif op == 'replace':
        first[0] = 'z'
    elif op == 'other option':
        f(text, **({} if k == 'ids' else {'keep_delimiters': not kw['keep_delimiters']}))
        ref.expand(text)
        ref.compress(text)
    else:
        f(text + '+c', **kw)
    S.require(f(text, **kw) == want, 'the same question has the same answer')
    S.require(ref.expand(text) == ref.expand(ref.compress(text)), 'the other forms')
    S.reach('repeated')


def shapes(t):
    out = [dict(ids=['a', 'b2'], k=2, spans=2, signs=False), dict(ids=['a'], k=3, spans=1, signs=True),
           dict(ids=['a.1', 'a'], k=3, spans=1, signs=False, anyid=True), dict(ids=['a'], k=2, spans=2, signs=True),
           dict(ids=['a', 'b'], k=2, spans=1, delims=', +\n', anyid=True)]
    if t != 'quick':
        out += [dict(ids=['a', 'b'], k=3, spans=2, signs=False, anyid=True), dict(ids=['a'], k=2, spans=3, signs=True)]
    return out


HARNESSES = [('rewrite', shapes, ['merged', 'unmerged', 'ranges', 'plain']),
             ('meaning', lambda t: [dict(ids=['a'], k=2, spans=1), dict(ids=['a', 'b'], k=2, spans=1)], ['meaning']),
             ('blanks', lambda t: [dict(k=k) for k in (1, 2, 3)] + [dict(k=k, gaps=[',', '+', ' , ', ', ', ' +', ',+', ';;', '\n,']) for k in (2, 3)], ['list']),
             ('repeated', lambda t: [{}], ['repeated'])]
