"""R03: splitting expressions into selections, spans and ids."""
from xigt import ref
from harness.common import expression, PRINT

PROPERTY = 'R03'
BOUNDS = ('arbitrary texts of up to 4 (quick) / 5 (thorough) characters over letters, digits, the delimiters, brackets, colon, dot, '
          'minus, blank, line break; and well-formed expressions of up to three selections with up to two spans each, also between delimiters')
ASSUMES = []
ALPHA = 'ab1,+[]:.- \n'


def lossless(S):
    """nothing is lost or reordered, whatever the text"""
    s = S.str('s', 0, S.params['n'], S.params['alpha'])
    parts = ref.selections(s)
    S.require(''.join(parts) == s, 'selections put together')
    S.require(''.join(ref.spans(s)) == ref.expand(s), 'spans put together')
    for p in parts:
        S.require(len(p) > 0, 'an empty part')
    S.reach('split')
    S.observe(parts)


def wellformed(S):
    p = S.params
    text, sels = expression(S, p['ids'], p['k'], p['spans'], delims=', +\n', signs=p.get('signs', True))
    want, bare, full, fullbare, ids = [], [], [], [], []
    for d, x, spans in sels:
        if d:
            want.append(d)
            full.append(d)
        sel = x
        if spans is not None:
            sel += '['
            for sd, a, b in spans:
                sel += sd + a + ':' + b
                if sd:
                    full.append(sd)
                full.append(x + '[' + a + ':' + b + ']')
                fullbare.append(full[-1])
            sel += ']'
        else:
            full.append(x)
            fullbare.append(x)
        want.append(sel)
        bare.append(sel)
        ids.append(x)
    S.require(ref.selections(text) == want, 'selections')
    S.require(ref.selections(text, keep_delimiters=False) == bare, 'selections without delimiters')
    S.require(ref.spans(text) == full, 'spans')
    S.require(ref.spans(text, keep_delimiters=False) == fullbare, 'spans without delimiters')
    S.require(ref.ids(text) == ids, 'ids')
    S.require(ref.get_alignment_expression_ids(text) == ids, 'ids (old name)')
    S.reach('wellformed')


def identifiers(S):
    """every id that an object can have is found whole"""
    ids = []
    for i in range(2):
        ids.append(S.str('h%d' % i, 1, 1, 'aZ') + S.str('t%d' % i, 0, 2, 'b7-._') )
    sep = S.choice('sep', [' ', ',', '+', '  ', '\n'])
    tail = S.choice('tail', ['', '[0:1]', '[0:1+2:3]'])
    S.require(ref.ids(ids[0] + tail + sep + ids[1]) == ids, 'ids')
    S.require(ref.ids(ids[0] + tail + sep + ids[0]) == [ids[0], ids[0]], 'repeated ids are kept')
    S.require(ref.ids('') == [], 'no ids')
    S.require(ref.selections(ids[0] + tail + sep + ids[1]) == [ids[0] + tail, sep, ids[1]], 'selections')
    S.reach('ids')


def edges(S):
    """delimiters before the first and after the last selection"""
    p = S.params
    text, sels = expression(S, ['a', 'b.1'], p['k'], p['spans'], delims=',+ ', signs=False)
    lead = S.choice('lead', ['', ',', ' ', '+', '\n', ', '])
    trail = S.choice('trail', ['', ',', ' ', '+', '\n', ', '])
    want, bare, ids = ref.selections(text), ref.selections(text, keep_delimiters=False), [x for _, x, _ in sels]
    text = lead + text + trail
    S.require(ref.selections(text) == ([lead] if lead else []) + want + ([trail] if trail else []), 'selections')
    S.require(ref.selections(text, keep_delimiters=False) == bare and len(bare) == p['k'], 'selections without delimiters')
    S.require(ref.ids(text) == ids, 'ids')
    full = ref.spans(text)
    S.require(''.join(full) == ref.expand(text), 'spans put together')
    S.require(ref.spans(text, keep_delimiters=False) == [x for x in full if x[0] in 'ab'], 'spans without delimiters')
    S.reach('edges')


def shapes(t):
    if t == 'quick':
        return [dict(n=4, alpha='a1,[:]'), dict(n=3, alpha=ALPHA)]
    return [dict(n=5, alpha='a1,[:]'), dict(n=4, alpha=ALPHA)]


HARNESSES = [('lossless', shapes, ['split']),
             ('wellformed', lambda t: [dict(ids=['a', 'b.1'], k=3, spans=1), dict(ids=['a-1'], k=2, spans=2), dict(ids=['a'], k=2, spans=2, signs=False)],
              ['wellformed']),
             ('identifiers', lambda t: [{}], ['ids']),
             ('edges', lambda t: [dict(k=1, spans=2), dict(k=2, spans=0)] + ([] if t == 'quick' else [dict(k=2, spans=1)]), ['edges'])]
