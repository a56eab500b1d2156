"""R07: the older alignment functions."""
import warnings
from xigt import Igt, Tier, Item, ref
from xigt.errors import XigtAttributeError, XigtWarning
from harness.common import raises, expression, resolution

PROPERTY = 'R07'
BOUNDS = ('expressions of up to two selections with up to two spans with one-digit bounds of either sign on known and unknown '
          'ids; item texts arbitrary of 0..2 characters or absent; the default and caller-given glue strings')
ASSUMES = ['the glue strings a caller gives apply between selections, the default ones within a selection']


def spans(S):
    text, sels = expression(S, ['a1', 'b'], S.params['k'], S.params['spans'], signs=S.params.get('signs', True))
    want = []
    for d, x, ss in sels:
        if d:
            want.append(d)
        if ss is None:
            want.append(x)
        else:
            for sd, a, b in ss:
                if sd:
                    want.append(sd)
                want.append((x, int(a), int(b)))
    got = ref.get_alignment_expression_spans(text)
    S.require(len(got) == len(want), 'number of spans')
    for g, w in zip(got, want):
        S.require(g == w, 'span')
    got.append('+')
    S.require(ref.get_alignment_expression_spans(text) == want, 'the spans, asked for again')
    S.require(ref.get_alignment_expression_spans(None) == [] and ref.get_alignment_expression_spans('') == [], 'no spans')
    S.reach('spans')


def resolve(S):
    p = S.params
    vals, items = {}, []
    for x in ('a1', 'b'):
        if p['gaps'] and S.flag(x + '.missing'):
            vals[x] = ''
            continue
        t = S.str('text.' + x, 0, 2, 'pq') if not p['gaps'] or S.flag(x + '.set') else None
        items.append(Item(id=x, text=t))
        vals[x] = t or ''
    tier = Tier(id='t', items=items)
    Igt(tiers=[tier])
    text, sels = expression(S, ['a1', 'b'], p['k'], p['spans'], signs=p.get('signs', True))
    S.require(ref.resolve_alignment_expression(text, tier) == resolution(sels, vals), 'resolution')
    missing = [x for d, x, ss in sels if not any(i.id == x for i in items)]
    ws = [c for c, m in S.warned() if issubclass(c, XigtWarning)]
    S.require(len(ws) == len(missing), 'one warning for each missing item')
    # caller-given glue between whole selections
    out = ''
    for d, x, ss in sels:
        if d == '+':
            out += '&'
        elif d == ',':
            out += '/'
        out += resolution([('', x, ss)], vals)
    S.require(ref.resolve_alignment_expression(text, tier, plus='&', comma='/') == out, 'caller-given glue')
    S.reach('missing' if missing else 'resolved')


def aligned(S):
    ra = S.choice('ra', ['alignment', 'content', 'segmentation'])
    t = Tier(id='t')
    u = Tier(id='u')
    igt = Igt(tiers=[t, u], attributes={ra: 'u'} if S.flag('igt') else {})
    k = S.choice('k', ['u', 't', 'gone', None])
    if k is not None:
        t.attributes[ra] = k
        got = ref.get_aligned_tier(t, ra)
        S.require(got is {'u': u, 't': t, 'gone': None}[k], 'aligned tier')
        S.reach('aligned')
    else:
        ex = raises(lambda: ref.get_aligned_tier(t, ra), XigtAttributeError)
        S.require(ex is not None and 't' in str(ex) and ra in str(ex), 'an unaligned tier is reported by its id')
        S.reach('unaligned')


def shapes(t):
    return [dict(k=1, spans=2, gaps=False, signs=t != 'quick'), dict(k=2, spans=1, gaps=True), dict(k=2, spans=0, gaps=True)] + \
        ([] if t == 'quick' else [dict(k=2, spans=2, gaps=False), dict(k=3, spans=1, gaps=True)])


HARNESSES = [('spans', shapes, ['spans']), ('resolve', shapes, ['resolved', 'missing']),
             ('aligned', lambda t: [{}], ['aligned', 'unaligned'])]
