"""R01: resolving alignment expressions to text."""
from xigt import Igt, Tier, Item, ref
from xigt.errors import XigtStructureError
from harness.common import raises, expression, resolution, LETTERS

PROPERTY = 'R01'
BOUNDS = ('expressions of one to three selections on arbitrary members of a set of ids, each whole or with up to two spans whose '
          'bounds are arbitrary one-digit (thorough: also two-digit) numbers of either sign, joined by arbitrary '
          'delimiters out of comma and plus; item texts arbitrary strings of length 0..3 (thorough 0..4) or absent; a tier or an '
          'igt as the container; surrounding whitespace; unknown ids')
ASSUMES = []


def texts(S, ids, n):
    vals, items = {}, []
    for x in ids:
        if S.params.get('absent') and S.flag('absent.' + x):
            vals[x] = ''
            items.append(Item(id=x))
        else:
            t = S.str('text.' + x, S.params.get('min', 0), n, 'pq ')
            vals[x] = t
            items.append(Item(id=x, text=t))
    return vals, items


def resolve(S):
    p = S.params
    ids = p['ids']
    vals, items = texts(S, ids, p['len'])
    tier = Tier(id='t', items=items)
    igt = Igt(tiers=[tier, Tier(id='u', items=[Item(id='zz', text='other')])])
    text, sels = expression(S, ids, p['k'], p['spans'], signs=p.get('signs', True))
    if p.get('pad'):
        text = S.choice('lead', ['', ' ']) + text + S.choice('trail', ['', ' ', '\n'])
    want = resolution(sels, vals)
    S.require(ref.resolve(tier, text) == want, 'resolution in a tier')
    S.require(ref.resolve(igt, text) == want, 'resolution in an igt')
    S.reach('resolved')
    S.observe(want)
    for x in ids:
        S.require(tier[x].value() in (None, vals[x]), 'resolution changed an item')


def unknown(S):
    """an id that the container lacks is an error, wherever it stands"""
    known = ['a', 'b']
    tier = Tier(id='t', items=[Item(id=x, text='xyz') for x in known])
    Igt(tiers=[tier])
    one = S.str('one', 1, 2, 'abc1')
    two = S.str('two', 1, 2, 'abc1')
    for s in (one, two):
        S.assume(s[0] != '1')
    sep = S.choice('sep', [',', '+'])
    rng = S.choice('rng', ['', '[0:1]', '[0:1,1:2]'])
    text = one + rng + sep + two + S.choice('rng2', ['', '[1:2]'])
    ok = (one == 'a' or one == 'b') and (two == 'a' or two == 'b')
    ex = raises(lambda: ref.resolve(tier, text), XigtStructureError)
    S.require((ex is None) == ok, 'an unknown id is reported')
    S.reach('known' if ok else 'unknown')


def chained(S):
    """references resolve through items that have no text of their own"""
    w = S.str('w', 0, 3, 'pq')
    a1, b1 = S.str('a1', 1, 1, '0123'), S.str('b1', 1, 1, '0123')
    a2, b2 = S.str('a2', 1, 1, '012'), S.str('b2', 1, 1, '012')
    ra = S.choice('ra', ['content', 'segmentation'])
    tw = Tier(id='w', items=[Item(id='w1', text=w)])
    tm = Tier(id='m', attributes={ra: 'w'}, items=[Item(id='m1', attributes={ra: 'w1[%s:%s]' % (a1, b1)}),
                                                   Item(id='m2', attributes={ra: 'w1'})])
    Igt(tiers=[tw, tm])
    mid = w[int(a1):int(b1)]
    S.require(ref.resolve(tm, 'm1[%s:%s]+m2' % (a2, b2)) == mid[int(a2):int(b2)] + w, 'resolution through a reference')
    S.reach('chained')


def shapes(t):
    q = t == 'quick'
    out = [dict(ids=['a', 'b2'], k=1, spans=1, len=3),
           dict(ids=['a', 'b2'], k=2, spans=0, len=1, absent=True, anyid=True, pad=True),
           dict(ids=['a1', 'b.2'], k=3, spans=0, len=1, anyid=True, absent=True),
           dict(ids=['w-1', 'w'], k=2, spans=1, len=2, min=2, anyid=True, signs=False),
           dict(ids=['a'], k=1, spans=2, len=2, min=2, signs=False),
           dict(ids=['a'], k=1, spans=2, len=2, min=2)]
    if not q:
        out += [dict(ids=['a', 'b2'], k=1, spans=2, len=3, signs=False),
                dict(ids=['a', 'b2'], k=2, spans=1, len=2, absent=True, anyid=True),
                dict(ids=['a_1', 'b'], k=3, spans=1, len=2, min=2, signs=False)]
    return out


HARNESSES = [('resolve', shapes, ['resolved']), ('unknown', lambda t: [{}], ['known', 'unknown']),
             ('chained', lambda t: [{}], ['chained'])]
