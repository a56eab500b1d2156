"""M11: reference attributes of tiers and items."""
from xigt import Igt, Tier, Item
from xigt.errors import XigtError
from harness.common import raises

PROPERTY = 'M11'
BOUNDS = ('tiers and items built with any combination of the three reference attributes (absent, None or arbitrary '
          'strings of 0..2 characters), as keyword arguments and as attributes; then up to 2 (quick) / 3 (thorough) '
          'arbitrary assignments')
ASSUMES = ['assignment does not enforce the exclusion of segmentation that construction enforces']
RAS = ['alignment', 'content', 'segmentation']
_get = {'alignment': lambda o: o.alignment, 'content': lambda o: o.content, 'segmentation': lambda o: o.segmentation}


def _set(o, ra, v):
    if ra == 'alignment':
        o.alignment = v
    elif ra == 'content':
        o.content = v
    else:
        o.segmentation = v


def agree(S, o, want, when):
    for ra in RAS:
        S.require(_get[ra](o) == want.get(ra), '%s reads back %s' % (ra, when))
        S.require((ra in o.attributes) == (ra in want), 'presence of %s %s' % (ra, when))
        if ra in want:
            S.require(o.attributes[ra] == want[ra], 'the attribute %s %s' % (ra, when))
            S.require(o.get_attribute(ra) == want[ra], 'attribute lookup of %s %s' % (ra, when))
    S.require(o.attributes.get('other') == 'x' and len(o.attributes) == len(want) + 1, 'other attributes ' + when)


def value(S, name):
    k = S.choice(name + '.kind', ['absent', 'none', 'set'])
    if k == 'absent':
        return False, None
    if k == 'none':
        return True, None
    return True, S.str(name, 0, 2, 'ab1')


def build(S):
    cls = {'tier': Tier, 'item': Item}[S.params['kind']]
    kw, want = {}, {}
    attrs = {'other': 'x'}
    for ra in RAS:
        given, v = value(S, ra)
        if given:
            kw[ra] = v
            if v is not None:
                want[ra] = v
    mine = dict(attrs)
    made = []
    ex = raises(lambda: made.append(cls(attributes=mine, **kw)), XigtError)
    bad = bool(want.get('segmentation')) and bool(want.get('alignment') or want.get('content'))
    S.require((ex is not None) == bad, 'segmentation excludes alignment and content')
    S.require(mine == attrs, 'the caller\'s attributes were changed')
    if bad:
        S.reach('refused')
        return
    o = made[0]
    agree(S, o, want, 'after construction')
    for i in range(S.params['k']):
        ra = S.choice('ra%d' % i, RAS)
        given, v = value(S, 'v%d' % i)
        if given:
            _set(o, ra, v)
            if v is None:
                want.pop(ra, None)
            else:
                want[ra] = v
        agree(S, o, want, 'after assignment')
    S.require(mine == attrs, 'the caller\'s attributes were changed')
    S.reach('built')


def unreadable(S):
    """an unset attribute leaves no trace in references or indices"""
    a, b = Item(id='a', text='x'), Item(id='b')
    ta, tb = Tier(id='ta', items=[a]), Tier(id='tb', items=[b])
    igt = Igt(tiers=[ta, tb])
    ra = S.choice('ra', RAS)
    _set(tb, ra, 'ta')
    _set(b, ra, 'a')
    igt.refresh_indices()
    S.require(igt.referents('b')[ra] == ['a'] and igt.referrers('a')[ra] == ['b'], 'reference')
    if S.flag('none'):
        _set(b, ra, None)
        igt.refresh_indices()
        S.require(not igt.referents('b').get(ra) and not igt.referrers('a').get(ra), 'reference removed')
        S.require(igt.referents('b', [ra]) == {ra: []} and igt.referrers('a', [ra]) == {ra: []}, 'reference removed')
        S.require(b.value() is None, 'no value without reference')
        S.reach('removed')


HARNESSES = [('build', lambda t: [dict(kind=x, k=k) for x in ('tier', 'item') for k in ((1,) if t == 'quick' else (2,))], ['built', 'refused']),
             ('unreadable', lambda t: [{}], ['removed'])]
