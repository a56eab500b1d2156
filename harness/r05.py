"""R05: the value of an item."""
from xigt import Igt, Tier, Item
from xigt.errors import XigtError, XigtStructureError
from harness.common import raises, expression, resolution

PROPERTY = 'R05'
BOUNDS = ('an item with text absent, empty or arbitrary (up to 2 characters), with any of the content, segmentation and alignment '
          'references, (the content empty, too) on a tier whose own references name an existing tier, a missing tier or are missing; referred texts '
          'arbitrary of 0..2 characters; item loose, on a loose tier, or in an igt; value asked for with the default, '
          'reordered, reduced or no reference attributes; spans with any bounds in -4..4 or open, before and after the text changes; chains of three tiers')
ASSUMES = ['references are acyclic']


def value(S):
    place = S.params['place']
    texts = {'c1': S.str('c1', 0, 2, 'pq'), 's1': S.str('s1', 1, 1, 'xy')}
    igt = Igt(tiers=[Tier(id='c', items=[Item(id='c1', text=texts['c1'])]),
                     Tier(id='s', items=[Item(id='s1', text=texts['s1'])])])
    attrs, tattrs = {}, {}
    form = S.choice('content', [None, 'c1', 'c1,c1', 'c1[0:1]', ''])
    if form is not None:
        attrs['content'] = form
    if S.flag('segmentation'):
        attrs['segmentation'] = 's1+s1'
    if S.flag('alignment'):
        attrs['alignment'] = 's1[0:0]'
    for ra, t in (('content', 'c'), ('segmentation', 's')):
        k = S.choice('tier.' + ra, ['named', 'gone', 'missing'] if place == 'igt' else ['named', 'missing'])
        if k != 'missing':
            tattrs[ra] = t if k == 'named' else 'gone'
    tattrs['alignment'] = 's'
    text = S.str('text', 0, 2, 'mn') if S.flag('text.set') else None
    item = Item(id='x', text=text, attributes=attrs)
    if place != 'loose':
        tier = Tier(id='t', attributes=tattrs, items=[item])
        if place == 'igt':
            igt.append(tier)
    asked = S.choice('asked', ['default', ('segmentation', 'content'), ('alignment',), (), None])
    order = ('content', 'segmentation') if asked == 'default' else (asked or ())
    meaning = {'content': {'': '', 'c1': texts['c1'], 'c1,c1': texts['c1'] + ' ' + texts['c1'],
                           'c1[0:1]': texts['c1'][0:1]}.get(form), 'segmentation': texts['s1'] + texts['s1'], 'alignment': ''}
    want, err = None, None
    if text is not None:
        want = text
        S.reach('text')
    else:
        for ra in order:
            if ra in attrs:
                if place == 'loose' or (place == 'tier' and ra in tattrs) or tattrs.get(ra) == 'gone':
                    err = XigtStructureError
                elif ra not in tattrs:
                    err = KeyError
                else:
                    want = meaning[ra]
                    S.reach('reference')
                break
        else:
            S.reach('nothing')

    def f():
        return item.value() if asked == 'default' else item.value(refattrs=asked)
    if err is None:
        S.require(f() == want, 'value')
        S.observe(want)
        if asked == 'default':
            S.require(item.get_content() == want, 'value under its old name')
    else:
        S.require(raises(f, err) is not None, 'unresolvable reference')
        S.reach('error')
    S.require(item.text == text and item.attributes == attrs, 'asking changed the item')


def span(S):
    text = S.str('text', 0, 3, 'ab') if S.flag('text.set') else None
    w = S.str('w', 0, 2, 'cd')
    igt = Igt(tiers=[Tier(id='w', items=[Item(id='w1', text=w)])])
    item = Item(id='x', text=text)
    tier = Tier(id='t', segmentation='w', items=[item])
    igt.append(tier)
    if S.flag('ref'):
        item.segmentation = 'w1'
    v = text if text is not None else (w if item.segmentation else None)
    a = S.int('a', -4, 4) if S.flag('a.set') else None
    b = S.int('b', -4, 4) if S.flag('b.set') else None
    got = item.span(a, b)
    if v is None:
        S.require(got is None, 'span of nothing')
        S.reach('nothing')
    else:
        S.require(got == v[a:b], 'span')
        if S.params.get('again'):
            item.text = S.str('then', 0, 2, 'ef')
            S.require(item.span(a, b) == item.text[a:b], 'span after the text changed')
            item.text = None
            S.require(item.span(a, b) == (w[a:b] if item.segmentation else None), 'span after the text was taken away')
        S.reach('span')
    S.observe(got)


def chain(S):
    """values through three tiers, by either kind of reference, some overridden by text"""
    w = S.str('w', 0, 3, 'pq')
    tw = Tier(id='w', items=[Item(id='w1', text=w)])
    ra1, ra2 = S.choice('ra1', ['content', 'segmentation']), S.choice('ra2', ['content', 'segmentation'])
    m1 = Item(id='m1', attributes={ra1: 'w1[1:3]'}, text=S.str('m', 0, 1, 'm') if S.flag('m.set') else None)
    tm = Tier(id='m', attributes={ra1: 'w'}, items=[m1])
    x1 = Item(id='x1', attributes={ra2: 'm1[0:1],m1'})
    tx = Tier(id='x', attributes={ra2: 'm'}, items=[x1])
    igt = Igt(tiers=[tx, tm, tw])
    mid = m1.text if m1.text is not None else w[1:3]
    S.require(m1.value() == mid and x1.value() == mid[0:1] + ' ' + mid, 'chained values')
    tw[0].text = 'new'
    if m1.text is None:
        S.require(x1.value() == 'e ew', 'values follow changes of what they refer to')
        S.reach('chain')


HARNESSES = [('value', lambda t: [dict(place=p) for p in ('loose', 'tier', 'igt')], ['text', 'reference', 'nothing', 'error']),
             ('span', lambda t: [{}, dict(again=True)], ['nothing', 'span']), ('chain', lambda t: [{}], ['chain'])]
