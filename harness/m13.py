"""M13: any object can be shown."""
from xigt import XigtCorpus, Igt, Tier, Item, Metadata, Meta, MetaChild
from harness.corpora import describe, difference

PROPERTY = 'M13'
BOUNDS = ('objects of every kind with or without arbitrary ids of up to 2 characters and types of up to 1; corpora in all loading modes with up to '
          '2 IGTs, some of them loaded; items with arbitrary texts of up to 2 characters, none, or references that work or are broken at any '
          'step: no tier, no IGT, no reference of the tier, no such tier, no such item, references in a circle')
ASSUMES = []


def mid(S, name):
    return S.str(name, 1, 1, 'ab') + S.str(name + '+', 0, 1, '1-') if S.flag(name + '?') else None


def start(text, o, name):
    # (what follows is the address)
    return text[:len('<%s object (' % name)] == '<%s object (' % name and text[-1] == '>'


def items(S):
    text = S.str('text', 0, 2, 'a"<') if S.flag('text?') else None
    x = mid(S, 'id')
    ref = S.choice('ref', [None, 'content', 'segmentation', 'alignment'])
    target = S.choice('target', ['b', 'b[0:1]', 'gone', 'x', ''])
    item = Item(id=x, text=text, attributes={} if ref is None else {ref: target})
    where = S.choice('where', ['loose', 'tier', 'noref', 'dangling', 'igt', 'self'])
    other = Item(id='b', text='pq')
    if where != 'loose':
        t = Tier(id='t', items=[item], attributes={} if where == 'noref' or ref is None else
                 {ref: 'u' if where == 'igt' else 't' if where == 'self' else 'gone'})
        if where != 'tier':
            S.assume(where != 'self' or x != 'b')    # (see circle)
            Igt(tiers=[t, Tier(id='u', items=[other])])
    before = describe(item)
    s = repr(item)
    if text is not None:
        v = text
    elif ref in ('content', 'segmentation') and where == 'igt':
        v = {'b': 'pq', 'b[0:1]': 'p', '': ''}.get(target)
    elif ref in ('content', 'segmentation') and where == 'self' and target == '':
        v = ''
    else:
        v = None
    want = '<Item object (id: %s) with value "%s" at ' % (x or '--', v)
    S.require(s[:len(want)] == want and s[-1] == '>', 'an item is shown with its value')
    S.require(difference(before, describe(item)) is None, 'showing an item changes nothing')
    S.reach('value' if v is not None else 'none' if ref in (None, 'alignment') else 'broken')


def circle(S):
    """references that end where they began"""
    n = S.choice('n', [1, 2, 3])
    at = S.choice('ra', ['content', 'segmentation'])
    igt = Igt(tiers=[Tier(id='t%d' % i, attributes={at: 't%d' % ((i + 1) % n)}, items=[Item(id='i%d' % i, attributes={at: 'i%d' % ((i + 1) % n)})])
                     for i in range(n)])
    for t in igt:
        for x in t:
            want = '<Item object (id: %s) with value ' % x.id
            S.require(repr(x)[:len(want)] == want, 'items with references in a circle are shown')
    S.reach('circle')


def others(S):
    kind = S.choice('kind', ['corpus', 'igt', 'tier', 'metadata', 'meta', 'metachild'])
    x = mid(S, 'id')
    typ = S.str('type', 0, 1, 't') if S.flag('type?') else None
    n = S.choice('n', [0, 1, 2])
    if kind == 'corpus':
        mode = S.choice('mode', ['full', 'incremental', 'transient'])
        read = S.choice('read', [0, 1, 2])
        S.assume(read <= n)
        loaded = []

        def source():
            for i in range(n):
                loaded.append(i)
                yield Igt(id='i%d' % i)
        o = XigtCorpus(id=x, type=typ, igts=source(), mode=mode)
        it = iter(o)
        for i in range(read):
            next(it)
        had = len(loaded)
        k = n if mode == 'full' else read if mode == 'incremental' else 0
        want = '<XigtCorpus object (id: %s) with %d Igts at ' % (x or '--', k)
        got = repr(o)
        S.require(len(loaded) == had and list.__len__(o) == k, 'showing a corpus loads nothing')
    elif kind == 'igt':
        o = Igt(id=x, type=typ, tiers=[Tier() for i in range(n)])
        want = '<Igt object (id: %s) with %d Tiers at ' % (x or '--', n)
        got = repr(o)
    elif kind == 'tier':
        o = Tier(id=x, type=typ, items=[Item() for i in range(n)])
        want = '<Tier object (id: %s; type: %s) with %d Items at ' % (x or '--', typ, n)
        got = repr(o)
    elif kind == 'metadata':
        o = Metadata(id=x, type=typ, metas=[Meta() for i in range(n)])
        want = '<Metadata object (id: %s) with %d Metas at ' % (x or '--', n)
        got = repr(o)
    elif kind == 'meta':
        o = Meta(id=x, type=typ, children=[MetaChild('a') for i in range(n)])
        want = '<Meta object (id: %s) at ' % (x or '--')
        got = repr(o)
    else:
        o = MetaChild('a' + (x or ''), children=[MetaChild('a') for i in range(n)])
        want = '<MetaChild object (name: a%s) at ' % (x or '')
        got = repr(o)
    S.require(got[:len(want)] == want and got[-1] == '>', 'an object is shown with its kind, id and size')
    S.require(str(o) == got, 'str and repr')
    S.reach(kind)


HARNESSES = [('items', lambda t: [{}], ['value', 'none', 'broken']), ('circle', lambda t: [{}], ['circle']),
             ('others', lambda t: [{}], ['corpus', 'igt', 'tier', 'metadata', 'meta', 'metachild'])]
