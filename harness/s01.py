"""S01: xigt sort."""
from xigt import XigtCorpus, Igt, Tier, Item, Metadata, Meta
from xigt.codecs import xigtxml
from xigt.scripts import xigt_sort
from harness.corpora import describe, difference
from harness.scripts import ordered, outcome

PROPERTY = 'S01'
BOUNDS = ('three IGTs, tiers or items; one or two keys each (attributes that may be missing, texts, values) of up to 2 characters out '
          'of a digit range and letters; levels sorted together, in any order of the options; dependencies between up to 4 tiers under two reference attributes; '
          'printing and in place; IGTs that use the same ids for different things')
ASSUMES = ['keys select strings, as documented']


def key(S, name, hi):
    if S.flag(name + '?'):
        return S.str(name, 0, hi, S.params.get('alpha', '019ab-'))
    return None


def at(**kw):
    out = {}
    for k in ('k', 'l'):
        if kw.get(k) is not None:
            out[k] = kw[k]
    return out


def check(S, xc, want, args):
    path = S.put_file('in.xml', xigtxml.dumps(xc))
    before = S.get_file(path)
    place = S.params.get('place', 'print')
    if place == 'inplace':
        args = ['--in-place'] + args
    how = outcome(xigt_sort.main, args + [path])
    S.require(how == ('done', None), 'the command succeeds')
    if place == 'inplace':
        S.require(S.stdout() == '', 'nothing is printed')
        out = S.get_file(path)
    else:
        S.require(S.get_file(path) == before, 'the input stays')
        out = S.stdout()
    d = difference(describe(want), describe(xigtxml.loads(out)))
    S.require(d is None, 'the sorted corpus: %s' % d)
    S.reach(place)


def igts(S):
    p = S.params
    hi = p['hi']
    n = p['n']
    keys = [[key(S, 'k%d' % i, hi)] + ([key(S, 'l%d' % i, p['hi2'])] if p['two'] else []) for i in range(n)]

    def make(order):
        return XigtCorpus(id='c', metadata=[Metadata(metas=[Meta(text='m')])], igts=[
            Igt(id='i%d' % i, attributes=at(k=keys[i][0], l=keys[i][1] if p['two'] else None),
                tiers=[Tier(id='b', items=[Item(id='b2', text='t%d' % i), Item(id='b1')]), Tier(id='a', type='x')]) for i in order])
    args = ['--igt-key', '@k'] + (['--igt-key', '@l'] if p['two'] else [])
    check(S, make(range(n)), make(ordered(range(n), keys)), args)


def long(S):
    """numbers of any length are compared by value"""
    ks = [[S.params['pre'] + S.str('k%d' % i, 0, S.params.get('hi', 1), '019') if S.flag('k%d?' % i) else S.choice('o%d' % i, ['9' * 17, '10'])]
          for i in range(2)]

    def make(order):
        return XigtCorpus(igts=[Igt(id='i%d' % i, attributes=at(k=ks[i][0])) for i in order])
    check(S, make(range(2)), make(ordered(range(2), ks)), ['--igt-key', '@k'])


def tiers(S):
    """keys of several levels at once, for tiers and items of every igt"""
    ks = [[key(S, 'k%d' % i, 1)] for i in range(2)]
    ts = [[S.str('t%d' % i, 1, 1, '9a') if S.flag('t%d?' % i) else None] for i in range(S.params['n'])]

    def make(sort):
        out = []
        for g in ('g1', 'g2'):
            items = [Item(id='x%d' % i, text=t) for i, (t,) in enumerate(ts)]
            tt = [Tier(id='t%d' % i, attributes=at(k=k), items=[Item(id='y%d%d' % (i, j), text=x.text) for j, x in enumerate(items)])
                  for i, (k,) in enumerate(ks)]
            if sort:
                tt = ordered(tt, ks)
                tt = [Tier(id=t.id, attributes=dict(t.attributes),
                           items=[Item(id=x.id, text=x.text) for x in ordered(list(t), ts)]) for t in tt]
            out.append(Igt(id=g, tiers=tt))
        if sort:
            out = out[::-1]
        return XigtCorpus(igts=out)
    # (the igts are in the opposite order)
    a, b = make(False), make(True)
    for xc, v in ((a, '2'), (b, '1')):
        xc[0].attributes['k'] = v
        xc[1].attributes['k'] = '1' if v == '2' else '2'
    check(S, a, b, ['--item-key', S.params['itemkey'], '--tier-key', '@k', '--igt-key', '@k'])


def tierorder(S):
    """only the level that is named is sorted"""
    level = S.params['level']
    xc = XigtCorpus(igts=[Igt(id='i%s' % i, attributes={'k': i}, tiers=[
        Tier(id='t%s' % t, attributes={'k': t}, items=[Item(id='x%s%s' % (t, x), attributes={'k': x}) for x in '21']) for t in '21'])
        for i in '21'])
    levels = {'igt': ('1', '2'), 'tier': ('1', '2'), 'item': ('1', '2')}
    o = {k: ('12' if k == level else '21') for k in levels}
    want = XigtCorpus(igts=[Igt(id='i%s' % i, attributes={'k': i}, tiers=[
        Tier(id='t%s' % t, attributes={'k': t}, items=[Item(id='x%s%s' % (t, x), attributes={'k': x}) for x in o['item']])
        for t in o['tier']]) for i in o['igt']])
    k = S.str('sym', 0, 1, 'ab')
    for x in (xc, want):
        x.attributes['s'] = k
    check(S, xc, want, ['--%s-key' % level, '@k'] if level != 'none' else [])


def deps(S):
    """--tier-deps is Igt.sort_tiers with the reference attributes in the order given"""
    n = S.params['n']
    names = ['t%d' % i for i in range(n)]
    refs = []
    for i in range(n):
        r = {}
        for ra in ('alignment', 'segmentation'):
            v = S.choice('%s%d' % (ra, i), [None] + [x for x in names if x != 't%d' % i])
            if v is not None:
                r[ra] = v
        refs.append(r)

    def make():
        return XigtCorpus(igts=[Igt(id=g, tiers=[Tier(id=x, attributes=dict(r)) for x, r in zip(names, refs)]) for g in ('a', 'b')])
    want = make()
    order = S.choice('order', [['alignment', 'segmentation'], ['segmentation', 'alignment'], ['segmentation']])
    for igt in want:
        igt.sort_tiers(refattrs=order)
    check(S, make(), want, ['--tier-deps', S.choice('sep', [', ', ',']).join(order)])


def both(S):
    """tiers by their dependencies, items or igts by their keys"""
    r = S.choice('r', [None, 'a', 'c'])
    ks = [[key(S, 'k%d' % i, 1)] for i in range(2)]
    gs = [[S.choice('g%d' % i, [None, '1', '2'])] for i in range(2)] if S.params['igts'] else [[None], [None]]

    def make():
        igts = []
        for g, (gk,) in zip('xy', gs):
            items = [Item(id='i%d' % i, attributes=at(k=k)) for i, (k,) in enumerate(ks)]
            igts.append(Igt(id=g, attributes=at(k=gk), tiers=[Tier(id='b', attributes={} if r is None else {'segmentation': r}, items=items),
                                                               Tier(id='c'), Tier(id='a', items=[Item(id='j'), Item(id='i')])]))
        return igts
    args = []
    items, deps, igts = S.flag('items'), S.flag('deps'), S.params['igts']
    want = make()
    for igt in want:
        if items:
            args = ['--item-key', '@k']
            xs = ordered(list(igt['b']), ks)
            igt['b'].items = [Item(id=x.id, attributes=dict(x.attributes)) for x in xs]
    if deps:
        args = args + ['--tier-deps', 'segmentation']
        for igt in want:
            igt.sort_tiers(refattrs=['segmentation'])
    if igts:
        args = args + ['--igt-key', '@k']
        want = ordered(want, gs)
    if S.flag('turn'):
        args = [x for i in range(len(args) - 2, -1, -2) for x in args[i:i + 2]]
    check(S, XigtCorpus(igts=make()), XigtCorpus(igts=want), args)


def sameids(S):
    """objects of one id in several igts or tiers have keys of their own"""
    level, n = S.params['level'], 2
    ks = {g: [[S.choice(g + str(i), [None, '1', 'a', '2'] if g == 'y' or i else ['1', 'a'])] for i in range(n)] for g in 'xy'}
    path = S.params['path']

    def make(sort):
        igts = []
        for g in 'xy':
            out = []
            for i, (k,) in enumerate(ks[g]):
                if level == 'tier':
                    out.append(Tier(id='t%d' % i, attributes=at(k=k)))
                else:
                    out.append(Item(id='i%d' % i, attributes=at(k=k if path == '@k' else None), text=None if path == '@k' else k))
            if sort:
                out = ordered(out, ks[g])
            igts.append(Igt(id=g, tiers=out if level == 'tier' else [Tier(id='t', items=out)]))
        return XigtCorpus(igts=igts)
    check(S, make(False), make(True), ['--%s-key' % level, path])


def ishapes(t):
    out = [dict(n=3, hi=1, two=False), dict(n=2, hi=2, two=False, alpha='09a'), dict(n=2, hi=2, two=False, alpha='ABab'), dict(n=2, hi=1, hi2=1, two=True, alpha='1a'),
           dict(n=2, hi=1, hi2=1, two=True, alpha='1a', place='inplace'), dict(n=2, hi=2, hi2=1, two=True, alpha='1b')]
    out += [dict(n=2, hi=2, two=False, alpha='1\u0663\u0967a')]
    if t != 'quick':
        out += [dict(n=3, hi=2, two=False, alpha='09a'), dict(n=2, hi=3, two=False, alpha='019a'),
                dict(n=3, hi=1, hi2=1, two=True, alpha='1a', place='inplace')]
    return out


HARNESSES = [('igts', ishapes, ['print', 'inplace']),
             ('long', lambda t: [dict(pre='9007199254740993'), dict(pre='-1' + '0' * 29 + '1')], []),
             ('tiers', lambda t: [dict(itemkey='text()', n=3, alpha='1'), dict(itemkey='value()', place='inplace', n=2, alpha='1a')], []),
             ('tierorder', lambda t: [dict(level=x, place=p) for x, p in
                                      (('igt', 'print'), ('tier', 'inplace'), ('item', 'print'), ('none', 'print'))], []),
             ('both', lambda t: [dict(igts=False, alpha='1a'), dict(igts=True, place='inplace', alpha='1')], []),
             ('sameids', lambda t: [dict(level='tier', path='@k'), dict(level='item', path='@k'), dict(level='item', path='value()')], []),
             ('deps', lambda t: [dict(n=2), dict(n=2, place='inplace')] + ([] if t == 'quick' else [dict(n=3)]), [])]
