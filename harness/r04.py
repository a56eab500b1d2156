"""R04: referents and referrers are inverse, computed and indexed answers agree."""
from xigt import Igt, Tier, Item, ref
from xigt.errors import XigtError, XigtLookupError
from harness.common import raises

PROPERTY = 'R04'
BOUNDS = ('igts of two or three tiers with up to three items in all, some without id; each object carries, on up to two of the reference '
          'attributes (one of them unknown to the model), an expression of up to two selections (ranges included, repeated ids '
          'included) on arbitrary ids out of those present and one that is not; any set of reference attributes asked for; tiers and items whose kinds of references depend on their types, which change between two refreshes; references edited between two questions')
ASSUMES = ['tier references name tiers and item references name items', 'the indices were refreshed after the last change']
RAS = ['alignment', 'content', 'segmentation']


def reference(S, name, targets, rich):
    """(expression, ids in order)"""
    a = S.choice(name + '.a', targets)
    if not rich:
        return a, [a]
    form = S.choice(name + '.form', ['one', 'span', 'spans', 'two', 'mixed'])
    if form == 'one':
        return a, [a]
    if form == 'span':
        return a + '[0:1]', [a]
    if form == 'spans':
        return a + '[0:1]+' + a + '[2:3]', [a, a]
    b = S.choice(name + '.b', targets)
    if form == 'two':
        return a + S.choice(name + '.sep', [',', '+', ' ']) + b, [a, b]
    return a + '[0:1,2:3]+' + b, [a, b]


def build(S):
    p = S.params
    # (ids that occur in each other)
    tids = ['t', 't2', 'a-t'][:p['tiers']]
    iids = ['i1', 'i10', 'a.i1'][:p['items']]
    noid = S.choice('noid', [None] + iids) if p.get('noid') else None
    refs = {}
    tiers = []
    n = 0
    for t in tids:
        attrs = {}
        mine = {}
        if p.get('tierrefs') and S.flag(t + '.refers'):
            ra = S.choice(t + '.ra', p['ras'])
            e, xs = reference(S, t, tids + ['gone'], False)
            attrs[ra], mine[ra] = e, xs
        refs[t] = mine
        tiers.append(Tier(id=t, attributes=attrs))
    for k, i in enumerate(iids):
        attrs, mine = {}, {}
        for r, ra in enumerate(p['ras'][:2]):
            if (r == 0 or k != p.get('rich', -1)) and S.flag('%s.%s' % (i, ra)):
                e, xs = reference(S, i + ra, [x for x in iids if x != noid] + ['gone'], k == p.get('rich', -1))
                attrs[ra], mine[ra] = e, xs
        if i == noid:
            tiers[k % len(tiers)].append(Item(attributes=attrs))
        else:
            refs[i] = mine
            tiers[k % len(tiers)].append(Item(id=i, attributes=attrs))
    return Igt(tiers=tiers), tiers, refs, tids


def inverse(S):
    igt, tiers, refs, tids = build(S)
    asked = S.params['asked']
    ras = RAS if asked is None else asked
    order = [t for t in tids]
    for t in tiers:
        for i in list.__iter__(t):
            if i.id is not None:
                order.append(i.id)
    for x in order:
        want = {}
        for ra in ras:
            want[ra] = refs[x].get(ra, [])
        got = ref.referents(igt, x, refattrs=asked)
        S.require(got == want, 'referents')
        S.require(igt.referents(x, refattrs=asked) == want, 'referents of the igt')
        S.require(igt.get_any(x).referents(refattrs=asked) == want, 'referents of the object')
        back = {}
        for ra in ras:
            back[ra] = [y for y in order if x in refs[y].get(ra, [])]
        got = ref.referrers(igt, x, refattrs=asked)
        S.require(got == back, 'referrers')
        ind = igt.referrers(x, refattrs=asked)
        own = igt.get_any(x).referrers(refattrs=asked)
        for ra in ras:
            S.require(ind.get(ra, []) == back[ra], 'referrers of the igt')
            S.require(own.get(ra, []) == back[ra], 'referrers of the object')
        for k in ind:
            S.require(k in ras, 'a reference attribute not asked for')
        if any(back[ra] for ra in ras):
            S.reach('referred')
        S.observe(got)
    S.require(raises(lambda: ref.referents(igt, 'gone', refattrs=asked), XigtLookupError) is not None, 'referents of an unknown id')
    S.require(raises(lambda: ref.referrers(igt, 'gone', refattrs=asked), XigtLookupError) is not None, 'referrers of an unknown id')
    S.reach('done')


def loose(S):
    """objects without igt or id cannot be asked"""
    kind = S.choice('kind', ['tier', 'item', 'orphan'])
    hasid = S.flag('hasid')
    inside = S.flag('inside')
    i = 'x' if hasid else None
    if kind == 'tier':
        o = Tier(id=i)
        box = Igt(tiers=[o]) if inside else None
    else:
        o = Item(id=i)
        t = Tier(items=[o]) if kind == 'item' else None
        box = Igt(tiers=[t]) if inside and t is not None else None
    ok = box is not None and hasid
    asked = S.choice('asked', [None, ['alignment']])
    S.require((raises(lambda: o.referents(asked), XigtError) is None) == ok, 'referents of a loose object')
    S.require((raises(lambda: o.referrers(asked), XigtError) is None) == ok, 'referrers of a loose object')
    S.reach('loose')


class XTier(Tier):
    _allowed_refattrs = {None: ('alignment', 'content', 'segmentation'), 'y': ('dep', 'alignment')}


class XItem(Item):
    _allowed_refattrs = {None: {None: ('alignment', 'content', 'segmentation'), 'z': ('head',)}, 'y': {None: ('dep',), 'z': ('head', 'dep')}}


def refreshed(S):
    """objects whose reference attributes depend on their types, before and after a change"""
    t, i, j = XTier(id='t'), XItem(id='i'), XItem(id='j')
    s = XTier(id='s', items=[i, j])
    igt = Igt(tiers=[t, s])

    def change(k, attrs=True):
        s.type = S.choice(k + 's.type', [None, 'y'])
        i.type = S.choice(k + 'i.type', [None, 'z'])
        for o, tgt in ((s, 't'), (i, 'j')):
            for ra in ('dep', 'alignment', 'head')[:2 + S.params['heads']]:
                if not attrs or S.flag(k + o.id + ra):
                    o.attributes[ra] = tgt
                else:
                    o.attributes.pop(ra, None)

    def check(when):
        for x in ('t', 's', 'i', 'j'):
            S.require(igt.referents(x) == ref.referents(igt, x), 'referents in the index ' + when)
            want = {ra: v for ra, v in ref.referrers(igt, x).items() if v}
            got = {ra: v for ra, v in igt.referrers(x).items() if v}
            S.require(got == want, 'referrers in the index ' + when)
    if S.params['first']:
        change('a', False)
        igt.refresh_indices()
        check('at first')
    change('b')
    igt.refresh_indices()
    check('after a change')
    S.reach('refreshed')


def edited(S):
    """an index that is refreshed knows no former references"""
    igt = Igt(tiers=[Tier(id='t', items=[Item(id='i'), Item(id='j', alignment='i')]), Tier(id='s', alignment='t', items=[Item(id='k', alignment='i j')])])
    if S.flag('asked'):
        for x in 'tsijk':
            igt.referents(x)
            igt.referrers(x)
            igt[1].referrers(['alignment'])['alignment'].append('no')
    op = S.choice('op', ['remove tier', 'remove item', 'drop', 'redirect', 'rename', 'clear'])
    if op == 'remove tier':
        igt.remove(igt[S.choice('tier', ['t', 's'])])
    elif op == 'remove item':
        igt[0].remove(igt[0][S.choice('item', ['i', 'j'])])
    elif op == 'drop':
        S.choice('of', [igt[1], igt[0][1], igt[1][0]]).alignment = None
    elif op == 'redirect':
        igt[1][0].alignment = S.choice('to', ['i', 'j', 'k', 'gone', ''])
    elif op == 'rename':
        igt[1][0].id = S.str('id', 1, 1, 'km')
    else:
        igt.clear()
    igt.refresh_indices()
    objs = {x.id: x for t in list.__iter__(igt) for x in [t] + list(list.__iter__(t))}
    for x in ['t', 's', 'i', 'j', 'k', 'm', 'gone']:
        hits = [o for k, o in objs.items() if k == x]
        want = [] if not hits or hits[0].alignment is None else hits[0].alignment.split()
        S.require(igt.referents(x).get('alignment', []) == want, 'referents after ' + op)
        back = [o.id for o in objs.values() if o.alignment is not None and x in o.alignment.split()]
        S.require(sorted(igt.referrers(x).get('alignment', [])) == sorted(back), 'referrers after ' + op)
        if hits:
            S.require(hits[0].referents(['alignment']) == {'alignment': want}, 'referents of an object after ' + op)
            S.require(sorted(hits[0].referrers(['alignment'])['alignment']) == sorted(back), 'referrers of an object after ' + op)
    S.reach('edited')


def shapes(t):
    asks = [None, ['alignment'], ['segmentation', 'alignment'], ['other', 'alignment'], []]
    out = []
    for a in asks:
        out.append(dict(tiers=2, items=2, ras=['alignment', 'other'], rich=1, asked=a))
        out.append(dict(tiers=2, items=1, ras=['segmentation', 'alignment'], asked=a, tierrefs=True))
    out.append(dict(tiers=3, items=0, ras=['segmentation', 'alignment', 'content'], asked=None, tierrefs=True))
    out.append(dict(tiers=2, items=2, ras=['segmentation'], rich=0, asked=None, noid=True))
    out.append(dict(tiers=2, items=3, ras=['alignment'], asked=None))
    if t != 'quick':
        for a in asks[:3]:
            out.append(dict(tiers=2, items=3, ras=['alignment'], rich=1, noid=True, asked=a))
            out.append(dict(tiers=3, items=1, ras=['segmentation', 'alignment', 'content'], asked=a, rich=0, tierrefs=True))
            out.append(dict(tiers=2, items=2, ras=['alignment', 'segmentation'], rich=0, asked=a, tierrefs=True))
    return out


HARNESSES = [('inverse', shapes, ['referred', 'done']), ('loose', lambda t: [{}], ['loose']),
             ('refreshed', lambda t: [dict(heads=0, first=True)] + ([] if t == 'quick' else [dict(heads=1, first=True)]),
              ['refreshed']), ('edited', lambda t: [{}], ['edited'])]
