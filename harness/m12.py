"""M12: every way of building an object gives the same object."""
from xigt import XigtCorpus, Igt, Tier, Item, Metadata, Meta, MetaChild
from xigt.errors import XigtError
from harness.common import raises, same

PROPERTY = 'M12'
BOUNDS = ('every class; id, type, text, namespace absent or arbitrary strings of one character, up to two attributes and '
          'prefixes of one character, up to two members; built by the constructor, by assignments, or by appending, with the '
          'present or the deprecated names (text of a Metadata, add, add_list, get_content); later changes to the '
          'arguments; objects in containers that are empty or have no container themselves; all combinations of reference attributes, each absent, empty or arbitrary')
ASSUMES = ['lists given for members hold objects of the right kind']

CLASSES = {'corpus': (XigtCorpus, 'igts', Igt), 'igt': (Igt, 'tiers', Tier), 'tier': (Tier, 'items', Item),
           'metadata': (Metadata, 'metas', Meta), 'meta': (Meta, 'children', MetaChild), 'child': (MetaChild, 'children', MetaChild),
           'item': (Item, None, None)}


def maybe(S, name, lo=1):
    return S.str(name, lo, 1, 'ab') if S.flag(name + '?') else None


def state(o, members):
    return [getattr(o, 'name', None), o.id, o.type, o.namespace, getattr(o, 'text', None) if not isinstance(o, Metadata) else None,
            dict(o.attributes), dict(o.nsmap), members]


def build(S):
    kind = S.params['kind']
    cls, mname, mcls = CLASSES[kind]
    id = maybe(S, 'id') if kind != 'child' else None
    type = maybe(S, 'type', 0) if kind != 'child' else None
    ns = maybe(S, 'ns')
    text = maybe(S, 'text', 0) if kind in ('meta', 'child', 'item') else None
    attrs = {'k': S.str('v', 0, 1, 'ab')} if S.flag('attr') else {}
    nsmap = S.choice('nsmap', [None, {}, {'p': 'u'}])
    nm = S.choice('members', [0, 2]) if mname else 0
    ms = [MetaChild('m%d' % i) if mcls is MetaChild else mcls(id='m%d' % i) for i in range(nm)]
    mds = [Metadata(id='d')] if kind in ('corpus', 'igt', 'tier') and nm else []
    d0 = list(mds)
    how = S.choice('how', ['constructor', 'members', 'assign', 'append'])
    args = ['n'] if kind == 'child' else []
    a0, n0, l0 = dict(attrs), dict(nsmap) if nsmap is not None else None, list(ms)
    if how == 'constructor' or how == 'members':
        kw = dict(namespace=ns, nsmap=nsmap, attributes=list(attrs.items()) if S.flag('pairs') else attrs)
        if kind != 'child':
            kw.update(id=id, type=type)
        if kind in ('meta', 'child', 'item'):
            kw['text'] = text
        if mname and how == 'constructor':
            kw[mname] = ms
            if mds:
                kw['metadata'] = mds
        o = cls(*args, **kw)
        if mname and how == 'members':
            setattr(o, mname, ms)
            if mds:
                o.metadata = mds
    else:
        o = cls(*args)
        o.id, o.type, o.namespace, o.nsmap = id, type, ns, nsmap
        o.attributes.update(attrs)
        if kind in ('meta', 'child', 'item'):
            o.text = text
        if mname:
            if how == 'assign':
                setattr(o, mname, ms)
            else:
                for m in ms:
                    o.append(m)
        if mds and how == 'assign':
            o.metadata = mds
        elif mds:
            o.metadata.append(mds[0])
    want = ['n' if kind == 'child' else None, id, type, ns, text, a0, n0 or {}, l0]
    got = state(o, list(getattr(o, mname)) if mname else l0)
    S.require(got[:7] == want[:7], 'what was given is what is there')
    S.require(same(got[7], l0), 'the members are those given')
    for m in l0:
        S.require(m._parent is o, 'the members know the object')
    if kind in ('corpus', 'igt', 'tier'):
        S.require(same(o.metadata, d0) and (not d0 or o.metadata['d'] is d0[0] and d0[0]._parent is o), 'the metadata are those given')
    # it does not share the arguments
    attrs['x'] = 'late'
    if nsmap is not None:
        nsmap['x'] = 'late'
    del ms[:], mds[:]
    got = state(o, list(getattr(o, mname)) if mname else l0)
    S.require(kind not in ('corpus', 'igt', 'tier') or same(o.metadata, d0), 'later changes to the metadata given')
    S.require(got[:7] == want[:7] and same(got[7], l0), 'later changes to the arguments do not reach the object')
    other = cls(*args)
    S.require(other.attributes == {} and other.nsmap == {} and (not mname or len(other) == 0), 'objects share nothing')
    S.reach(how)


def refattrs(S):
    """reference attributes given as arguments, by attribute or later"""
    cls = S.choice('class', [Tier, Item])
    vals = {}
    for ra in ('alignment', 'content', 'segmentation'):
        vals[ra] = maybe(S, ra, 0)
    clash = bool(vals['segmentation']) and bool(vals['content'] or vals['alignment'])
    made = []
    ex = raises(lambda: made.append(cls(id='a', **vals)), XigtError)
    S.require((ex is not None) == clash, 'segmentation excludes the others')
    if clash:
        S.reach('clash')
        return
    given = {k: v for k, v in vals.items() if v is not None}
    x = made[0]
    y = cls(id='a', attributes=given)
    z = cls(id='a')
    for k, v in vals.items():
        setattr(z, k, v)
    for o in (x, y, z):
        S.require(o.attributes == given, 'the attributes are those given')
        S.require(o.alignment == vals['alignment'] and o.content == vals['content']
                  and o.segmentation == vals['segmentation'], 'the shortcuts give them')
    S.require(x == y and y == z and z == x, 'the objects are equal')
    S.reach('fine')


def parents(S):
    """the containing object given to the constructor is known, its members are unchanged"""
    kind = S.choice('kind', ['igt', 'tier', 'item', 'meta', 'child'])
    if kind == 'igt':
        p = XigtCorpus(nsmap={'p': 'u'})
        o = Igt(corpus=p)
        S.require(o.corpus is p, 'the corpus of the igt')
    elif kind == 'tier':
        p = Igt(nsmap={'p': 'u'})
        o = Tier(igt=p)
        S.require(o.igt is p, 'the igt of the tier')
    elif kind == 'item':
        p = Tier(nsmap={'p': 'u'})
        o = Item(tier=p)
        S.require(o.tier is p, 'the tier of the item')
    elif kind == 'meta':
        p = Metadata(nsmap={'p': 'u'})
        o = Meta(metadata=p)
    else:
        p = Meta(nsmap={'p': 'u'})
        o = MetaChild('x', parent=p)
    S.require(o.nsmap == {'p': 'u'}, 'namespaces are inherited')
    S.require(len(p) == 0, 'the container is not changed')
    S.reach(kind)


def chain(S):
    """the containing objects of each object, whether or not they have members or further containers"""
    made = []
    for n, cls in (('corpus', XigtCorpus), ('igt', Igt), ('tier', Tier)):
        made.append(cls(id=n) if S.flag(n) else None)
    xc, igt, tier = made
    item = Item(id='x', text='y')
    # linked as members, or only by the constructor
    member = [S.flag('member of ' + n) for n in ('corpus', 'igt', 'tier')]
    if tier is not None:
        if member[2]:
            tier.append(item)
        else:
            item = Item(id='x', tier=tier)
    if igt is not None and tier is not None:
        if member[1]:
            igt.append(tier)
        else:
            tier = Tier(id='tier', igt=igt)
            if member[2]:
                tier.append(item)
            else:
                item = Item(id='x', tier=tier)
    if xc is not None and igt is not None:
        if member[0]:
            xc.append(igt)
        else:
            other = Igt(id='igt', corpus=xc)
            if tier is not None and member[1]:
                other.append(tier)
            elif tier is not None:
                tier = Tier(id='tier', igt=other)
                if member[2]:
                    tier.append(item)
                else:
                    item = Item(id='x', tier=tier)
            igt = other
    S.require(item.tier is tier, 'the tier of an item')
    up = igt if tier is not None else None
    S.require(item.igt is up, 'the igt of an item')
    S.require(item.corpus is (xc if up is not None else None), 'the corpus of an item')
    if tier is not None:
        S.require(tier.igt is igt, 'the igt of a tier')
        S.require(tier.corpus is (xc if igt is not None else None), 'the corpus of a tier')
    if igt is not None:
        S.require(igt.corpus is xc, 'the corpus of an igt')
    S.reach('chain')


def deprecated(S):
    """deprecated names do what the present ones do, and warn"""
    what = S.choice('what', ['text str', 'text list', 'both', 'property', 'setter', 'add', 'add_list', 'content'])
    ms = [Meta(id='a'), Meta(id='b')]
    if what == 'text str':
        s = S.str('s', 0, 2, 'ab')
        md = Metadata(text=s)
        S.require(len(md) == 1 and md[0] == Meta(text=s) and md[0]._parent is md, 'a string becomes a meta')
    elif what == 'text list':
        md = Metadata(text=ms)
        S.require(same(md.metas, ms) and md == Metadata(metas=ms) and ms[0]._parent is not None, 'text are the metas')
    elif what == 'both':
        S.require(raises(lambda: Metadata(text=ms, metas=S.choice('metas', [[], [Meta()]])), XigtError) is not None,
                  'text and metas exclude each other')
    elif what == 'property':
        md = Metadata(metas=ms)
        S.require(same(md.text, ms), 'text are the metas')
    elif what == 'setter':
        md = Metadata(metas=[Meta(id='z')])
        md.text = ms
        S.require(same(md.metas, ms) and md.get('z') is None and md['a'] is ms[0], 'text replaces the metas')
    elif what in ('add', 'add_list'):
        kind = S.choice('kind', ['corpus', 'igt', 'tier', 'metadata', 'meta', 'child'])
        cls, mname, mcls = CLASSES[kind]
        o, p = [cls('n') if kind == 'child' else cls(id='o') for _ in range(2)]
        new = lambda: [MetaChild('m%d' % i) if mcls is MetaChild else mcls(id='m%d' % i) for i in range(2)]
        xs, ys = new(), new()
        if what == 'add':
            o.add(xs[0])
            o.add(xs[1])
        else:
            o.add_list(xs)
        p.extend(ys)
        S.require(same(list(o), xs) and o == p, 'added members are members')
        for x in xs:
            S.require(x._parent is o and (x.id is None or o.get(x.id) is x), 'added members are found and know the container')
    else:
        w = Item(id='w1', text=S.str('w', 0, 2, 'xyz'))
        i = Item(id='i1', text=maybe(S, 't', 0))
        if S.flag('refers'):
            i.segmentation = S.choice('ref', ['w1', 'w1[0:1]', 'w1[1:2]'])
        igt = Igt(tiers=[Tier(id='w', items=[w]), Tier(id='t', segmentation='w', items=[i])])
        v = i.value()
        S.require(i.get_content() == v and (v is not None or i.get_content() is None), 'content is the value')
    if what != 'both':
        S.require(any(issubclass(c, DeprecationWarning) for c, m in S.warned()), 'deprecated names warn')
    S.reach(what)


HARNESSES = [('build', lambda t: [dict(kind=k) for k in CLASSES], ['constructor', 'members', 'assign', 'append']),
             ('refattrs', lambda t: [{}], ['clash', 'fine']),
             ('parents', lambda t: [{}], ['igt', 'tier', 'item', 'meta', 'child']),
             ('chain', lambda t: [{}], ['chain']),
             ('deprecated', lambda t: [{}], ['text str', 'text list', 'both', 'property', 'setter', 'add', 'add_list', 'content'])]
