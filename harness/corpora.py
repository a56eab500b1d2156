"""A corpus with every kind of object, some of whose fields vary (X01..X05, S03)."""
from xigt import XigtCorpus, Igt, Tier, Item, Metadata, Meta, MetaChild

NSU, NSV = 'http://u/', 'v'
KNOWN = ['{http://www.w3.org/XML/1998/namespace}lang', '{http://purl.org/dc/elements/1.1/}title']
# object: fields that can vary
OBJECTS = {
    'corpus': ['id', 'type', 'val', 'key', 'nsattr', 'nsmap'],
    'cmd': ['id', 'type', 'val', 'key', 'n'],
    'igt': ['id', 'type', 'val', 'key', 'nsattr', 'nsmap', 'n'],
    'imd': ['id', 'type', 'val', 'n'],
    'tier': ['id', 'type', 'val', 'segmentation', 'alignment', 'content', 'nsattr', 'n'],
    'item': ['id', 'type', 'val', 'key', 'text', 'segmentation', 'alignment', 'content', 'nsattr', 'nsmap', 'n', 'known'],
    'meta': ['id', 'type', 'val', 'key', 'text', 'nsattr', 'n'],
    'child': ['name', 'val', 'key', 'text', 'ns', 'nsattr', 'nsmap', 'n', 'idattr', 'typeattr', 'known'],
    'grandchild': ['name', 'val', 'text', 'ns', 'n'],
}
ALPHA = 'aZ<>&"\' ]\n\t\xe9\u4e2d\U0001f600'
DEFAULT = dict(id='a', type='t', val='v', key='k', nsattr=None, nsmap=None, n=1, text='x',
               segmentation=None, alignment=None, content=None, name='c', ns=None, idattr=None, typeattr=None, known=None)


def fill(S, vary, textmin=1, alpha=ALPHA, n=1, names='abci'):
    """the field assignment: {(object, field): value}"""
    f = {}
    for o in OBJECTS:
        for k in OBJECTS[o]:
            name = o + '.' + k
            if name not in vary:
                f[name] = DEFAULT[k]
                if o in ('child', 'grandchild') and k == 'n':
                    f[name] = 1
            elif k == 'id':
                f[name] = S.str(name, 1, 1, 'ab') + S.str(name + '+', 0, 1, 'b0-_.\xe9') if S.flag(name + '?') else None
            elif k == 'known':
                f[name] = S.choice(name, [None, KNOWN[0], KNOWN[1]])
            elif k == 'n':
                f[name] = S.choice(name, [0, 2])
            elif k == 'nsmap':
                maps = [None, {'p': NSV}, {'p': NSV, 'q': NSU}, {'': NSV, 'p': NSU}, {'': NSU}]
                f[name] = S.choice(name, maps if len(vary) > 2 else maps[:4] if o == 'child' else maps[:3])
            elif k == 'ns':
                f[name] = S.choice(name, [None, NSU, NSV])
            elif k == 'key':
                f[name] = S.str(name, 1, 2, 'kt-')
                S.assume(f[name][0] != '-')
            elif k == 'name':
                f[name] = S.choice(name, ['c', 'igt', 'meta', 'metadata', 'tier', 'item', 'xigt-corpus', 'n\xe9.-_1'])
            elif k in ('text', 'val', 'nsattr', 'idattr', 'typeattr', 'type', 'segmentation', 'alignment', 'content'):
                lo = textmin if k == 'text' else 0
                f[name] = S.str(name, lo, n if n > lo else lo, alpha) if S.flag(name + '?') else None
    return f


def clean(S, f):
    """white-space-only texts of metas and their children are not data"""
    for o in ('meta', 'child', 'grandchild'):
        t = f[o + '.text']
        if t is not None:
            S.assume(len(t.strip()) > 0)


LOCAL = {'corpus': 'id', 'igt': 'type', 'tier': 'alignment', 'item': 'id', 'meta': 'type', 'child': 'id'}


def attrs(f, o, ns):
    """attributes of an object; ns: prefixes declared there {prefix: uri}"""
    a = {}
    if f.get(o + '.idattr') is not None:
        a['id'] = f[o + '.idattr']
    if f.get(o + '.typeattr') is not None:
        a['type'] = f[o + '.typeattr']
    if f[o + '.val'] is not None:
        a[f.get(o + '.key', 'k')] = f[o + '.val']
    if f.get(o + '.known') is not None:
        a[f[o + '.known']] = 'eng'
    if f.get(o + '.nsattr') is not None:
        a['{%s}%s' % (NSU, LOCAL.get(o, 'k'))] = f[o + '.nsattr']
    return a


def has_prefix(nsmap):
    return any(p != '' and u == NSU for p, u in nsmap.items())


def usable(S, f):
    """every namespace used is declared where it is used"""
    c = {'p': NSU}
    if f['corpus.nsmap'] is not None:
        c = f['corpus.nsmap']
    i = f['igt.nsmap'] if f['igt.nsmap'] is not None else c
    scopes = {'corpus': c, 'igt': i, 'tier': i, 'item': f['item.nsmap'] if f['item.nsmap'] is not None else i,
              'meta': i, 'child': f['child.nsmap'] if f['child.nsmap'] is not None else i}
    scopes['grandchild'] = scopes['child']
    for o in scopes:
        if f.get(o + '.nsattr') is not None:
            S.assume(has_prefix(scopes[o]))  # the default namespace is not for attributes
        if f.get(o + '.ns') is not None:
            S.assume(f[o + '.ns'] in scopes[o].values())
    return c


def children(f):
    kids = []
    for j in range(f['child.n']):
        grand = [MetaChild(f['grandchild.name'], attributes=attrs(f, 'grandchild', None), text=f['grandchild.text'],
                           namespace=f['grandchild.ns']) for k in range(f['grandchild.n'])]
        kids.append(MetaChild(f['child.name'], attributes=attrs(f, 'child', None), text=f['child.text'],
                              children=grand, namespace=f['child.ns'], nsmap=f['child.nsmap']))
    return kids


def metadata(f, o, full):
    mds = []
    for j in range(f[o + '.n']):
        metas = []
        if full:
            for k in range(f['meta.n']):
                metas.append(Meta(id=None if f['meta.id'] is None else f['meta.id'] + 'm%d' % k, type=f['meta.type'],
                                  attributes=attrs(f, 'meta', None), text=f['meta.text'], children=children(f)))
        else:
            metas.append(Meta(type='plain', text='y'))
        kw = {} if o == 'imd' else {'attributes': attrs(f, o, None)}
        if o == 'imd' and f['imd.val'] is not None:
            kw = {'attributes': {'k': f['imd.val']}}
        mds.append(Metadata(id=None if f[o + '.id'] is None else f[o + '.id'] + 'd%d' % j, type=f[o + '.type'],
                            metas=metas, **kw))
    return mds


def refs(f, o):
    kw = {}
    for ra in ('segmentation', 'alignment', 'content'):
        v = f[o + '.' + ra]
        if v is not None:
            kw[ra] = v
    return kw


def build(f, nsmap, where='igt', mode_igts=None):
    """where: the level whose metadata holds the varied metas"""
    def many(i, j):
        return None if i is None else i + '%d' % j
    igts = []
    for a in range(f['igt.n']):
        tiers = []
        for b in range(f['tier.n']):
            items = []
            for c in range(f['item.n']):
                at = attrs(f, 'item', None)
                at.update(refs(f, 'item'))
                items.append(Item(id=many(f['item.id'], c), type=f['item.type'], text=f['item.text'],
                                  attributes=at, nsmap=f['item.nsmap']))
            at = attrs(f, 'tier', None)
            at.update(refs(f, 'tier'))
            tiers.append(Tier(id=None if f['tier.id'] is None else 't' + many(f['tier.id'], b), type=f['tier.type'],
                              attributes=at, items=items,
                              metadata=metadata(f, 'imd', True) if where == 'tier' else []))
        igts.append(Igt(id=many(f['igt.id'], a), type=f['igt.type'], attributes=attrs(f, 'igt', None),
                        metadata=metadata(f, 'imd', where == 'igt'), tiers=tiers, nsmap=f['igt.nsmap']))
    return XigtCorpus(id=f['corpus.id'], type=f['corpus.type'], attributes=attrs(f, 'corpus', None),
                      metadata=metadata(f, 'cmd', where == 'corpus'), igts=igts, nsmap=nsmap)


CHAINS = [('corpus', 'igt', 'tier'), ('igt', 'tier', 'item'), ('corpus', 'cmd', 'cmeta'), ('corpus', 'igt', 'imd'), ('igt', 'imd', 'imeta'),
          ('igt', 'tier', 'tmd'), ('tier', 'tmd', 'tmeta'), ('imd', 'imeta', 'child'), ('imeta', 'child', 'grandchild'),
          ('tmeta', 'child', 'grandchild'), ('corpus', 'child', 'grandchild')]

MAPS = [None, {'p': NSU}, {'p': NSV}, {'': NSU, 'q': NSV}, {}, {'p': NSU, 'q': NSV}, {'': NSV}]


def scoped(S, chain, maps):
    """a corpus where the objects of a chain declare namespaces, and all objects use those declared for them"""
    decl = {o: S.choice(o + '.nsmap', maps) for o in chain}

    def make(cls, o, scope, sub=None, **kw):
        own = decl.get(o)
        scope = scope if own is None else own
        at = {'{%s}k' % u: o for p, u in sorted(scope.items()) if p != ''}
        args = ['c'] if cls is MetaChild else []
        x = cls(*args, attributes=at, nsmap=own, **kw)
        return x, scope

    def kids(o, scope, nxt):
        out = []
        for u in [None] + sorted(set(scope.values()) if decl.get(o) is None else set(decl[o].values())):
            x, s = make(MetaChild, o, scope, namespace=u)
            if nxt:
                for y in kids(nxt, s, None):
                    x.append(y)
            out.append(x)
        return out

    def meta(o, m, scope):
        md, s = make(Metadata, o, scope)
        x, s = make(Meta, m, s)
        for k in kids('child', s, 'grandchild'):
            x.append(k)
        md.append(x)
        return md
    xc, c = make(XigtCorpus, 'corpus', {})
    igt, i = make(Igt, 'igt', c)
    tier, t = make(Tier, 'tier', i)
    item, _ = make(Item, 'item', t)
    tier.append(item)
    tier.metadata.append(meta('tmd', 'tmeta', t))
    igt.append(tier)
    igt.metadata.append(meta('imd', 'imeta', i))
    xc.append(igt)
    xc.metadata.append(meta('cmd', 'cmeta', c))
    # what follows is outside of these
    for o, scope in ((tier, t), (igt, i), (xc, c)):
        cls, o2 = {'Tier': (Item, 'item2'), 'Igt': (Tier, 'tier2'), 'XigtCorpus': (Igt, 'igt2')}[o.__class__.__name__]
        o.append(make(cls, o2, scope)[0])
    return xc


def describe(o):
    """an object as nested lists of its data, without using its == """
    base = [o.__class__.__name__, o.id, o.type, o.namespace,
            [[k, v] for k, v in o.attributes.items()]]
    if isinstance(o, MetaChild):
        base.append(o.name)
    if isinstance(o, (Item, Meta, MetaChild)):
        base.append(o.text)
    if isinstance(o, (XigtCorpus, Igt, Tier)):
        base.append([describe(m) for m in o.metadata])
    if not isinstance(o, Item):
        base.append([describe(m) for m in o])
    return base


def same(a, b):
    if isinstance(a, list) or isinstance(b, list):
        if not (isinstance(a, list) and isinstance(b, list)) or len(a) != len(b):
            return False
        for x, y in zip(a, b):
            if not same(x, y):
                return False
        return True
    if a is None or b is None:
        return a is b
    return a == b


def difference(a, b, path=''):
    """where two descriptions differ (attribute order ignored), or None"""
    names = ['class', 'id', 'type', 'namespace', 'attributes']
    for i in (0, 1, 2, 3):
        if (a[i] is None) != (b[i] is None) or (a[i] is not None and not a[i] == b[i]):
            return path + a[0] + ' ' + names[i]
    if len(a[4]) != len(b[4]):
        return path + a[0] + ' attributes'
    for k, v in a[4]:
        for k2, v2 in b[4]:
            if k == k2:
                if not v == v2:
                    return path + a[0] + ' attribute value'
                break
        else:
            return path + a[0] + ' attribute names'
    if len(a) != len(b):
        return path + a[0] + ' shape'
    for x, y in zip(a[5:], b[5:]):
        if isinstance(x, list):
            if len(x) != len(y):
                return path + a[0] + ' number of members'
            for m, n in zip(x, y):
                d = difference(m, n, path + a[0] + '/')
                if d is not None:
                    return d
        elif (x is None) != (y is None) or (x is not None and not x == y):
            return path + a[0] + ' name or text'
    return None


def unprefixed(a, b):
    """whether some prefix declared for an object of a means something else for that of b"""
    for p, u in a.nsmap.items():
        if p != '' and b.nsmap.get(p) != u:
            return True
    pairs = []
    if isinstance(a, (XigtCorpus, Igt, Tier)):
        pairs += list(zip(a.metadata, b.metadata))
    if not isinstance(a, Item):
        pairs += list(zip(a, b))
    return any([unprefixed(x, y) for x, y in pairs])


def inherits(xc, twin):
    """whether objects inherit namespaces the way those of the twin, which was just built, do"""
    xc.nsmap = {'zz': 'http://zz/'}
    twin.nsmap = {'zz': 'http://zz/'}
    return nsmaps(xc) == nsmaps(twin)


def nsmaps(o):
    out = [o.nsmap]
    if isinstance(o, (XigtCorpus, Igt, Tier)):
        out += [nsmaps(m) for m in o.metadata]
    if not isinstance(o, Item):
        out += [nsmaps(m) for m in o]
    return out
