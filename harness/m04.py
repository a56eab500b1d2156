"""M04: equality is structural, symmetric, kind-aware; != is its negation."""
from xigt import XigtCorpus, Igt, Tier, Item, Metadata, Meta, MetaChild

PROPERTY = 'M04'
BOUNDS = ('pairs of objects of every kind whose fields (id, type, text, name, one attribute key and value, '
          'namespace, up to two members, metadata with one meta) vary independently over an absent value and '
          'arbitrary strings of length 0..1 over two letters, in both cases, and a blank, pairwise two fields at a time; all '
          'pairs of distinct kinds; members, metadata and nested elements in every order of up to three')
ASSUMES = ['declared namespace prefixes are not part of equality', 'text None differs from the empty text']

FIELDS = {
    'item': ['id', 'type', 'text', 'key', 'val', 'ns', 'alignment', 'content'],
    'tier': ['id', 'type', 'key', 'val', 'ns', 'segmentation', 'kid.id', 'kid.text', 'kid.n', 'md', 'md.type', 'md.text'],
    'igt': ['id', 'type', 'key', 'val', 'ns', 'kid.id', 'kid.type', 'kid.n', 'md', 'md.type', 'md.text'],
    'corpus': ['id', 'type', 'key', 'val', 'ns', 'kid.id', 'kid.type', 'kid.n', 'md', 'md.type', 'md.text'],
    'metadata': ['id', 'type', 'key', 'val', 'ns', 'kid.id', 'kid.type', 'kid.text', 'kid.n'],
    'meta': ['id', 'type', 'text', 'key', 'val', 'ns', 'kid.name', 'kid.text', 'kid.n'],
    'metachild': ['name', 'text', 'key', 'val', 'ns', 'kid.name', 'kid.text', 'kid.n'],
}
MODEL_ONLY = ('name', 'kid.name')


def field(S, name, f):
    if f in ('name', 'kid.name', 'key'):
        return S.str(name, 1, 1, 'aAb')
    if f == 'kid.n':
        return S.choice(name, [0, 1, 2])
    if f == 'md':
        return S.choice(name, [0, 1])
    if not S.flag(name + '.set'):
        return None
    if f in ('id', 'kid.id', 'alignment', 'content', 'segmentation'):
        return S.str(name, 1, 1, 'aA')
    return S.str(name, 0, 1, 'aA ')


DEFAULT = {'name': 'a', 'kid.name': 'a', 'key': 'a', 'kid.n': 1, 'md': 1, 'id': 'a',
           'type': 'a', 'text': 'a', 'val': 'a', 'ns': None, 'kid.id': 'a', 'kid.type': 'a',
           'kid.text': 'a', 'md.type': 'a', 'md.text': 'a', 'alignment': None,
           'content': None, 'segmentation': None}


def build(kind, f):
    attrs = {} if f['val'] is None else {f['key']: f['val']}
    kw = dict(attributes=attrs, namespace=f['ns'])
    n = f.get('kid.n', 0)
    # the last member carries the varied fields, so n=1 and n=2 both see them
    if kind == 'item':
        if f['alignment'] is not None:
            kw['alignment'] = f['alignment']
        if f['content'] is not None:
            kw['content'] = f['content']
        return Item(id=f['id'], type=f['type'], text=f['text'], **kw)
    md = []
    if f.get('md'):
        md = [Metadata(type=f['md.type'], metas=[Meta(text=f['md.text'])])]
    if kind == 'tier':
        kids = [Item(id='z', text='z')][:n - 1] if n else []
        kids += [Item(id=f['kid.id'], text=f['kid.text'])] if n else []
        if f['segmentation'] is not None:
            kw['segmentation'] = f['segmentation']
        return Tier(id=f['id'], type=f['type'], items=kids, metadata=md, **kw)
    if kind == 'igt':
        kids = [Tier(id='z')][:n - 1] if n else []
        kids += [Tier(id=f['kid.id'], type=f['kid.type'])] if n else []
        return Igt(id=f['id'], type=f['type'], tiers=kids, metadata=md, **kw)
    if kind == 'corpus':
        kids = [Igt(id='z')][:n - 1] if n else []
        kids += [Igt(id=f['kid.id'], type=f['kid.type'])] if n else []
        return XigtCorpus(id=f['id'], type=f['type'], igts=kids, metadata=md, **kw)
    if kind == 'metadata':
        kids = [Meta(id='z')][:n - 1] if n else []
        kids += [Meta(id=f['kid.id'], type=f['kid.type'], text=f['kid.text'])] if n else []
        return Metadata(id=f['id'], type=f['type'], metas=kids, **kw)
    kids = [MetaChild('z')][:n - 1] if n else []
    kids += [MetaChild(f['kid.name'], text=f['kid.text'])] if n else []
    if kind == 'meta':
        return Meta(id=f['id'], type=f['type'], text=f['text'], children=kids, **kw)
    return MetaChild(f['name'], text=f['text'], children=kids, **kw)


def relevant(kind, f):
    """the parts of the field assignment that the object keeps"""
    out = []
    for k in FIELDS[kind]:
        v = f[k]
        if k == 'key' and f['val'] is None:
            v = None
        if k.startswith('kid.') and k != 'kid.n' and not f['kid.n']:
            v = None
        if k.startswith('md.') and not f['md']:
            v = None
        out.append(v)
    return out


def fields_equal(a, b):
    for x, y in zip(a, b):
        if (x is None) != (y is None):
            return False
        if x is not None and not x == y:
            return False
    return True


def equality(S):
    kind = S.params['kind']
    vary = S.params['vary']
    fa, fb = dict(DEFAULT), dict(DEFAULT)
    for k in vary:
        fa[k] = field(S, 'a.' + k, k)
        fb[k] = field(S, 'b.' + k, k)
    a, b = build(kind, fa), build(kind, fb)
    want = fields_equal(relevant(kind, fa), relevant(kind, fb))
    S.require(bool(a == b) == want, 'equality differs from field-wise equality')
    S.require(bool(b == a) == want, 'equality is not symmetric')
    S.require(bool(a != b) == (not want), '!= is not the negation of ==')
    S.require(bool(a == a) and not bool(a != a), 'an object differs from itself')
    S.require(bool(a == build(kind, fa)), 'an identically built object differs')
    S.reach('equal' if want else 'different')


def kinds(S):
    ka, kb = S.params['a'], S.params['b']
    fa = dict(DEFAULT)
    for k in ('id', 'type', 'text', 'val'):
        fa[k] = field(S, k, k)
    fa['kid.n'] = S.choice('kids', [0, 1])
    fa['md'] = 0
    a, b = build(ka, fa), build(kb, fa)
    S.require(not bool(a == b), 'objects of different kinds compare equal')
    S.require(bool(a != b), 'objects of different kinds are not unequal')
    for other in (None, 1, 'a', []):
        S.require(not bool(a == other), 'equal to something that is not a Xigt object')
        S.require(bool(a != other), 'not unequal to something that is not a Xigt object')
    S.reach('kinds')


def order(S):
    """members are compared one by one, in order and with repetitions"""
    kind = S.params['kind']
    cls = {'tier': Item, 'igt': Tier, 'corpus': Igt, 'metadata': Meta, 'meta': MetaChild, 'metachild': MetaChild}[kind]

    def make(labels):
        if cls is MetaChild:
            kids = [MetaChild('n' if x is None else x) for x in labels]
        else:
            kids = [cls(type=x) for x in labels]
        if S.params['md']:
            kids = [Metadata(type=x) for x in labels]
            return {'tier': Tier, 'igt': Igt, 'corpus': XigtCorpus}[kind](metadata=kids)
        if kind == 'metachild':
            return MetaChild('m', children=kids)
        o = {'tier': Tier, 'igt': Igt, 'corpus': XigtCorpus, 'metadata': Metadata, 'meta': Meta}[kind]()
        o.extend(kids) if hasattr(o, 'extend') else None
        return o if len(o) == len(kids) else Meta(children=kids)
    la = [S.str('a%d' % i, 1, 1, 'xy') for i in range(S.choice('na', [1, 2, 3]))]
    lb = [S.str('b%d' % i, 1, 1, 'xy') for i in range(S.choice('nb', [2, 3]))]
    a, b = make(la), make(lb)
    want = la == lb
    S.require(bool(a == b) == want, 'members are compared in order')
    S.require(bool(a != b) == (not want), '!= of members')
    if not want and sorted(la) == sorted(lb):
        S.reach('reordered')
    elif want:
        S.reach('same members')


def eqshapes(t):
    out = []
    for kind, fs in FIELDS.items():
        for i in range(len(fs)):
            for j in range(i):
                out.append(dict(kind=kind, vary=[fs[j], fs[i]]))
        if t != 'quick':
            for i in range(len(fs)):
                for j in range(i):
                    for k in range(j):
                        out.append(dict(kind=kind, vary=[fs[k], fs[j], fs[i]]))
    return [o for o in out if not ({'alignment', 'segmentation'} <= set(o['vary'])
                                   or {'content', 'segmentation'} <= set(o['vary']))]


HARNESSES = [('equality', eqshapes, ['equal', 'different']),
             ('kinds', lambda t: [dict(a=a, b=b) for a in FIELDS for b in FIELDS if a != b], ['kinds']),
             ('order', lambda t: [dict(kind=k, md=False) for k in ('tier', 'igt', 'corpus', 'metadata', 'meta', 'metachild')]
              + [dict(kind=k, md=True) for k in ('tier', 'igt', 'corpus')], ['reordered', 'same members'])]
