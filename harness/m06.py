"""M06: prefix declarations are inherited; select filters members by their properties."""
from xigt import XigtCorpus, Igt, Tier, Item, Metadata, Meta, MetaChild
from harness.common import raises, same

PROPERTY = 'M06'
BOUNDS = ('chains corpus > igt > tier > item, and metadata > meta > child hung on a corpus or igt, each level '
          'declaring nothing, nothing explicitly ({}), or one or two prefixes that are arbitrary strings of one '
          'letter; select over containers of 2 or 3 members of each of the six member kinds '
          'whose id, type, namespace and text vary, by every subset of up to two (thorough: three) of those properties, the namespace being given '
          'as URI or prefix, and by the type together with a property that only some kinds have (two reference attributes, the name of a child, one that none has)')
ASSUMES = []


def decl(S, name):
    """(argument, mapping or None)"""
    k = S.choice(name, ['none', 'empty', 'one', 'two'])
    if k == 'none':
        return None
    if k == 'empty':
        return {}
    m = {S.str(name + '.p', 1, 1, 'pq'): 'u'}
    if k == 'two':
        m['r'] = 'v'
    return m


def chain(S):
    under = S.params['under']
    names = {'item': ['corpus', 'igt', 'tier', 'item'],
             'meta': ['corpus', 'igt', 'md', 'meta', 'child']}[under]
    decls = [decl(S, n) for n in names]
    classes = {'corpus': XigtCorpus, 'igt': Igt, 'tier': Tier, 'item': Item, 'md': Metadata,
               'meta': Meta}
    objs = []
    for n, d in zip(names, decls):
        o = MetaChild('c', nsmap=d) if n == 'child' else classes[n](nsmap=d)
        S.require(o.nsmap == ({} if d is None else d), 'own declarations')
        objs.append(o)
    # attach bottom up: earlier answers must not have been remembered
    i = len(objs) - 1
    while i > 0:
        (objs[i - 1].metadata if names[i] == 'md' else objs[i - 1]).append(objs[i])
        i -= 1
    want = {}
    for o, d, n in zip(objs, decls, names):
        if d is not None:
            want = d
        S.require(o.nsmap == want, 'inherited declarations of ' + n)
    if want:
        S.reach('declared')
    # each object has its own copy
    for o, d in zip(objs, decls):
        if d is not None:
            before = dict(d)
            o.nsmap['zz'] = 'zz'
            S.require(d == before, 'the caller\'s mapping was changed')
            o.nsmap = before
    last = objs[-1]
    last.nsmap = {'x': 'w'}
    S.require(last.nsmap == {'x': 'w'}, 'assigned declarations')
    last.nsmap = None
    up = {}
    for d in decls[:-1]:
        up = d if d is not None else up
    S.require(last.nsmap == up, 'declarations are inherited again')
    S.reach('chain')


PROPS = ['id', 'type', 'namespace', 'text']
# properties that some or all of the kinds do not have; a member without one has None
MORE = {'alignment': ('tier', 'item'), 'segmentation': ('tier', 'item'), 'name': ('child',), 'gloss': ()}


def member(S, kind, i):
    by = S.params['by']
    f = {}
    f['id'] = None if 'id' in by and not S.flag('m%d.id' % i) else 'm%d' % i
    f['type'] = S.choice('m%d.type' % i, [None, 'a', 'b']) if 'type' in by else 'a'
    f['namespace'] = S.choice('m%d.ns' % i, [None, 'u', 'p']) if 'namespace' in by else None
    f['text'] = S.choice('m%d.text' % i, [None, 'a']) if 'text' in by else None
    kw = dict(namespace=f['namespace'])
    for k in by:
        if k in MORE:
            f[k] = S.choice('m%d.%s' % (i, k), [None, 'a', 'b']) if kind in MORE[k] else None
    if kind in ('item', 'meta', 'child'):
        kw['text'] = f['text']
    if kind == 'child':
        f['id'], f['type'] = None, None
        f['name'] = f.get('name') or 'c'
        return f, MetaChild(f['name'], **kw)
    for k in MORE:
        if f.get(k) is not None:
            kw[k] = f[k]
    cls = {'igt': Igt, 'tier': Tier, 'item': Item, 'md': Metadata, 'meta': Meta}[kind]
    return f, cls(id=f['id'], type=f['type'], **kw)


def select(S):
    kind, n, by = S.params['kind'], S.params['n'], S.params['by']
    ms = [member(S, kind, i) for i in range(n)]
    declared = 'namespace' in by and S.flag('declared')
    nsmap = {'p': 'u'} if declared else None
    box = {'igt': XigtCorpus, 'tier': Igt, 'item': Tier, 'md': XigtCorpus, 'meta': Metadata, 'child': Meta}[kind](nsmap=nsmap)
    coll = box.metadata if kind == 'md' else box
    coll.extend([o for f, o in ms])
    query = {}
    for k in by:
        if k == 'id':
            query[k] = S.choice('q.id', [None, 'm0', 'm%d' % (n - 1)])
        elif k == 'namespace':
            query[k] = S.choice('q.ns', [None, 'u', 'p'])
        else:
            query[k] = S.str('q.' + k, 0, 1, 'ab') if S.flag('q.%s.set' % k) else None
    want = dict(query)
    if declared and want.get('namespace') == 'p':
        want['namespace'] = 'u'
    given = dict(query)
    got = list(coll.select(**query))
    exp = []
    for f, o in ms:
        ok = True
        for k, v in want.items():
            if not (f.get(k) == v):
                ok = False
        if ok:
            exp.append(o)
    S.require(same(got, exp), 'selected members')
    S.require(same(coll, [o for f, o in ms]), 'selection changed the container')
    S.require(query == given, 'selection changed its arguments')
    S.reach('some' if got else 'none')
    S.observe(len(got))


def selshapes(t):
    out = []
    for kind in ('igt', 'tier', 'item', 'md', 'meta', 'child'):
        ps = {'child': PROPS[2:], 'item': PROPS, 'meta': PROPS}.get(kind, PROPS[:3])
        subsets = [[]] + [[p] for p in ps] + [[p, q] for i, p in enumerate(ps) for q in ps[i + 1:]]
        subsets += [['type', k] for k in MORE]
        if t != 'quick':
            subsets.append(ps[:3])
            subsets += [['id', k] for k in MORE] + [['gloss', k] for k in MORE if k != 'gloss']
        for by in subsets:
            for n in ((2, 3) if t == 'quick' and len(by) < 2 else (2,) if t == 'quick' or len(by) > 2 else (3,)):
                out.append(dict(kind=kind, n=n, by=by))
    return out


HARNESSES = [('chain', lambda t: [dict(under='item'), dict(under='meta')], ['chain', 'declared']),
             ('select', selshapes, ['some', 'none'])]
