"""M05: attribute lookup with namespaces and inheritance."""
from xigt import XigtCorpus, Igt, Tier, Item, Metadata, Meta

PROPERTY = 'M05'
BOUNDS = ('lookup from an item, tier, igt and corpus nested four deep, and from a meta in metadata on a '
          'tier-less igt; each level has any subset of three attributes (plain, in namespace p:u - which looks like a prefixed name -, in namespace v) '
          'and either no prefix declarations or its own declarations of p/q as p:u or v; key given plain, '
          'qualified, prefixed, or plain with a prefix or URI as namespace argument; inherit on/off; empty values at any level; local names with colons, empty namespace arguments')
ASSUMES = ['an undeclared prefix in the key is outside']
KEYS = ['k', '{p:u}k', '{v}k']
NSMAPS = [None, {'p': 'p:u'}, {'p': 'v', 'q': 'p:u'}]


def level(S, name, full):
    attrs = {}
    for k in (KEYS if full else KEYS[:2]):
        if S.flag(name + '.has.' + k):
            attrs[k] = name + ':' + k
    ns = S.choice(name + '.ns', NSMAPS)
    return attrs, ns


def nsmap_from(levels, i):
    while i >= 0:
        if levels[i][1] is not None:
            return levels[i][1]
        i -= 1
    return {}


def lookup(S):
    depth = S.params['depth']
    names = ['corpus', 'igt', 'tier', 'item'][:depth]
    levels = []
    for n in names:
        # only the first, second-last and last levels vary in full
        levels.append(level(S, n, n == names[-1]))
    objs = [XigtCorpus(attributes=levels[0][0], nsmap=levels[0][1])]
    for n, cls, (a, m) in zip(names[1:], [Igt, Tier, Item], levels[1:]):
        o = cls(attributes=a, nsmap=m)
        objs[-1].append(o)
        objs.append(o)
    o = objs[-1]
    form = S.choice('form', ['plain', 'qualified', 'prefixed', 'nsprefix', 'nsuri'])
    nsmap = nsmap_from(levels, depth - 1)
    kw = {}
    if form == 'plain':
        key, q = 'k', 'k'
    elif form == 'qualified':
        key = q = '{p:u}k'
    elif form == 'nsuri':
        u = S.choice('uri', ['p:u', 'v'])
        key, q = 'k', '{%s}k' % u
        kw = {'namespace': u}
    else:
        p = S.choice('pre', ['p', 'q'])
        S.assume(p in nsmap)
        q = '{%s}k' % nsmap[p]
        if form == 'prefixed':
            key = p + ':k'
        else:
            key, kw = 'k', {'namespace': p}
    inherit = S.flag('inherit')
    if depth == 3 or S.flag('given'):
        kw['default'] = 'dflt'
    want = kw.get('default')
    i = depth - 1
    while i >= 0:
        if q in levels[i][0]:
            want = levels[i][0][q]
            break
        if not inherit:
            break
        i -= 1
    got = o.get_attribute(key, inherit=inherit, **kw)
    S.require(got == want, 'attribute lookup (%s)' % form)
    S.reach(form)
    S.reach('found' if want is not None and want != 'dflt' else 'missing')
    S.observe(got)
    for x, (a, m) in zip(objs, levels):
        S.require(x.attributes == a, 'lookup changed the attributes')


def nearest(S):
    """the value of the nearest level that has the attribute, whatever the value"""
    values = [S.choice('v%d' % i, [None, '', '0', 'x']) for i in range(4)]
    objs = []
    for cls, v in zip([XigtCorpus, Igt, Tier, Item], values):
        o = cls(attributes={} if v is None else {'k': v})
        if objs:
            objs[-1].append(o)
        objs.append(o)
    n = S.choice('level', [0, 1, 2, 3])
    want = 'd'
    for v in values[:n + 1]:
        if v is not None:
            want = v
    S.require(objs[n].get_attribute('k', 'd', inherit=True) == want, 'the nearest value')
    own = values[n] if values[n] is not None else 'd'
    S.require(objs[n].get_attribute('k', 'd') == own, 'the own value')
    S.reach('empty' if want == '' else 'nearest')


def odd(S):
    """local names with colons, and namespaces that say nothing"""
    local = S.choice('local', ['a:b', 'b', ':b', 'a:', 'p:b'])
    has = {k: S.flag('has.' + k) for k in (local, '{u}' + local, '{u}b')}
    o = Item(attributes={k: 'v' + k for k in has if has[k]}, nsmap=S.choice('nsmap', [{'p': 'u'}, {'p': 'u', 'p:a': 'w'}]))
    owner = Tier(attributes={'{u}' + local: 'inherited'}, items=[o]) if S.flag('owner') else None
    form = S.choice('form', ['prefixed', 'qualified', 'namespace'])
    if form == 'prefixed':
        got = o.get_attribute('p:' + local, 'd', inherit=True)
    elif form == 'qualified':
        got = o.get_attribute('{u}' + local, 'd', inherit=True)
    else:
        S.assume(':' not in local)
        got = o.get_attribute(local, 'd', namespace=S.choice('ns', ['p', 'u']), inherit=True)
    want = 'v{u}' + local if has['{u}' + local] else 'inherited' if owner is not None else 'd'
    S.require(got == want, 'the first colon ends the prefix')
    S.reach(form)
    if S.flag('empty') and ':' not in local:
        got = o.get_attribute(local, 'd', namespace=S.choice('none', ['', None]))
        S.require(got == ('v' + local if has[local] else 'd'), 'an empty namespace is no namespace')
        S.reach('empty ns')


HARNESSES = [('lookup', lambda t: [dict(depth=d) for d in ((1, 2, 3) if t == 'quick' else (1, 2, 3, 4))],
              ['plain', 'qualified', 'prefixed', 'nsprefix', 'nsuri', 'found', 'missing']),
             ('nearest', lambda t: [{}], ['empty', 'nearest']),
             ('odd', lambda t: [{}], ['prefixed', 'qualified', 'namespace', 'empty ns'])]
