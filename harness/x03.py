"""X03: writing a corpus as JSON and reading it back gives an equal corpus."""
from xigt import XigtCorpus, Igt, Tier, Item, Metadata, Meta, MetaChild
from xigt.codecs import xigtjson
from xigt.errors import XigtError
from harness.common import raises
from harness.corpora import (fill, usable, build, describe, difference, nsmaps, inherits, OBJECTS, NSU, NSV, CHAINS, MAPS, scoped)

PROPERTY = 'X03'
BOUNDS = ('the corpora of X01 with two fields at a time varying over absent, empty and arbitrary strings of up to 1 (thorough 2) '
          'characters with JSON-special, control, white-space and non-ASCII ones; declared and undeclared namespaces; chains of three levels that declare namespaces anew, hide or lack them; pairs of objects next to each other or not, each of which declares namespaces that the others use undeclared; '
          'dumps/loads, dump/load through a file object and a path; the three loading modes; two documents one after the other')
ASSUMES = ['the JSON text layer itself (module json) is modelled as structure-preserving; each path is replayed through the real one',
           'attribute values are strings, attribute names contain no colon outside the {uri} form']
A = 'a"\\\'/<{:\n\r\t\x00\x1f\u2028\u4e2d\U0001f600 '


def kept(S, a, b):
    """prefixes that were usable still are"""
    for pre, uri in a[0].items():
        S.require(b[0].get(pre) == uri, 'a declared prefix is lost')
    for x, y in zip(a[1:], b[1:]):
        kept(S, x, y)


def roundtrip(S):
    p = S.params
    f = fill(S, p['vary'], textmin=0, alpha=A, n=p.get('n', 1))
    if p.get('declared', True):
        nsmap = usable(S, f)
    else:
        nsmap = None
    xc = build(f, nsmap, where=p['where'])
    before, maps = describe(xc), nsmaps(xc)
    how = p['how']
    if how == 'string':
        text = xigtjson.dumps(xc) if p.get('indent', 2) == 2 else xigtjson.dumps(xc, indent=p['indent'])
        back = xigtjson.loads(text)
    elif how == 'file':
        out = S.stringio()
        xigtjson.dump(out, xc)
        out.seek(0)
        back = xigtjson.load(out)
    else:
        path = S.mkpath('out.json')
        xigtjson.dump(path, xc)
        back = xigtjson.load(path, mode=p.get('mode', 'full'))
        n = len(back.igts)
        S.require(n == len(xc), 'number of igts')
    S.require(difference(before, describe(xc)) is None and nsmaps(xc) == maps, 'writing changed the corpus')
    d = difference(before, describe(back))
    S.require(d is None, 'round trip changed: %s' % d)
    S.require(back == xc, 'the corpora are not equal')
    kept(S, maps, nsmaps(back))
    S.require(xigtjson.encode(back) == xigtjson.encode(xc), 'the encoding changes after reading and writing')
    S.require(inherits(xc, build(f, nsmap, where=p['where'])), 'writing changed where namespaces are inherited from')
    S.reach('roundtrip')


def scopes(S):
    """namespaces declared anew, hidden, or not declared further down"""
    xc = scoped(S, S.params['chain'], MAPS[:S.params['maps']])
    before, maps = describe(xc), nsmaps(xc)
    back = xigtjson.loads(xigtjson.dumps(xc))
    d = difference(before, describe(back))
    S.require(d is None, 'round trip changed: %s' % d)
    S.require(back == xc, 'the corpora are not equal')
    kept(S, maps, nsmaps(back))
    S.reach('scopes')


def siblings(S):
    """what one object declares does not hold for those next to it"""
    at = S.params['at']

    def pick(k, a):
        if k in at:
            return dict(nsmap=S.choice(k, [None, {}, {'p': NSU}, {'p': NSV, 'q': NSU}, {'x': 'w'}]), attributes=a)
        return dict(attributes=a)

    def group(cls, k, sub, **kw):
        out = []
        for n in '12':
            a = {'{%s}k' % NSU: k, '{%s}k' % NSV: n}
            args = []
            if cls is MetaChild:
                args = ['e']
                kw['namespace'] = NSU if n == '1' else NSV
            out.append(cls(*args, **dict(pick(k + n, a), **dict(kw, **sub(k + n)))))
        return out

    def none(k):
        return {}

    def md(k):
        return group(Metadata, k + '.md', lambda m: dict(metas=group(Meta, m + '.meta', lambda c: dict(
            children=group(MetaChild, c + '.child', none)) if k == 'corpus' else {})) if 'meta' in S.params['deep'] else {})
    xc = XigtCorpus(metadata=md('corpus'), igts=group(Igt, 'igt', lambda i: dict(tiers=group(Tier, i + '.tier', lambda t: dict(
        items=group(Item, t + '.item', none))), metadata=md(i)) if i == 'igt1' else {}), **pick('corpus', {}))
    before = describe(xc)
    back = xigtjson.loads(xigtjson.dumps(xc))
    d = difference(before, describe(back))
    S.require(d is None, 'round trip changed: %s' % d)
    kept(S, nsmaps(xc), nsmaps(back))
    S.reach('siblings')


def documents(S):
    """documents written and read one after the other have nothing to do with each other"""
    maps = [None, {}, {'p': NSU}, {'p': NSV}, {'q': NSU, 'p': NSV}]
    keys = ['{%s}k' % NSU, '{%s}k' % NSV, 'p:k', 'k']

    def make(n, deep):
        m = S.choice('map' + n, maps)
        a = {S.choice('key' + n, keys[:2] if n == '1' else keys): n}
        inner = MetaChild('e', namespace=S.choice('ns', [None, NSU]) if n == '2' else NSU, attributes=dict(a))
        return XigtCorpus(nsmap=None if deep else m, attributes=dict(a), igts=[Igt(id='i', nsmap=m if deep else None, attributes=dict(a), tiers=[Tier(attributes=dict(a))],
                          metadata=[Metadata(metas=[Meta(children=[inner])])])])
    deep = S.flag('deep')
    one, two = make('1', deep), make('2', deep)
    # a key that looks like one with a prefix is one where the prefix is declared
    S.assume(not any('p:k' in x.attributes and 'p' in x.nsmap for x in (two, two[0])))
    order = S.choice('order', ['roundtrip', 'write', 'read', 'refused'])
    if order == 'roundtrip':
        xigtjson.loads(xigtjson.dumps(one))
    elif order == 'write':
        xigtjson.dumps(one)
    elif order == 'read':
        s = xigtjson.dumps(one)
        xigtjson.loads('{"igts": []}')
        xigtjson.loads(s)
    else:
        try:
            xigtjson.loads('{"namespaces": {"p": "%s"}, "metadata": [{"metas": [{"children": [{}]}]}]}' % NSU)
        except KeyError:
            pass
    before = describe(two)
    back = xigtjson.loads(xigtjson.dumps(two))
    d = difference(before, describe(back))
    S.require(d is None, 'round trip after that of another document: %s' % d)
    kept(S, nsmaps(two), nsmaps(back))
    S.reach('documents')


SIBS = [['igt1', 'igt2'], ['igt1.tier1', 'igt1.tier2'], ['igt1.tier1.item1', 'igt1.tier1.item2'], ['igt1.tier1', 'igt2'], ['igt1.tier1.item2', 'igt1.tier2'],
        ['corpus.md1', 'corpus.md2'], ['corpus.md1.meta1', 'corpus.md1.meta2'], ['corpus.md1.meta1.child1', 'corpus.md1.meta1.child2'],
        ['corpus.md1.meta1.child2', 'corpus.md1.meta2'], ['corpus.md2', 'igt1'], ['corpus', 'igt1']]


def wrong(S):
    o = S.choice('o', ['igt', 'tier', 'item', 'none', 'text'])
    o = {'igt': Igt(), 'tier': Tier(), 'item': Item(), 'none': None, 'text': 'x'}[o]
    out = S.stringio()
    S.require(raises(lambda: xigtjson.dumps(o), XigtError) is not None, 'only a corpus can be written')
    S.require(raises(lambda: xigtjson.dump(out, o), XigtError) is not None, 'only a corpus can be written')
    S.reach('wrong')


def shapes(t):
    out, n = [dict(vary=['igt.nsmap', 'child.nsmap', 'child.ns', 'grandchild.ns'], where='igt', how='string')], 0
    for o in OBJECTS:
        ks = OBJECTS[o]
        for i in range(len(ks)):
            for j in range(i) if i else [0]:
                n += 1
                where = {'cmd': 'corpus', 'imd': 'igt'}.get(o, ('igt', 'corpus', 'tier')[n % 3])
                how = ('string', 'file', 'path')[(n // 3) % 3]
                d = dict(vary=[o + '.' + ks[i], o + '.' + ks[j]], where=where, how=how)
                if how == 'path':
                    d['mode'] = 'full' if n % 2 else 'incremental'
                out.append(d)
                if 'ns' in (ks[i], ks[j]) or 'nsattr' in (ks[i], ks[j]):
                    out.append(dict(vary=d['vary'], where=where, how='string', declared=False, indent=None))
    if t != 'quick':
        fields = [o + '.' + k for o in OBJECTS for k in OBJECTS[o]]
        for i, a in enumerate(fields):
            for b in fields[:i]:
                if a.split('.')[0] != b.split('.')[0]:
                    out.append(dict(vary=[a, b], where='igt', how='string'))
            out.append(dict(vary=[a], where='igt', how='string', n=3))
    return out


HARNESSES = [('roundtrip', shapes, ['roundtrip']), ('wrong', lambda t: [{}], ['wrong']),
             ('scopes', lambda t: [dict(chain=c, maps=4 if t == 'quick' else 7) for c in CHAINS], ['scopes']),
             ('siblings', lambda t: [dict(at=a if t == 'quick' else a + ['igt1.md1'], deep=['meta']) for a in SIBS], ['siblings']),
             ('documents', lambda t: [{}], ['documents'])]
