"""X01: writing a corpus as XML and reading it back gives an equal corpus."""
from xigt import XigtCorpus, Igt, Tier, Item, Metadata, Meta, MetaChild
from xigt.codecs import xigtxml
from harness.corpora import (fill, clean, usable, build, describe, difference, OBJECTS, CHAINS, MAPS, scoped,
                             unprefixed, NSU, NSV, KNOWN)

PROPERTY = 'X01'
BOUNDS = ('corpora holding every kind of object (metadata with a meta with nested elements on the corpus, igt or tier); two '
          'fields at a time (thorough: also longer strings) vary over absent and arbitrary strings of 0..1 (thorough 0..2) '
          'characters with XML-special, white-space and non-ASCII ones, texts of up to 3 letters and blanks, ids over identifier characters, zero or two members, '
          'prefix and default namespace declarations at corpus, igt, item and nested elements, attributes and nested elements in namespaces; chains of three levels that declare namespaces anew, hide or lack them, with every object using all those declared; attributes in well-known namespaces whose usual '
          'prefixes are or are not declared, for them or others; indent '
          'None, 0, 1, 2')
ASSUMES = ['texts contain no carriage return and only characters XML allows', 'an item text is not empty (XML cannot tell '
           'an empty text from an absent one)', 'white-space-only texts of metas and nested elements are not data',
           'a namespace that is used is declared (nsmap) where it is used; only attributes and elements nested in metas are '
           'in namespaces', 'attribute values are strings; attributes are not called id or type (except on nested elements)']


def roundtrip(S):
    p = S.params
    f = fill(S, p['vary'], n=p.get('n', 1), alpha=p.get('alpha', None) or 'a<>&"\' ]\n\t\u4e2d')
    clean(S, f)
    xc = build(f, usable(S, f), where=p['where'])
    before = describe(xc)
    text = xigtxml.dumps(xc, indent=p['indent']) if p['indent'] != 2 else xigtxml.dumps(xc)
    back = xigtxml.loads(text)
    d = difference(before, describe(back))
    S.require(d is None, 'round trip changed: %s' % d)
    S.require(back == xc and xc == back, 'the corpora are not equal')
    S.reach('roundtrip')
    S.observe(text)


def scopes(S):
    """namespaces declared anew, hidden, or not declared further down"""
    p = S.params
    xc = scoped(S, p['chain'], MAPS[:p['maps']])
    before = describe(xc)
    text = xigtxml.dumps(xc, indent=None)
    back = xigtxml.loads(text)
    d = difference(before, describe(back))
    S.require(d is None, 'round trip changed: %s' % d)
    S.require(back == xc, 'the corpora are not equal')
    S.require(not unprefixed(xc, back), 'prefixes stand for what they stood for')
    S.reach('scopes')


def known(S):
    """attributes in namespaces that need no declaration, whose usual prefixes may be declared for others"""
    maps = [None, {'dc': NSU, 'p': NSV}, {'dc': NSV, 'dc_': NSU}, {'p': NSV, 'q': NSU}, {'dc': KNOWN[1][1:-6], 'p': NSV, 'q': NSU}]
    outer = {'p': NSV, 'q': NSU} if S.params['plain'] else {'dc': NSU, 'r': NSV}
    values, objs = {}, []
    for o, cls, args in (('igt', Igt, []), ('tier', Tier, []), ('item', Item, []), ('md', Metadata, []), ('meta', Meta, []),
                         ('child', MetaChild, ['c'])):
        at = {}
        for k in [KNOWN[0], KNOWN[1]] if o in S.params['on'] else [KNOWN[1]]:
            if o not in S.params['on'] or S.flag(o + '?' + k[-4:]):
                at[k] = S.str(o + k[-4:], 0, 1, 'a&') if o in S.params['on'] else 'z'
        for u in (NSU, NSV):
            at['{%s}k' % u] = u
        objs.append(cls(*args, attributes=at, nsmap=S.choice(o + '.nsmap', maps) if o in S.params['on'] else None))
    igt, tier, item, md, meta, child = objs
    igt.append(tier)
    tier.append(item)
    meta.append(child)
    md.append(meta)
    igt.metadata.append(md)
    xc = XigtCorpus(igts=[igt], nsmap=outer)
    before = describe(xc)
    back = xigtxml.loads(xigtxml.dumps(xc))
    d = difference(before, describe(back))
    S.require(d is None, 'round trip changed: %s' % d)
    S.require(not unprefixed(xc, back), 'prefixes stand for what they stood for')
    S.reach('known')


def shapes(t):
    out = [dict(vary=v, where=w, indent=i) for v, w, i in [
        (['child.nsmap', 'child.ns', 'grandchild.ns'], 'igt', None),
        (['igt.nsmap', 'child.ns', 'grandchild.ns'], 'tier', 2),
        (['corpus.nsmap', 'child.ns', 'grandchild.ns', 'grandchild.n'], 'corpus', 1),
        (['igt.nsmap', 'child.nsmap', 'child.ns', 'grandchild.ns'], 'igt', 0)]]
    fields = []
    for o in OBJECTS:
        for k in OBJECTS[o]:
            fields.append(o + '.' + k)
    n = 0
    for i, a in enumerate(fields):
        for j in range(i):
            b = fields[j]
            ao, bo = a.split('.')[0], b.split('.')[0]
            # quick: pairs within one object, plus each field with one of another object
            if t == 'quick' and ao != bo:
                continue
            n += 1
            where = ('igt', 'corpus', 'tier')[n % 3]
            if 'cmd' in (ao, bo):
                where = 'corpus'
            elif 'imd' in (ao, bo):
                where = 'igt'
            out.append(dict(vary=[a, b], where=where, indent=(2, None, 0, 1)[n % 4]))
    # blanks around and between
    for o in ('meta', 'child', 'grandchild', 'item'):
        out.append(dict(vary=[o + '.text', o + '.val'] if t != 'quick' else [o + '.text'], where='igt', indent=2, n=2 if o == 'item' else 3, alpha='a \n'))
    if t != 'quick':
        for a in fields:
            out.append(dict(vary=[a], where='igt', indent=2, n=3))
    return out


HARNESSES = [('roundtrip', shapes, ['roundtrip']),
             ('scopes', lambda t: [dict(chain=c, maps=4 if t == 'quick' else 7) for c in CHAINS], ['scopes']),
             ('known', lambda t: [dict(on=[o], plain=p) for o in ('igt', 'item', 'child') for p in (True, False)] +
              ([] if t == 'quick' else [dict(on=[a, b], plain=False) for a, b in (('igt', 'tier'), ('tier', 'item'), ('meta', 'child'), ('igt', 'md'))]),
              ['known'])]
